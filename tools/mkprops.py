import json
P=[]
SRC="src/mathml_to_latex/"
U=SRC+"el_to_tex/usecases.py"; AD=SRC+"el_to_tex/adapter.py"; XA=SRC+"xml_to_mathml/adapter.py"; EH=SRC+"xml_to_mathml/services/error_handler.py"; XE=SRC+"xml_to_mathml/services/xml_elements_to_mathml_element.py"; SY=SRC+"syntax.py"; CV=SRC+"converter.py"; WR=SRC+"el_to_tex/services/wrapper.py"; ES=SRC+"el_to_tex/services/escaper.py"; NO=SRC+"el_to_tex/services/normalizer.py"; PR=SRC+"el_to_tex/protocols.py"; FA=SRC+"xml_to_mathml/factory.py"
OUT="return value of the public conversion call"
def p(id,title,statement,over,text,why,files,mech,state="none: the conversion is meant to be a pure function of its argument",obs=OUT,hook=False):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=([] if state.startswith("none") else [dict(name="state",meaning=state,where=files[0])]),observe_at=[obs],hook_needed=None)))

p("P01","Every visible token appears exactly once, in reading order",
 "For every well-formed document, each token element (mi, mn, mo, mtext) that is not inside a phantom, an annotation or a hidden action alternative contributes its text to the LaTeX exactly once; nothing is dropped, duplicated or invented, however many siblings there are and however they are nested. Tokens come out in document order, except that a root's index precedes its radicand, an over/under annotation precedes its base, and prescripts precede the base they belong to.",
 ["inputs"],"all element trees of any shape, width and nesting whose tokens carry distinguishable names",
 "The tests convert about a hundred small fixed formulas; loss or duplication shows only with particular widths, nestings or sibling patterns.",
 [U,XE,CV],[("per-element conversion joins the children","usecases.py, each convert()"),("DOM to element tree","xml_elements_to_mathml_element.py")])
p("P02","Fractions, roots and scripts keep their structure",
 "A fraction becomes \\frac{numerator}{denominator} or, when bevelled is \"true\", numerator/denominator with each part longer than one character put in \\left( \\right); square roots become \\sqrt{children separated by spaces} and indexed roots \\sqrt[index]{radicand}, an index that contains ] being put in braces. msub, msup, msubsup and munderover become base_{sub}, base^{sup}, base_{sub}^{sup} and base_{under}^{over}. Each argument is exactly the LaTeX of the corresponding child, in the right place, whatever that child contains.",
 ["inputs"],"all trees over fractions, roots and scripts nested in each other and in every other element, any attribute values",
 "Each template is tested on one or two shallow examples; swapped, truncated or conditionally altered arguments at other shapes go unseen.",
 [U],[("MFrac, MRoot, MSqrt, MSub, MSup, MSubsup, MUnderover","usecases.py"),("parenthesis wrapper","services/wrapper.py")])
p("P03","A script applies to its whole base",
 "In msup, msub, msubsup, munderover and mmultiscripts the scripts attach to exactly the base child: a base that (seen through wrappers with a single child) has several children is enclosed in \\left( \\right) unless its LaTeX is one character, a base with a single child or a bare token is not enclosed, and an empty base becomes {}. No output ever contains two superscripts or two subscripts on one LaTeX atom, or a script that has nothing to stand on (tables without a fence of their own, and symbols whose own LaTeX is a script, aside).",
 ["inputs"],"all bases of any shape, including chains of wrappers, nested scripts, empty and invisible bases",
 "Tests cover a couple of bases; whether the grouping is right depends on the shape below any number of wrapper levels.",
 [U,WR],[("base handling shared by the script elements","usecases.py ScriptedBase"),("wrap_if_more_than_one_char","wrapper.py")])
p("P04","Fences keep their delimiters and separators",
 "An mfenced without a table becomes \\left OPEN parts \\right CLOSE, where OPEN and CLOSE are the attributes as given (default parentheses when absent or empty). Between consecutive parts stands the corresponding character of the separators attribute, ignoring white space in it, its last character being repeated when there are fewer separators than gaps, and a comma when there are none. There is never a separator before the first or after the last part, LaTeX's special characters among the separators are escaped, and a separator that is a letter is kept apart from a command before it.",
 ["inputs"],"all numbers of parts, all separator strings shorter, equal or longer than the gaps, all delimiters, nested fences",
 "Separator indexing depends on two independent lengths; tests sample a handful of pairs.",
 [U,WR],[("MFenced and Vector","usecases.py"),("JoinWithManySeparators","wrapper.py")])
p("P05","Tables keep every cell in its row and column",
 "A table's rows are separated by \\\\ and the cells of a row by &, each cell in its own row and column, empty cells and ragged rows included. A table inside a fence becomes the environment that fits the fence (pmatrix, bmatrix, Bmatrix, vmatrix, Vmatrix for matching round, square, curly, single and double bars; otherwise matrix inside \\left \\right when the delimiters differ, bmatrix when they are equal), and a table nested anywhere in another table is enclosed in its own matrix environment, so cells of different tables never mix.",
 ["inputs"],"all table sizes, ragged rows, empty cells, cells with any content, nested tables and fences at any depth",
 "Tests have a few 2x2 and 3x3 tables; alignment errors depend on sizes, emptiness and nesting.",
 [U],[("MTable, MTr, inner table flag","usecases.py"),("Matrix environment choice","usecases.py Matrix")],
 state="a flag set on table elements nested in another table while converting")
p("P06","Enclosures and errors mark exactly their content",
 "menclose turns its children (separated by spaces) into the LaTeX construct of its notation: actuarial, radical, box, roundedbox, circle, left, right, top, bottom, the two diagonal strikes, the diagonal arrow, horizontal and vertical strikes, madruwb and phasorangle each have one fixed form, and any other or missing notation is a long division. merror becomes \\color{red}{children}. The construct encloses all of the element's content and nothing else, and other attributes do not influence it.",
 ["inputs"],"all notations, known and unknown, with any number and kind of children, nested in anything",
 "One test per notation with a single shallow content; content of several children, nesting or unusual notation values are not covered.",
 [U],[("MEnclose, MError","usecases.py")])
p("P07","Hidden content stays hidden, the rest stays visible",
 "Nothing inside mphantom, annotation or annotation-xml ever reaches the output, whatever it contains and at any depth, and it changes nothing about the LaTeX around it apart from white space. maction shows all alternatives joined by \\Longrightarrow when its actiontype is toggle, empty or missing, and only its first child for every other actiontype. Everything else in the document is unaffected by the presence of such elements.",
 ["inputs"],"all contents of hidden elements and all placements of them, all action types and numbers of alternatives",
 "Tests hide one token once; leaks depend on content, nesting and position.",
 [AD,U],[("Void converter registrations","el_to_tex/adapter.py"),("MAction","usecases.py")])
p("P08","Over- and under-annotations, and accents, take the right argument",
 "mover becomes \\overset{annotation}{base} and munder \\underset{annotation}{base}, except that an annotation whose LaTeX is exactly \\hat, \\bar, \\overbrace, \\underbrace, \\overline or \\underline is applied as a command to the base: \\hat{base}. Base and annotation are exactly the LaTeX of the first and second child, never swapped, for any content.",
 ["inputs"],"all bases and annotations including every accent character directly or through wrappers",
 "Tests cover a few accents over single letters.",
 [U],[("UnderOverSetter, GenericUnderOver","usecases.py")])
p("P09","Multiscripts keep every script in its pair and side",
 "In mmultiscripts the children after the base are read as (subscript, superscript) pairs, those after mprescripts being prescripts; every pair is kept, in order. Each prescript pair gives \\_{sub}^{sup} before the base; postscript pairs give _{sub}^{sup} after it, a further pair standing on {}. A missing last superscript is empty, a base whose LaTeX contains white space is put in \\left( \\right), and scripts never move to another position or to the other side.",
 ["inputs"],"any number of pre- and postscript pairs, odd lists, none placeholders, missing mprescripts, any base",
 "Tests have four fixed examples with at most one pair per side.",
 [U],[("MMultiscripts","usecases.py")])
p("P10","A wrong number of children is always reported, precisely",
 "An mfrac, mroot, msub, msup, mover or munder without exactly 2 children, an msubsup or munderover without exactly 3, an mmultiscripts with fewer than 3, or a non-toggle maction with none makes the conversion raise InvalidNumberOfChildrenError, at any depth and in any formula of the document that is visible. The message names that element, the number expected (exactly or at least) and the number found. No document whose elements all have an admissible number of children raises it.",
 ["inputs"],"every such element with every wrong count, anywhere in an otherwise valid document",
 "Tests try one wrong count per element at top level.",
 [U,PR],[("child count guards","usecases.py"),("InvalidNumberOfChildrenError","protocols.py")], obs="exception raised by the public conversion call")
p("P11","Wrappers, unknown elements and unrelated attributes are neutral",
 "Putting any element (other than a table's rows and cells, or the prescripts mark) alone inside mrow, mstyle, mpadded, semantics or an element the library does not know (one with the prefix of another vocabulary included) leaves the LaTeX of the whole document unchanged. Adding attributes the element does not use (class, id, style, href, selection, linethickness, prefixed ones of other vocabularies and so on) to any element, whatever their values, changes nothing either.",
 ["inputs"],"all documents, all positions, any number of wrapper levels, any unused attribute names and values",
 "It relates two documents; tests look at one at a time.",
 [AD,U,XE],[("generic spacing wrapper as default","el_to_tex/adapter.py"),("attribute lookups","usecases.py")])
p("P12","Conversion is compositional",
 "The LaTeX of a sub-expression does not depend on where in the document it stands, on its siblings, or on what comes before it: converting it alone gives the same LaTeX as converting it in place. Replacing it by another sub-expression changes the output exactly where its LaTeX stood and nowhere else, except where the enclosing element by its definition looks at its argument (the base of scripts, a bevelled fraction, an accent, a root index, a fence or table around a table).",
 ["inputs"],"all pairs of a context with a hole and a sub-expression put into it",
 "It relates several conversions with each other; context dependence shows only for particular pairs.",
 [U,CV],[("recursive conversion through the adapter","el_to_tex/adapter.py")])
p("P13","The symbol dictionary is applied completely and consistently",
 "Every Unicode character, alone in an mi, mo or mn, comes out as the LaTeX recorded for it in the library's reviewed symbol dictionary, and as itself (LaTeX's special characters escaped) when it has none; the same holds for the recorded multi-character operators such as ||, ... or &#x2211; written as text. The result for a symbol is the same wherever in a formula the token stands and whatever conversions came before.",
 ["inputs"],"all 1.1 million XML characters and all recorded multi-character keys, in each kind of token",
 "Tests pin some two thousand characters one by one in fixed contexts; the rest of Unicode and all other contexts are unchecked.",
 [SY,U],[("symbol tables","syntax.py"),("lookup order","usecases.py Character, Operator, MN")])
p("P14","Symbols keep their identity",
 "An accented Latin letter converted to an accent command has its own base letter (same case) as the argument; a styled mathematical letter or digit keeps its letter and digit inside the font command; a fraction or circled, sub- or superscript digit keeps its value; an arrow keeps its direction. The exceptions the test suite itself pins (a Greek capital theta symbol as \\theta, two Greek letters transliterated, one bold chi, a few curled arrows) are recorded and keep the LaTeX they have.",
 ["inputs"],"all characters with a Unicode decomposition or name that fixes their meaning, apart from the recorded exceptions the test suite pins",
 "The tests pin entries, including wrong ones; they do not relate an entry to the character's meaning.",
 [SY],[("vowels_with_accents, special_font_chars and the glyph tables","syntax.py")])
p("P15","Identifier variants give the right font",
 "An mi with mathvariant bold, italic, bold-italic, double-struck, script, bold-script, fraktur, bold-fraktur, sans-serif, bold-sans-serif, sans-serif-italic, sans-serif-bold-italic or monospace has its LaTeX enclosed in the corresponding font command (\\mathbf, \\mathit, \\mathbf{\\mathit{}}, \\mathbb, \\mathcal, \\mathfrak, \\mathsf, \\mathtt and their combinations), whatever its text. Any other value, an empty one, or none leaves the LaTeX of the identifier as it is.",
 ["inputs"],"all variant values, known and unknown, crossed with all identifier texts and contexts",
 "Tests check each variant on one letter.",
 [U],[("MI variant table","usecases.py MI")])
p("P16","Text keeps its words, spaces and style",
 "In mtext every run of ASCII letters, digits and spaces becomes one \\text{...} (or \\textbf, \\textit, \\textit inside \\textbf for bold-italic, \\mathbb, \\mathtt, \\mathfrak by mathvariant) each run of white space inside it being a single space, and every other character becomes its identifier LaTeX between the runs, in order. A command is kept apart from a following letter by a space, and leading and trailing white space of the element is ignored.",
 ["inputs"],"all strings over letters, digits, white space, punctuation and other Unicode, with every variant",
 "Tests cover a few phrases; segmentation depends on the sequence of character classes.",
 [U],[("MText segmentation and joining","usecases.py MText, TextCommand")])
p("P17","Token text cannot inject LaTeX",
 "LaTeX's special characters # $ % & _ { } ^ ~ and backslash in the text of a token, or among fence separators, come out escaped, so that no text that is not an entry of the symbol dictionary can open or close a group, start a comment or a command, switch mode or create a script or an alignment. The escaped output still shows each of those characters, once and in order.",
 ["inputs"],"all strings that mix specials with other characters, in every token kind and position",
 "Tests contain no special character outside the dictionary.",
 [ES,U],[("LaTeXEscaper","services/escaper.py"),("fallbacks of the token converters","usecases.py")])
p("P18","The whole text of a token is used, and only white space changes",
 "The text of an mi, mo or mn is all its character data - pieces separated by comments, processing instructions or CDATA boundaries included, comments themselves excluded - with white space trimmed and collapsed to single spaces. Text without an entry in the dictionary, such as numbers, names and foreign letters of any length, comes out verbatim.",
 ["inputs"],"all token texts and all ways to split them into character data, CDATA and references",
 "Tests have plain single-piece texts of a few characters.",
 [XE,NO,U],[("text extraction","xml_elements_to_mathml_element.py"),("white space normalizer","normalizer.py")])
p("P19","Equivalent XML gives identical LaTeX",
 "Spelling choices that XML defines as equivalent never change the result: attribute order and quotes, character references, CDATA, entities declared in the document, comments and processing instructions, white space and line endings between elements and inside tags, self-closing tags, an XML declaration, a byte order mark, or an unprefixed namespace declaration.",
 ["inputs"],"all documents and all combinations of equivalent spellings of them",
 "It relates many spellings of one document; tests use one spelling each.",
 [XA,XE],[("text pre-processing before parsing","xml_to_mathml/adapter.py"),("DOM walk","xml_elements_to_mathml_element.py")])
p("P20","The mml: prefix of word processors is only a prefix",
 "A document whose tags and attributes carry the mml: prefix, all of them or only some, converts to the same LaTeX as without it. The text of tokens and the values of attributes are not touched by this, even where they contain mml: or look like it.",
 ["inputs"],"all documents, all subsets of prefixed tags and attributes, all texts around mml:",
 "Tests have one prefixed document and no text that contains the prefix.",
 [XA],[("prefix removal","xml_to_mathml/adapter.py")])
p("P21","Attributes without a value are forgiven, and nothing else is lost",
 "A document that is well-formed except that start tags carry attributes without a value (name or name=), any number of them anywhere, converts like the same document with those attributes removed. Every other attribute, all text, comments and CDATA keep their meaning, even when they contain text that looks like such an attribute or tag.",
 ["inputs"],"all documents, all numbers and placements of valueless attributes, quotes, line breaks and look-alikes in text",
 "Tests have three documents with such attributes; the repair works on raw text and depends on everything around.",
 [EH,XA],[("regular expression repair","error_handler.py"),("retry loop","xml_to_mathml/adapter.py")])
p("P22","Malformed XML is rejected, never converted in part",
 "A document that is not well-formed XML for any reason other than valueless attributes - cut off anywhere, mismatched, unclosed or overlapping tags, undefined entities, bare ampersands or angle brackets, duplicate attributes, several roots, text outside the root, illegal characters - makes the conversion raise the XML parser's error (ExpatError). It never returns LaTeX, in particular not LaTeX of the part that could be read.",
 ["inputs"],"all truncation points and all single corruptions of well-formed documents",
 "Tests have no malformed document apart from the repairable ones.",
 [XA,EH],[("parse and retry","xml_to_mathml/adapter.py"),("ErrorHandler","error_handler.py")], obs="exception raised by the public conversion call")
p("P23","Every formula of a document is converted once, in order",
 "When a document holds several math elements, at any depth inside any other markup, the result is the LaTeX of each of them, in document order, joined by single spaces, formulas that are empty being left out. A math element inside another is part of the outer one; content outside of math never contributes; and a document without formulas gives the empty string.",
 ["inputs"],"all documents with any number of formulas among any other markup",
 "Tests convert one formula at a time.",
 [CV,XA],[("formula list and join","converter.py"),("outermost math elements","xml_to_mathml/adapter.py")])
p("P24","Every input has one of three outcomes",
 "For every string of Unicode characters (lone surrogates aside) the conversion either returns a string, raises the XML parser's error, or raises InvalidNumberOfChildrenError; no other exception ever escapes (nesting beyond the supported depth aside) and it always terminates. For well-formed documents within the supported nesting the XML error is not an option, and for documents with admissible numbers of children the result is always a string.",
 ["inputs"],"arbitrary strings, arbitrary well-formed XML (any element and attribute names, elements in unexpected places, empty elements everywhere)",
 "Unexpected exceptions hide in combinations nobody thought of testing.",
 [CV,U,XA,XE],[("public entry point","converter.py")], obs="outcome of the public conversion call")
p("P25","The result is one normalised line",
 "The LaTeX returned has no line breaks or tabs, no leading or trailing white space and never two white space characters in a row, whatever the input's layout or content.",
 ["inputs"],"all documents and spellings, with white space of every Unicode kind anywhere",
 "Tests compare fixed strings.",
 [U,NO,CV],[("white space normalizer","usecases.py Math, normalizer.py")])
p("P26","The result is well-formed LaTeX",
 "In the LaTeX of every document (whose symbols and fence delimiters are themselves balanced), braces balance, every \\begin has its \\end, \\left and \\right pair up with a delimiter each, scripts are followed by a group, & and \\\\ of a fenced or nested table stay inside its environment, and no two superscripts or subscripts follow one another on the same atom. A command is never fused with a following letter into another command.",
 ["inputs"],"all documents over all elements except the enclosures left, right and madruwb, which are one-sided",
 "Tests compare strings and never parse the LaTeX.",
 [U],[("all templates","usecases.py")])
p("P27","A conversion depends only on its own input",
 "Converting the same document always gives the same outcome: independent of how many and which documents were converted before in the process, of failures among them, of the object it is called on, and of previous conversions of the same or similar documents. A failed conversion leaves nothing behind that could influence a later one.",
 ["histories"],"all sequences of conversions, valid and failing, of thousands of documents including near-duplicates, in any order",
 "Tests run each conversion once; leaked or cached state shows only in particular sequences.",
 [CV,XA,FA,U,SY],[("fresh adapters per conversion","converter.py, factory.py"),("module level tables","syntax.py")],
 state="module-level tables and any cache, default argument or class attribute", obs="outcomes along recorded histories")
p("P28","Conversions may run in many threads at once",
 "Any number of threads may convert at the same time, on shared or separate converter objects: every conversion gives the outcome it gives alone, whatever the interleaving, and none blocks another for good.",
 ["schedules"],"all interleavings of concurrent conversions, switched at any line of the library's code",
 "Tests are single-threaded.",
 [CV,XA,FA,U,SY],[("no shared mutable state","factory.py, converter.py")],
 state="module-level or class-level state shared by threads", obs="outcomes recorded per thread under controlled and free-running schedules")
p("P29","The environment does not influence the result",
 "The outcome of a conversion is the same under every hash seed, locale, UTF-8 mode, optimisation level (-O, -OO), working directory, warning filter, garbage collection setting and recursion margin, on the class or on an instance, from the main thread or another, and in a fresh process as in a long-lived one.",
 ["configurations","inputs"],"all combinations of interpreter settings, crossed with a corpus that drives every element",
 "Tests run in one configuration.",
 [CV,U,SY],[("set and dict iteration, assertions, encodings","whole package")], obs="outcomes compared across processes")
p("P30","Converting has no side effects",
 "A conversion opens no file, socket or process, imports nothing from the input, resolves no external entity or DTD, writes nothing to standard output or error, emits no warning, and changes no global state: the library's tables, the interpreter's settings (recursion limit, locale, warning filters, environment) and the argument are after it as they were before.",
 ["inputs"],"all documents, including hostile ones with external entities and DTDs, valid or failing",
 "Tests look only at return values.",
 [XA,SY,CV],[("XML parsing","xml_to_mathml/adapter.py"),("module tables","syntax.py")],
 state="process-wide state and the library's tables", obs="interpreter audit events and before/after snapshots")
p("P31","Work stays proportional to the input",
 "The work of a conversion grows in proportion to the document for wide documents (more siblings, rows, cells, scripts, formulas, attributes or longer texts) and no more than with the product of size and depth for deep ones; it never grows exponentially with nesting, nor does the output. Hostile text - long runs of spaces, quotes, brackets or unfinished tags - does not make it blow up either.",
 ["inputs"],"all document families that grow in one dimension, and malformed texts that grow the same way",
 "Tests convert tiny documents.",
 [U,XA,EH],[("recursive conversion, each child once","usecases.py"),("regular expressions on raw text","error_handler.py, adapter.py")], obs="counted interpreter steps per conversion as the input grows")
p("P32","Deep nesting is supported",
 "With Python's default recursion limit, documents nested at least 150 levels deep in any single kind of element, or in any mixture, and tables nested 60 deep, convert correctly and completely. Beyond its capacity the conversion raises RecursionError and never returns a wrong result, and conversions after such a failure are unaffected.",
 ["inputs"],"all nesting depths up to 150 for every element and for mixtures, and depths far beyond",
 "Tests nest at most a few levels.",
 [U,XE,AD],[("recursion over the element tree","usecases.py, xml_elements_to_mathml_element.py")])
p("P33","Converting does not accumulate memory",
 "Converting the same documents over and over, or ever new ones, successfully or not, retains no memory: after any number of conversions and a garbage collection the process holds as much as after the first few (a cache of bounded size aside), whatever the elements, attributes, texts, spellings and errors in the documents.",
 ["histories"],"all documents and failures, repeated any number of times in one process",
 "A test converts each document once; what a conversion leaves behind is invisible until a service has run for days.",
 [CV,XA,U,EH],[("objects made per conversion","converter.py, xml_to_mathml/factory.py")],
 "memory the process holds","the interpreter's count of allocated memory blocks after a full collection")
p("P34","An interruption gets through and leaves nothing behind",
 "When an exception from outside (KeyboardInterrupt, SystemExit, MemoryError, a timeout or cancellation raised by a signal handler) strikes a conversion, at whatever point, the conversion ends with that very exception: it is not swallowed, not replaced, and the conversion does not go on. Every later conversion in the process gives the outcome it gives in a fresh process, also when the interrupted conversion was the first one.",
 ["crash_points","inputs","histories"],"all points of all conversions at which an exception can strike, and all conversions afterwards",
 "Tests let every conversion run to its end.",
 [XA,EH,CV,U],[("the retry around the parser","xml_to_mathml/adapter.py"),("no state outside of the conversion","factory.py, converter.py")],
 state="whatever a conversion builds up while it runs", obs="the exception that comes out, and the outcomes of later conversions")
p("P35","A conversion may run within another one",
 "A conversion that starts while another one is running in the same thread (in a signal handler, a finaliser, a garbage collection callback, a trace or audit hook), at whatever point of the other one, finishes and gives the outcome it gives alone; so does the one it interrupted. The first conversion of a process is no exception, but for the moments in which the standard library's parser imports its own modules.",
 ["schedules","inputs"],"all points of a conversion at which another one can start, and all pairs of documents",
 "Tests run one conversion after another.",
 [CV,XA,FA,U,SY],[("fresh adapters per conversion","converter.py, xml_to_mathml/factory.py")],
 state="module-level, class-level or thread-local state used during a conversion", obs="outcomes of inner and outer conversions")
p("P36","What a conversion yields can be handed on",
 "The result of a conversion is a plain string, and every exception it raises can be copied, deep-copied and pickled (all protocols, any number of times) with its type, message, arguments and public attributes intact. So batches converted by process pools, executors, threads or coroutines, with the conversion function itself as the task, give for every document what a direct call gives, failures included, and never lose a document, stall or break the pool.",
 ["inputs","programs"],"all documents, valid or failing, and all standard ways of handing a result or exception to another place",
 "Tests catch exceptions where they are raised; that an exception survives the way back from a worker process is not exercised by any of them.",
 [EH,U,CV,XA],[("exceptions of the library","el_to_tex/protocols.py"),("a static function as the entry point","converter.py")],
 obs="copies of results and exceptions, and what arrives from worker processes")
p("P37","Conversions survive a fork",
 "A process that is forked while its thread is within a conversion, at whatever point (of its first conversion too), or, once the process has converted a document, beside conversions in other threads, can finish the conversion it inherited and convert further documents, with the outcomes of a fresh process; so can the parent. Nothing hangs.",
 ["schedules","inputs"],"all points of conversions at which a process can be forked",
 "Tests run in one process.",
 [CV,XA,FA,U,SY],[("no locks, threads or per-process state","converter.py, xml_to_mathml/factory.py")],
 state="locks and state that a fork copies halfway", obs="outcomes in parent and child, and whether they arrive")
p("P38","Peak memory is proportional to the document",
 "The most memory a conversion holds at any moment grows in proportion to the document: each further sibling, row, cell, script, attribute, formula or character costs as much in a large document as in a small one, and each further level of nesting costs the same however long the text inside of it is. This holds for documents that fail as well.",
 ["inputs"],"all document families that grow in width, length of text or depth",
 "Tests convert tiny documents and look at results only; memory that is quadratic in the input shows when a large document ends the process.",
 [U,XA,XE,EH],[("results of children are joined and dropped","usecases.py"),("one document object model at a time","xml_to_mathml/adapter.py")],
 obs="traced allocations at the peak of a conversion")
p("P39","The package works however it is installed and imported",
 "The package gives the same outcomes as the source tree when it is built by its own setup.py and installed, zipped, shipped as bytecode only, vendored into another package, renamed, put under any path (read-only ones too), or loaded without files. Any of its modules may be imported first, in any order, by several threads at once through the same door, again after a purge, or twice under two names in one process. Importing prints nothing and changes no setting of the process.",
 ["configurations","programs"],"all ways in which a pure Python package reaches an interpreter and is imported",
 "Tests import the package from the source tree, in one way and one order.",
 [CV,SY,U,XA],[("relative imports between the modules","src/mathml_to_latex"),("everything is Python source in packages that setup.cfg finds","setup.cfg, */__init__.py")],
 obs="outcomes of a corpus in interpreters that have the package in another way")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=True)+'\n')
print(len(P))
