"""Dictionary extraction, as coverage-guided fuzzers do it: the constants of the
library's source steer the generators (texts, names, attribute values, sizes).
They never take part in a verdict."""
import ast
import json
import os
import random
import re
import warnings
from re import _parser

from . import sut


def harvest():
    """(strings, integers, pairs of strings that one function mentions)"""
    strings, ints, pairs = set(), set(), set()
    for d, _, fs in os.walk(sut.PKG_DIR):
        for f in fs:
            if not f.endswith(".py"):
                continue
            try:
                tree = ast.parse(open(os.path.join(d, f), encoding="utf-8").read())
            except (SyntaxError, UnicodeDecodeError):
                continue
            big = set()
            for n in ast.walk(tree):
                if isinstance(n, ast.Dict) and len(n.keys) > 30:
                    for m in ast.walk(n):
                        big.add(id(m))
            for n in ast.walk(tree):
                if isinstance(n, ast.FunctionDef):
                    own = sorted({m.value for m in ast.walk(n) if isinstance(m, ast.Constant) and isinstance(m.value, str) and 0 < len(m.value) <= 40})
                    if len(own) <= 25:
                        pairs.update((a, b) for a in own for b in own if a != b)
                if id(n) in big or not isinstance(n, ast.Constant):
                    continue
                if isinstance(n.value, str) and 0 < len(n.value) <= 60:
                    strings.add(n.value)
            # the compiler folds 1 << 12 and 64 * 1024
            stack = [compile(tree, f, "exec")]
            while stack:
                for c in stack.pop().co_consts:
                    if hasattr(c, "co_consts"):
                        stack.append(c)
                    elif type(c) is int and 2 <= abs(c) <= 200000:
                        ints.add(abs(c))
                    elif type(c) in (tuple, frozenset):
                        ints.update(abs(x) for x in c if type(x) is int and 2 <= abs(x) <= 200000)
    words = set()
    for s in strings:
        words.add(s)
        for w in re.findall(r"[A-Za-z][A-Za-z0-9_:-]*", s):
            words.add(w)
        if len(s) <= 12:
            for ch in s:
                words.add(ch)
    return sorted(w for w in words if _ok(w)), sorted(ints), sorted(p for p in pairs if _ok(p[0]) and _ok(p[1]))


def regexes():
    """the string constants that look like patterns or stand in a call of re"""
    out = set()
    for d, _, fs in os.walk(sut.PKG_DIR):
        for f in fs:
            if not f.endswith(".py"):
                continue
            try:
                tree = ast.parse(open(os.path.join(d, f), encoding="utf-8").read())
            except (SyntaxError, UnicodeDecodeError):
                continue
            inside = {id(m) for n in ast.walk(tree) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                      and isinstance(n.func.value, ast.Name) and n.func.value.id in ("re", "regex")
                      for a in n.args[:1] for m in ast.walk(a)}
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and isinstance(n.value, str) and 1 < len(n.value) <= 400 and \
                        (id(n) in inside or not re.search(r"\\[a-zA-Z]{2}", n.value) and re.search(r"\\[dwsDWSb]|\[[^\]]+\]|\(\?|[)\]\w.][*+?]", n.value)):
                    out.add(n.value)
    return sorted(out)


def samples(pattern, r, n=24):
    """strings that the pattern matches, as far as a walk over its parse tells"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            tree = _parser.parse(pattern)
            compiled = re.compile(pattern)
        except (re.error, RecursionError, OverflowError):
            return []
    out = []
    for i in range(n):
        try:
            s = "".join(_walk(tree, r, {}))
        except (ValueError, KeyError, IndexError):
            continue
        if 0 < len(s) <= 80 and _ok(s) and compiled.search(s):
            out.append(s)
    return sorted(set(out))


CLASSES = {"CATEGORY_DIGIT": "0123456789\u0663", "CATEGORY_SPACE": " \t\n\u00a0", "CATEGORY_WORD": "abXYz019_\u03b1", "CATEGORY_NOT_DIGIT": "aX+- ,", "CATEGORY_NOT_SPACE": "aX1+-,\u03b1",
           "CATEGORY_NOT_WORD": " +-,.()"}


def _pick(items, r):
    negate, pool = False, []
    for op, arg in items:
        op = str(op)
        if op == "NEGATE":
            negate = True
        elif op == "LITERAL":
            pool.append(chr(arg))
        elif op == "RANGE":
            pool += [chr(arg[0]), chr(arg[1]), chr(r.randint(*arg)), chr((arg[0] + arg[1]) // 2)]
        elif op == "CATEGORY":
            pool += list(CLASSES[str(arg)])
    if negate:
        pool = [c for c in "aZ09 +-,.()xyz_\u03b1\u4e2d" if c not in pool]
    return r.choice(pool)


def _walk(tree, r, groups):
    for op, arg in tree:
        op = str(op)
        if op == "LITERAL":
            yield chr(arg)
        elif op == "NOT_LITERAL":
            yield r.choice([c for c in "aZ09 +" if c != chr(arg)])
        elif op == "ANY":
            yield r.choice("aZ0 +-\u03b1")
        elif op == "IN":
            yield _pick(arg, r)
        elif op == "CATEGORY":
            yield r.choice(CLASSES[str(arg)])
        elif op == "BRANCH":
            yield from _walk(r.choice(arg[1]), r, groups)
        elif op == "SUBPATTERN":
            groups[arg[0]] = "".join(_walk(arg[3], r, groups))
            yield groups[arg[0]]
        elif op == "GROUPREF":
            yield groups.get(arg, "")
        elif op in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
            lo, hi, sub = arg
            hi = min(int(hi), lo + r.choice([0, 1, 1, 2, 3, 8]))
            for _ in range(r.randint(lo, hi)):
                yield from _walk(sub, r, groups)
        elif op == "ATOMIC_GROUP":
            yield from _walk(arg, r, groups)
        elif op == "ASSERT" and arg[0] > 0:
            yield "".join(_walk(arg[1], r, groups))


MATHML = """abs and annotation annotation-xml apply approx arccos arccosh arccot arccoth arccsc arccsch arcsec arcsech arcsin arcsinh arctan arctanh arg bind bvar card
cartesianproduct cbytes ceiling cerror ci cn codomain complexes compose condition conjugate cos cosh cot coth cs csc csch csymbol curl declare degree determinant diff divergence divide
domain domainofapplication el emptyset eq equivalent eulergamma exists exp exponentiale factorial factorof false floor fn forall gcd geq grad gt ident image imaginary imaginaryi implies in
infinity int integers intersect interval inverse lambda laplacian lcm leq limit list ln log logbase lowlimit lt maction maligngroup malignmark math matrix matrixrow max mean median
menclose merror mfenced mfrac mglyph mi min minus mlabeledtr mlongdiv mmultiscripts mn mo mode moment momentabout mover mpadded mphantom mprescripts mroot mrow ms mscarries mscarry
msgroup msline mspace msqrt msrow mstack mstyle msub msubsup msup mtable mtd mtext mtr munder munderover naturalnumbers neq none not notanumber notin notprsubset notsubset or otherwise
outerproduct partialdiff pi piece piecewise plus power primes product prsubset quotient rationals real reals reln rem root scalarproduct sdev sec sech selector semantics sep set setdiff
share sin sinh span subset sum tan tanh tendsto times transpose true union uplimit variance vector vectorproduct xor a abbr b br button div em h1 head body html img input label li ol p
pre script style sub sup svg table td th tr title u ul xml-x oMath r t f num den e deg rad sSup sSub d m fontname""".split()


def identifiers():
    """names that a dispatch by name could take for something: what the source calls its things, in whole and in parts"""
    ids = {"__init__", "__class__", "__dict__", "__call__", "__name__", "__doc__", "convert", "self", "None", "True", "print", "eval", "str", "type", "object", "Exception"}
    for d, _, fs in os.walk(sut.PKG_DIR):
        for f in fs:
            if not f.endswith(".py"):
                continue
            ids.add(f[:-3])
            try:
                tree = ast.parse(open(os.path.join(d, f), encoding="utf-8").read())
            except (SyntaxError, UnicodeDecodeError):
                continue
            for n in ast.walk(tree):
                ids.add(getattr(n, "name", None) or getattr(n, "id", None) or getattr(n, "attr", None) or getattr(n, "arg", None))
    out = set()
    for i in ids:
        if not isinstance(i, str):
            continue
        us = i.strip("_").split("_")
        humps = re.findall(r"[A-Z]+(?![a-z])|[A-Z]?[a-z]+|[0-9]+", i)
        out |= {i, i.lower(), "_".join(humps).lower()} | set(humps) | {h.lower() for h in humps}
        out |= {"_".join(us[a:b]) for a in range(len(us)) for b in range(a + 1, len(us) + 1)}
    return sorted(w for w in out | set(MATHML) if NAME.match(w) and not w.lower().startswith("xml"))


def _ok(w):
    return all(c in "\t\n" or ord(c) >= 0x20 and not 0xD800 <= ord(c) <= 0xDFFF and ord(c) not in (0xFFFE, 0xFFFF)
               for c in w)


NAME = re.compile(r"[A-Za-z_][A-Za-z0-9_.-]*\Z")
WORDS, INTS, PAIRS = harvest()
# constants that the recorded tree did not have get more of the inputs: reach is
# directed at what changed. Verdicts do not depend on this.
_known = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "constants.json"), encoding="utf-8"))
NEW_WORDS = sorted(set(WORDS) - set(_known["words"]))
NEW_REGEXES = sorted(set(regexes()) - set(_known["regexes"]))
_r = random.Random(5)
for _p in NEW_REGEXES[:60]:
    NEW_WORDS += [w for w in samples(_p, _r) if w not in NEW_WORDS]
NEW_INTS = sorted(set(INTS) - set(_known["ints"]))
NEW_PAIRS = [p for p in PAIRS if p[0] in NEW_WORDS or p[1] in NEW_WORDS]
if NEW_WORDS:
    WORDS = WORDS + NEW_WORDS * max(1, len(WORDS) // (2 * len(NEW_WORDS)))
NAMES = [w for w in WORDS if NAME.match(w) and not w.lower().startswith("xml")]
BASE_SIZES = list(range(0, 18)) + [20, 24, 25, 30, 31, 32, 33, 40, 48, 50, 60, 63, 64, 65, 80, 99, 100, 101, 127, 128, 129,
                                   150, 199, 200, 201, 250, 255, 256, 257, 300]
SIZES = sorted(set(BASE_SIZES) | {m for n in INTS for m in (n - 1, n, n + 1) if 0 <= m <= 1200})
_near = {m for n in NEW_INTS for m in (n - 1, n, n + 1, n + 2)} | {m for n in NEW_INTS for k in (2, 3) for m in (k * n, k * n + 1)}
NEW_SIZES = sorted(m for m in _near if 0 <= m <= 1200)
NEW_BIG = sorted(m for m in _near if 1200 < m <= 140000)      # only for a few documents


def size(r, limit):
    """a size worth trying, up to the limit; now and then a larger one that the changed source mentions"""
    new = [s for s in NEW_SIZES if s <= limit]
    if limit >= 100 and NEW_SIZES and r.random() < 0.05:
        new = NEW_SIZES
    return r.choice(new) if new and r.random() < 0.4 else r.choice([s for s in SIZES if s <= limit])


def length(r, limit):
    """the same for the length of a text"""
    return r.choice(NEW_BIG) if NEW_BIG and r.random() < 0.1 else r.choice(NEW_SIZES) if NEW_SIZES and r.random() < 0.3 else size(r, limit)


def embed(r, pool=None):
    """a value with a constant of the library's source somewhere in it, now and then"""
    w = r.choice(pool or WORDS or ["x"])
    p = r.random()
    if p < 0.4:
        return w
    q = r.choice(["x", "a b", "over", "true", "1", "color", "0", "-", ":", ";", " ", "#", "auto"])
    return r.choice(["%s: %s", "%s %s", "%s%s", "%s-%s", "%s:%s;", " %s %s", "%s,%s"]) % ((q, w) if r.random() < 0.5 else (w, q))


def cased(r, w):
    """another casing or padding of a word: another word"""
    return r.choice([w.upper(), w.lower(), w.title(), w.swapcase(), " " + w, w + " ", w + w, w[:-1], w[1:], w[::-1], w + "s", "\t" + w])


# the attributes of MathML, HTML and their frequent values: most mean nothing to the conversion
MATHML_ATTRS = {
    "accent": ["true", "false"], "accentunder": ["true", "false"], "actiontype": ["toggle", "tooltip", "statusline"], "align": ["axis", "left", "center", "baseline 1"],
    "alignmentscope": ["true false"], "altimg": ["x.png"], "alttext": ["x^2", "\\frac{a}{b}"], "arg": ["a"], "background": ["#fff", "red"], "bevelled": ["true", "false"],
    "charalign": ["left"], "charspacing": ["tight"], "cd": ["arith1"], "close": [")", "]", "}", "|", ""], "color": ["red"], "columnalign": ["left", "left right center"],
    "columnlines": ["none solid", "solid"], "columnspacing": ["0.8em"], "columnspan": ["1", "2", "3"], "columnwidth": ["auto"], "crossout": ["updiagonalstrike"],
    "decimalpoint": [".", ","], "definitionURL": ["http://x.y/"], "denomalign": ["left", "center"], "depth": ["0", "2ex"], "dir": ["ltr", "rtl"], "display": ["block", "inline", "none"],
    "displaystyle": ["true", "false"], "edge": ["left"], "encoding": ["TeX", "application/x-tex", "MathML-Content", "text/plain"], "equalcolumns": ["true"], "equalrows": ["true"],
    "fence": ["true", "false"], "fontfamily": ["Times"], "fontsize": ["12pt"], "fontstyle": ["italic", "normal"], "fontweight": ["bold", "normal"], "form": ["prefix", "infix", "postfix"],
    "frame": ["none", "solid", "dashed"], "framespacing": ["0.4em"], "groupalign": ["left"], "height": ["0", "1em"], "hidden": ["", "true", "until-found"], "href": ["#x"], "id": ["x"],
    "indentalign": ["left"], "indentshift": ["1em"], "index": ["1"], "infixlinebreakstyle": ["before"], "intent": ["power($a,2)"], "largeop": ["true", "false"], "length": ["2"],
    "linebreak": ["newline", "auto", "nobreak"], "linethickness": ["0", "0pt", "thin", "medium", "2px", "0.0em"], "location": ["n"], "longdivstyle": ["lefttop"], "lquote": ["'", "<<"],
    "lspace": ["0", "0em", "thickmathspace"], "macros": ["x"], "mathbackground": ["red"], "mathcolor": ["red", "transparent"], "mathsize": ["big", "small", "2em"],
    "mathvariant": ["bold", "italic", "normal", "script"], "maxsize": ["1", "infinity"], "maxwidth": ["10em"], "mediummathspace": ["0"], "minlabelspacing": ["0"], "minsize": ["1"], "mode": ["display", "inline"],
    "movablelimits": ["true", "false"], "name": ["x", "math"], "notation": ["box", "top", "longdiv"], "numalign": ["left"], "open": ["(", "[", "{", "|", ""], "other": ["x"],
    "position": ["1"], "role": ["math"], "rowalign": ["top"], "rowlines": ["none"], "rowspacing": ["1ex"], "rowspan": ["2", "1"], "rquote": ["'"], "rspace": ["0"], "schemaLocation": ["x"],
    "scriptlevel": ["+1", "0", "-1"], "scriptminsize": ["8pt"], "scriptsizemultiplier": ["0.71"], "selection": ["0", "1", "2", "3"], "separator": ["true", "false"], "separators": [",", ";", ""],
    "shift": ["1"], "side": ["left", "right"], "src": ["x"], "stackalign": ["left"], "stretchy": ["true", "false"], "style": ["color: red", "display:none", "visibility: hidden", "direction: rtl", "display: block"],
    "subscriptshift": ["1"], "superscriptshift": ["1"], "symmetric": ["true"], "type": ["x", "integer", "complex-polar"], "valign": ["1"], "voffset": ["1"], "width": ["0", "1em", "0.2222em"], "xref": ["x"],
    "xml:space": ["preserve", "default"], "xml:lang": ["en", "ar"], "lang": ["he"], "class": ["math", "hidden", "MJX-TeXAtom-ORD", "sr-only"], "title": ["x"], "tabindex": ["0"], "aria-hidden": ["true", "false"],
    "aria-label": ["x squared"], "data-latex": ["\\alpha"], "data-mjx-texclass": ["ORD", "OP"], "contenteditable": ["true"], "onclick": ["x()"], "draggable": ["false"], "nonce": ["x"], "slot": ["x"],
    "innerTable": ["innerTable", "true", ""], "value": ["x"], "content": ["x"], "text": ["x"], "tag": ["mi"], "children": ["x"], "accented": ["true"],
}


def unused_attribute(r):
    """(name, value) of some attribute; the caller drops those that mean something where they stand"""
    p = r.random()
    if NEW_PAIRS and p < 0.3:
        k, v = r.choice(NEW_PAIRS)
        if NAME.match(k) and not k.lower().startswith("xml"):
            return k, v if r.random() < 0.5 else embed(r, [v])
    k = r.choice(sorted(MATHML_ATTRS)) if p < 0.75 else r.choice(NAMES) if p < 0.85 and NAMES else cased(r, r.choice(sorted(MATHML_ATTRS))).strip()
    q = r.random()
    v = r.choice(MATHML_ATTRS.get(k, ["x"])) if q < 0.5 else embed(r) if q < 0.85 else cased(r, r.choice(WORDS or ["x"])) if q < 0.93 else r.choice(["", " ", "0", "1", "none", "true", "false", "auto", "\u00a0"])
    if k not in MATHML_ATTRS and not NAME.match(k):
        k = "x"
    return k, v
