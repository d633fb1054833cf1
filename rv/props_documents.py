"""P19 - P26: from XML text to one line of LaTeX."""
import html.entities
import re
import time
import xml.parsers.expat as expat

from . import cover, sut
from .corpus import large
from .diff import expected, mutate, toks
from .gen import ACTIONS, ALLKEYS, FENCES, Gen, IRRELEVANT, MEANINGFUL, NOTATIONS, ODD, SEPS, VARIANTS, shrink
from .harvest import NAMES, NEW_BIG, NEW_SIZES, SIZES, WORDS, identifiers, size, unused_attribute
from .latex import tokens, unbalanced
from .lexicon import LEX, collapse, escape, xml_char
from .model import ENCLOSE, FIXED_ARITY, MI_VARIANT, TEXT_VARIANT, attr
from .node import N, Spelling, _COMMENTS, _PIS, esc_attr, esc_text, plain
from .props_structure import SCRIPTS, visible, wrong_count, valid_arity

A_PUBLIC = "only the public conversion entry point is observed"
A_EXPAT = "Python's expat decides what is well-formed, as it does for the library"


def simplest(xml, bad, budget=800):
    """shrinks a text by deleting chunks while it stays bad"""
    n = max(1, len(xml) // 2)
    tries = 0
    end = time.monotonic() + 30
    while n >= 1 and tries < budget:
        i = 0
        hit = False
        while i < len(xml) and tries < budget and time.monotonic() < end:
            cand = xml[:i] + xml[i + n:]
            tries += 1
            if bad(cand):
                xml = cand
                hit = True
            else:
                i += n
        if not hit or n > 1:
            n //= 2
    return xml


def well_formed(xml):
    p = expat.ParserCreate(namespace_separator=" ")
    try:
        p.Parse(xml, True)
        return True
    except (expat.ExpatError, UnicodeEncodeError):
        return False


# ---------------------------------------------------------------- P19
PROLOGS = ["", "", "", "<?xml version=\"1.0\"?>", "<?xml version='1.0' encoding='UTF-8'?>", "<?xml version=\"1.0\" encoding=\"utf-16\"?>\n",
           "<?xml version=\"1.0\" encoding=\"ISO-8859-1\" standalone=\"yes\"?>\r\n", "<?xml version=\"1.0\" encoding=\"ascii\"?>\n\n",
           "\ufeff", "\ufeff<?xml version=\"1.0\"?>", "<!-- c -->\n", "<?pi d?>", "\n\n  ", "<!DOCTYPE math>", "<!DOCTYPE math [ ]>\n",
           "<!DOCTYPE math [<!-- <math><mi>NO</mi></math> --><!ELEMENT math ANY>]>",
           "<!DOCTYPE math PUBLIC \"-//W3C//DTD MathML 2.0//EN\" \"http://www.w3.org/Math/DTD/mathml2/mathml2.dtd\">\n"]
EPILOGS = ["", "", "", "\n", "  \r\n", "<!-- end -->", "<?end?>\n", "\n<!-- <math/> -->\n"]
ENTITIES = {"x": "ex", "1": "one", "+": "plus", "\u03b1": "alpha", "\u2211": "sum", "(": "lpar", "\u4e2d": "zhong"}


class P19:
    pid = "P19"
    rule = ("random documents, each converted in its plainest spelling and in several random equivalent ones (quotes, attribute order, "
            "references, CDATA, declared entities, comments, instructions, white space, line endings, self-closing tags, declaration, byte order "
            "mark, document type, namespace); outcomes must be equal. Non-trivial: spellings of at least 3 kinds of variation.")
    assumptions = [A_PUBLIC, "the generator of spellings follows XML 1.0"]
    need = {"pairs_compared": 8000, "variation cdata": 500, "variation comment": 500, "variation entity": 500, "variation eol_text": 1, "variation burst of meaningless nodes": 200,
            "prologs": 2000}

    @staticmethod
    def spell(r, t, ctx=None):
        kinds = r.sample(sorted(Spelling.ALL), r.randint(3, len(Spelling.ALL)))
        use_entities = r.random() < 0.3
        s = Spelling(r, kinds + (["entity"] if use_entities else []), ENTITIES if use_entities else {})
        if r.random() < 0.25:
            s.bursts = r.choice([0.02, 0.1, 0.3])
        t = t.clone()
        if r.random() < 0.3:
            t.attrs = dict(t.attrs)
            t.attrs["xmlns"] = "http://www.w3.org/1998/Math/MathML"
            if r.random() < 0.3:
                t.attrs["xmlns:xlink"] = "http://www.w3.org/1999/xlink"
        body = s.element(t)
        if use_entities:
            pro = "<!DOCTYPE math [%s]>" % "".join("<!ENTITY %s %s%s%s>" % (n, q, c, q) for q in "\"'"[:1] for c, n in ENTITIES.items())
            if r.random() < 0.3:
                pro = "<?xml version='1.0' encoding='utf-8'?>\n" + pro
        else:
            pro = r.choice(PROLOGS)
        if pro and ctx:
            ctx.count("prologs")
        xml = pro + body + r.choice(EPILOGS)
        if r.random() < 0.2:
            xml = xml.replace("\n", "\r\n") if r.random() < 0.5 else xml.replace("\n", "\r")
            if ctx:
                ctx.count("variation eol_text")
        if ctx:
            for k, v in s.count.items():
                ctx.count("variation " + k, v)
        return xml, len(s.count)

    @staticmethod
    def shard(ctx):
        r = ctx.rng
        g = Gen(r)
        for i in range(ctx.n(8000, 100000)):
            t = g.formula()
            base = sut.convert(plain(t))
            for _ in range(2):
                xml, kinds = P19.spell(r, t, ctx)
                o = sut.convert(xml)
                ctx.evaluations += 1
                ctx.count("pairs_compared")
                if kinds >= 3:
                    ctx.saw(xml)
                if ctx.shard == 0 and t.size() < 9 and i % 50 == 0:
                    ctx.sample(plain=plain(t), spelled=xml, latex=o.show())
                if tuple(o) != tuple(base):
                    # shrink the tree while some seeded spelling still differs
                    seeds = [r.random() for _ in range(40)]

                    def bad(x):
                        import random as rnd
                        b = sut.convert(plain(x))
                        return any(tuple(sut.convert(P19.spell(rnd.Random(q), x)[0])) != tuple(b) for q in seeds)
                    small = shrink(t, bad, 150) if bad(t) else t
                    import random as rnd
                    sx = [x for x in (P19.spell(rnd.Random(q), small)[0] for q in seeds) if tuple(sut.convert(x)) != tuple(sut.convert(plain(small)))]
                    w = min(sx, key=len) if sx else xml
                    ctx.violate("an equivalent spelling converts differently", xml=w, plain=plain(small) if sx else plain(t),
                                expected=sut.convert(plain(small)).show() if sx else base.show(), got=sut.convert(w).show())
            if ctx.full():
                return


# ---------------------------------------------------------------- P20
MML_TEXTS = ["mml:", "mml:x", "a mml:b", " mml: mml:", "<mml:mi>", "</mml:mi>", "< mml:x", "<mml:", "mml:mi mml:mo", "/mml:x", "x/mml:", "< mml:", "\" mml:x\"",
             "'mml:", "= mml:x", "<a mml:b=\"c\">", "mml", ":mml:", "MML:x", "nmml:x"]


def prefixed(t, r, p, ctx=None):
    t = t.clone()
    for n in t.walk():
        if r.random() < p:
            n.tag = "mml:" + n.tag
            if ctx:
                ctx.count("tags_prefixed")
        at = {}
        for k, v in n.attrs.items():
            if r.random() < p and not k.startswith("xml") and ":" not in k:
                k = "mml:" + k
                if ctx:
                    ctx.count("attributes_prefixed")
            at[k] = v
        n.attrs = at
    return t


class P20:
    pid = "P20"
    rule = ("random documents, with texts and attribute values that contain mml: in many ways, converted without prefixes and with all or a random "
            "subset of tags and attributes prefixed, in random spellings; outcomes must be equal. Non-trivial: at least one prefixed tag.")
    assumptions = [A_PUBLIC]
    need = {"tags_prefixed": 10000, "attributes_prefixed": 1000, "texts_with_mml": 2000, "values_with_mml": 300}

    @staticmethod
    def shard(ctx):
        r = ctx.rng
        g = Gen(r)
        for i in range(ctx.n(12000, 160000)):
            t = g.formula()
            for n in t.walk():
                if not n.kids and n.tag in ("mi", "mo", "mn", "mtext") and r.random() < 0.25:
                    n.text = r.choice(MML_TEXTS) if r.random() < 0.6 else n.text + r.choice(MML_TEXTS)
                    ctx.count("texts_with_mml")
                if n.tag == "mfenced" and r.random() < 0.3:
                    n.attrs[r.choice(["open", "close"])] = r.choice(["mml:(", " mml:x", "a mml:b", "/mml:", "<mml:", "> mml:", "'mml:", "x=\" mml:"])
                    ctx.count("values_with_mml")
                elif r.random() < 0.05:
                    n.attrs["alt"] = r.choice(["a > mml:b", "<mml:mi>", "x mml:y"])
            base = expected([t])
            p = r.choice([1.0, 1.0, 0.5, 0.2])
            kinds = r.sample(sorted(Spelling.ALL - {"entity"}), r.randint(0, 8))
            x = prefixed(t, r, p, ctx)
            xml = Spelling(r, kinds).element(x)
            if r.random() < 0.2:
                xml = "<mml:div>mml: %s</mml:div>" % xml
            o = sut.convert(xml)
            b = sut.convert(plain(t))
            ctx.evaluations += 2
            ctx.count("pairs_compared")
            if any(n.tag.startswith("mml:") for n in x.walk()):
                ctx.saw(xml)
            if ctx.shard == 0 and t.size() < 9 and i % 50 == 0:
                ctx.sample(plain=plain(t), prefixed=xml, latex=o.show())
            if tuple(o) != tuple(b) or (not b.ok and b.error == "ExpatError"):
                ctx.violate("the mml: prefix changes the result", xml=xml, without=plain(t), expected=b.show(), got=o.show())
            elif "mml:" in xml and tuple(b) != base and "mml" in plain(t):
                # text and values: compare with the specification, which knows no prefix
                small = shrink(t, lambda q: tuple(sut.convert(plain(q))) != expected([q]))
                if "mml" in plain(small):
                    e = expected([small])
                    ctx.violate("text or a value that contains mml: is changed", xml=plain(small), expected=e[-1], got=sut.convert(plain(small)).show())
            if ctx.full():
                return


# ---------------------------------------------------------------- P21
class Valueless(Spelling):
    """a spelling with attributes without a value here and there"""
    NAMES = ["open", "close", "display", "class", "x", "stretchy", "mathvariant", "separators", "bevelled", "notation", "a-b", "a_b", "a.b", "data-x",
             "A", "checked", "actiontype", "xlink", "d1", "\u00e9", "a:b", "@click", "mml:x", "ng-if", "*ngIf", "[x]", "(y)", "#ref"]
    p = 0.15
    inserted = 0

    def attrs(self, attrs):
        out = []
        r = self.r

        def junk():
            n = ""
            while r.random() < self.p:
                name = r.choice(self.NAMES) if r.random() < 0.9 else (r.choice(NAMES) if NAMES else "q")
                self.inserted += 1
                n += r.choice([" ", " ", "  ", "\n", "\t"]) + name + r.choice(["", "", "=", "=", " =", "  ="])
                if n.endswith("="):
                    n += r.choice(["", "", " "])
            return n
        items = list(attrs.items())
        if len(items) > 1 and self.maybe("order", 0.5):
            r.shuffle(items)
        for k, v in items:
            out.append(junk())
            q = "'" if self.maybe("quote", 0.4) else '"'
            eq = r.choice([" =", "= ", " = "]) if self.maybe("tagspace", 0.1) else "="
            out.append("%s%s%s%s%s%s" % (self._ws() if self.maybe("tagspace", 0.2) else " ", k, eq, q, self.chars(v, q), q))
        out.append(junk())
        return "".join(out)


LOOK = ["x=''", " x =''", "a ='' b=\"\"", " y=\"\" z", " q='1' q='1'", "a=1", "<a b=''>", "<mi x>", "<mi x=>", "a=b", " open ", "<a b='c' d>", "x= y=", "<mfenced open close>", "' \"", "\" x=\"", "<!--", "-->", "<![CDATA[", "]]", "<?", "=>", "= >", "<mi", "a >"]


class P21:
    pid = "P21"
    rule = ("random documents in random spellings into whose start tags attributes without a value are put (name, name=, none to dozens), with texts, "
            "values, comments and CDATA that look like such tags; the outcome must be that of the document without them. Non-trivial: at "
            "least one such attribute was put in.")
    assumptions = [A_PUBLIC, "name= is followed by white space or the end of the tag"]
    need = {"documents_with_valueless": 4000, "valueless_attributes": 10000, "lookalikes": 2000}

    @staticmethod
    def spell(r, t):
        s = Valueless(r, r.sample(sorted(Spelling.ALL - {"entity"}), r.randint(0, 9)))
        s.p = r.choice([0.05, 0.15, 0.15, 0.4, 0.7])
        xml = s.element(t)
        if r.random() < 0.1:
            xml = r.choice(["<!DOCTYPE math>", "<?xml version='1.0'?>", "<!-- <mi x> <a b= > -->", "<?pi <mi x>?>"]) + xml
        if r.random() < 0.1:
            xml = xml.replace(">", "><!-- <mi a> <b c= x> -->", 1) if xml.startswith("<math") and ">" not in xml.split("<")[1][:-1] and "\"" not in \
                xml.split("<")[1] and "'" not in xml.split("<")[1] else xml
        return xml, s.inserted

    @staticmethod
    def shard(ctx):
        r = ctx.rng
        g = Gen(r)
        for i in range(ctx.n(14000, 180000)):
            t = g.formula()
            for n in t.walk():
                if not n.kids and n.tag in ("mi", "mo", "mn", "mtext") and r.random() < 0.15:
                    n.text = r.choice(LOOK)
                    ctx.count("lookalikes")
                if r.random() < 0.06:
                    n.attrs["alt"] = r.choice(LOOK)
                    ctx.count("lookalikes")
                if n.tag == "mfenced" and r.random() < 0.2:
                    n.attrs[r.choice(["open", "close", "separators"])] = r.choice(["a=", "x y", "= ", ">", "'", '"', "a b="])
            b = sut.convert(plain(t))
            xml, k = P21.spell(r, t)
            o = sut.convert(xml)
            ctx.evaluations += 2
            ctx.count("pairs_compared")
            ctx.count("valueless_attributes", k)
            ctx.top("valueless_in_one_document", k)
            if k:
                ctx.count("documents_with_valueless")
                ctx.saw(xml)
            if ctx.shard == 0 and t.size() < 9 and i % 50 == 0:
                ctx.sample(plain=plain(t), with_valueless=xml, latex=o.show())
            if tuple(o) != tuple(b):
                import random as rnd
                seeds = [r.random() for _ in range(40)]

                def bad(x):
                    e = sut.convert(plain(x))
                    return any(tuple(sut.convert(P21.spell(rnd.Random(q), x)[0])) != tuple(e) for q in seeds)
                small = shrink(t, bad, 120) if bad(t) else t
                sx = [x for x in (P21.spell(rnd.Random(q), small)[0] for q in seeds) if tuple(sut.convert(x)) != tuple(sut.convert(plain(small)))]
                w = min(sx, key=len) if sx else xml
                ctx.violate("a document with attributes without a value converts differently", xml=w, without=plain(small) if sx else plain(t),
                            expected=sut.convert(plain(small)).show() if sx else b.show(), got=sut.convert(w).show())
            if ctx.full():
                return
        # many of them, in one tag and over many tags
        for n in [s for s in SIZES if s <= 300]:
            if n % ctx.shards != ctx.shard or not n:
                continue
            for xml in ("<math%s><mi>x</mi></math>" % "".join(" a%d" % j for j in range(n)),
                        "<math%s><mi>x</mi></math>" % "".join(" a%d=" % j for j in range(n)),
                        "<math>%s</math>" % "".join("<mi a%d>x</mi>" % j for j in range(n)),
                        "<math>%s</math>" % "".join("<mi a= mathvariant='bold' b>x</mi>" for j in range(n))):
                k = xml.count("<mi")
                one = "\\mathbf{x}" if "bold" in xml else "x"
                o = sut.convert(xml)
                ctx.evaluations += 1
                ctx.count("size_boundary_cases")
                ctx.saw(xml)
                if tuple(o) != ("ok", " ".join([one] * k)):
                    ctx.violate("many attributes without a value are not all forgiven", xml=xml[:600], got=o.show()[:300], expected=" ".join([one] * k)[:300])
                    return


# ---------------------------------------------------------------- P22
ENTITY_NAMES = sorted({k.rstrip(";") for k in html.entities.html5} - {"amp", "lt", "gt", "quot", "apos"})


def corrupt(r, xml, ctx):
    """one corruption of a well-formed document that cannot be mended by dropping
    attributes without a value"""
    kind = r.choice(["cut", "cut", "cut", "drop-end", "double-end", "swap-end", "rename-end", "entity", "amp", "lt", "dup-attr", "second-root", "outside",
                     "control", "cdata-end", "comment-dashes", "unquoted", "half-quote", "no-space", "lt-in-value", "late-declaration", "char-ref",
                     "drop-root-start", "drop-start", "unbound", "bad-name", "stray-end", "extra-start",
                     "control-anywhere", "around", "lost-mark", "patched-end", "amp-in-value"])
    ends = [m for m in re.finditer(r"</[^<>]+>", xml)]
    starts = [m for m in re.finditer(r"<[A-Za-z][^<>\"']*(?:\"[^\"]*\"|'[^']*'|[^<>\"'])*>", xml)]
    opens = [m for m in starts if not m.group().endswith("/>")]
    texts = [m for m in re.finditer(r">(?=[^<>]*<)", xml) if m.end() < len(xml)]

    def put(m, s):
        return xml[:m.end()] + s + xml[m.end():]
    inner = texts[:-1] or texts
    if kind == "cut":
        return kind, xml[:r.randrange(0, len(xml))]
    if kind == "drop-end":
        m = r.choice(ends)
        return kind, xml[:m.start()] + xml[m.end():]
    if kind == "double-end":
        m = r.choice(ends)
        return kind, xml[:m.end()] + m.group() + xml[m.end():]
    if kind == "swap-end":
        c = [(a, b) for a, b in zip(ends, ends[1:]) if a.group() != b.group() and xml[a.end():b.start()].strip() == ""]
        if not c:
            return None, None
        a, b = r.choice(c)
        return kind, xml[:a.start()] + b.group() + xml[a.end():b.start()] + a.group() + xml[b.end():]
    if kind == "rename-end":
        m = r.choice(ends)
        return kind, xml[:m.start()] + r.choice(["</mx>", "</MI>", "</>", "</ mi>", "</mathx>"]) + xml[m.end():]
    if kind == "entity":
        name = r.choice(r.choice([["alpha", "nbsp", "nosuch", "InvisibleTimes", "x"], ENTITY_NAMES, NAMES]))
        return kind, put(r.choice(inner), r.choice(["&%s;"] * 6 + ["&%s", "&%s &", "&amp;&%s;"]) % name)
    if kind == "amp":
        return kind, put(r.choice(inner), r.choice(["&", "a & b", "&x", "&;", "&#;", "&#x;", "& ", "&#xZ;"]))
    if kind == "amp-in-value":
        m = r.choice(starts)
        i = m.end() - (2 if m.group().endswith("/>") else 1)
        w = "".join(r.choice("abcopyltgnq123") for _ in range(r.randint(1, 5)))
        v = r.choice(["?a=1&%s=2", "a&%s", "&", "%s & b", "&amp;&%s=1", "http://h/?q=1&%s=2&c=3", "&%s;&%s", "&copy", "&#%s;", "&x%s", "a&&%s", "&lt", "&amp", "&1;"])
        q = r.choice("'\"")
        return kind, xml[:i] + " %s=%s%s%s" % (r.choice(["q27", "href7", "src7", "title7", "data-x7"]), q, v.replace("%s", "y" + w), q) + xml[i:]
    if kind == "lt":
        return kind, put(r.choice(inner), r.choice(["<", "< ", "a<1", "<<", "<>", "<1>"]))
    if kind == "dup-attr":
        m = r.choice(starts)
        i = m.end() - (2 if m.group().endswith("/>") else 1)
        return kind, xml[:i] + r.choice([" q1='1' q1='1'", " q1='' q1=\"2\"", " q1=\"a\" b='' q1='c'"]) + xml[i:]
    if kind == "second-root":
        return kind, xml + r.choice(["<math><mi>z</mi></math>", "<a/>", "<mi>x</mi>", "\n<math/>"])
    if kind == "outside":
        return kind, r.choice([lambda: xml + "x", lambda: "x" + xml, lambda: xml + "\n&amp;", lambda: xml + "<![CDATA[x]]>", lambda: "$" + xml + "$"])()
    if kind == "control":
        return kind, put(r.choice(inner), r.choice("\x00\x01\x08\x0b\x0c\x0e\x1f\ufffe\uffff"))
    if kind == "control-anywhere":
        c = r.choice("\x00\x00\x01\x04\x07\x08\x0b\x0c\x0e\x1a\x1b\x1f\ufffe\uffff") * r.choice([1, 1, 2])
        i = r.choice([0, len(xml), len(xml), r.randrange(len(xml) + 1), r.choice(starts).start(), r.choice(ends).end()])
        return kind, xml[:i] + c + xml[i:]
    if kind == "around":
        c = r.choice(["\u00a0", "\u200b", "\ufeff", "\u2028", "\u3000", "\x85", "&", "&amp;", "&#32;", "<", ">", ">>", "/>", "]]>", "-->", "?>", "\"", "'", ";", ".", ",", "0", "\\",
                      "$$", "```", "\\n", "</math>", "</p>", "<math>", "<br>", "<!", "<!-", "<?", "<!---", "<![CDATA[]]>", "<!DOCTYPE math>", "<!ENTITY e ''>", "%", "null"])
        w = r.choice(["", "", "\n", " ", "\t\n"])
        return kind, r.choice([xml + w + c, xml + w + c, xml + c + w, c + w + xml if c != "\ufeff" else c + c + xml, w + c + xml])
    if kind == "lost-mark":
        m = r.choice(starts + ends)
        c = [i for i in range(m.start(), m.end()) if xml[i] in "<>/\"'"]
        i = r.choice(c)
        if xml[i] == ">" and ">" in re.split("<", xml[i + 1:] + "<")[0]:
            return None, None
        if xml[i] in "\"'" and re.match(r"\s|/?>", xml[i + 1:]):
            return None, None
        return kind, xml[:i] + xml[i + 1:]
    if kind == "patched-end":
        root = ends[-1].group()
        i = r.randrange(min(starts[0].end(), len(xml) - 1), len(xml))
        if xml.rfind("<", 0, i) > xml.rfind(">", 0, i):  # inside a tag: it stays unfinished
            return kind, xml[:i] + root
        return kind, xml[:i] + r.choice([root, root, ends[0].group() + root, "-->" + root] + ([">" + root, "/>" + root] if xml.count("<") == xml.count(">") else []))
    if kind == "cdata-end":
        return kind, put(r.choice(inner), "]]>")
    if kind == "comment-dashes":
        return kind, put(r.choice(inner), r.choice(["<!-- a -- b -->", "<!--", "<!-- x --->", "<!->", "<!-- x ->"]))
    if kind in ("unquoted", "half-quote", "lt-in-value", "bad-name"):
        m = r.choice(starts)
        i = m.end() - (2 if m.group().endswith("/>") else 1)
        s = {"unquoted": r.choice([" q=1", " q=box", " a='1' q=x", " width=100%"]), "half-quote": r.choice([" q='x", " q=\"x", " q=x'", " q=x\""]),
             "lt-in-value": " q=\"a<b\"", "bad-name": r.choice([" 1a='x'", " -a='x'", " a$='x'", " ='x'", " 'x'"])}[kind]
        return kind, xml[:i] + s + xml[i:]
    if kind == "no-space":
        m = r.choice(starts)
        i = m.end() - (2 if m.group().endswith("/>") else 1)
        return kind, xml[:i] + " q1='1'q2='2'" + xml[i:]
    if kind == "late-declaration":
        return kind, put(r.choice(inner), "<?xml version='1.0'?>") if r.random() < 0.7 else " <?xml version='1.0'?>" + xml
    if kind == "char-ref":
        return kind, put(r.choice(inner), r.choice(["&#0;", "&#x0;", "&#xD800;", "&#xFFFF;", "&#x110000;", "&#8;"]))
    if kind in ("drop-root-start", "drop-start"):
        if not opens:
            return None, None
        m = opens[0] if kind == "drop-root-start" else r.choice(opens)
        return kind, xml[:m.start()] + xml[m.end():]
    if kind == "unbound":
        return kind, put(r.choice(inner), r.choice(["<m:mi>x</m:mi>", "<mi xlink:href='x'>x</mi>", "<a:b/>"]))
    if kind == "stray-end":
        return kind, put(r.choice(texts), r.choice(["</mi>", "</nosuch>", "</mrow>"])) if r.random() < 0.7 else xml + "</math>"
    return kind, put(r.choice(inner), r.choice(["<mrow>", "<mi>", "<nosuch>"]))


# A document type that points elsewhere lets the parser skip references that are
# not declared in the document; see known_findings.jsonl.
SKIPPED = [
    ("external-subset", "<!DOCTYPE math SYSTEM \"mathml.dtd\"><math><mi>a</mi><mi>&alpha;</mi></math>", "a"),
    ("external-subset-public", "<!DOCTYPE math PUBLIC \"-//W3C//DTD MathML 2.0//EN\" \"http://www.w3.org/Math/DTD/mathml2/mathml2.dtd\">"
     "<math><mi>x&nosuch;y</mi></math>", "xy"),
    ("external-entity", "<!DOCTYPE math [<!ENTITY e SYSTEM \"no-such-file.xml\">]><math><mi>a</mi><mi>&e;</mi></math>", "a"),
    ("parameter-entity", "<!DOCTYPE math [<!ENTITY % p SYSTEM \"no-such-file.ent\"> %p;]><math><mi>a&e;b</mi></math>", "ab"),
]


class P22:
    pid = "P22"
    rule = ("well-formed documents, plain and in random spellings, cut off at every place (short ones) or at random places, and with one of 31 kinds of "
            "corruption; expat, asked separately, must agree that the text is not well-formed; the conversion must raise ExpatError. "
            "Non-trivial: every distinct corrupted text.")
    assumptions = [A_PUBLIC, A_EXPAT, "the corruptions are chosen so that dropping attributes without a value does not mend them"]
    need = {"malformed_texts": 8000, "cuts": 3000}

    @staticmethod
    def check(ctx, kind, bad):
        if well_formed(bad):
            ctx.count("harmless_corruptions_skipped")
            return
        o = sut.convert(bad)
        ctx.evaluations += 1
        ctx.count("malformed_texts")
        ctx.count("kind " + kind)
        if kind == "cut":
            ctx.count("cuts")
        ctx.saw(bad)
        if o.error != "ExpatError":
            ctx.violate("malformed XML is not rejected: " + kind, xml=bad, got=o.show(), expected="ExpatError")

    @staticmethod
    def shard(ctx):
        r = ctx.rng
        g = Gen(r, focus={"stray": 0.3})
        for i in range(ctx.n(50000, 400000)):
            t = g.formula(r.choice([1, 2, 3]))
            if ctx.rng.random() < 0.5:
                xml = plain(t)
            else:
                xml = Spelling(r, set(Spelling.ALL) - {"comment", "pi", "cdata", "tokenpad", "charref"}).element(t)
            if r.random() < 0.2:
                xml = "<div>%s<p>t</p>%s</div>" % (xml, plain(N("math", toks(r, 2))))
            if not well_formed(xml):
                raise RuntimeError("harness error: generated text is not well-formed: " + xml)
            kind, bad = corrupt(r, xml, ctx)
            if kind is None:
                continue
            P22.check(ctx, kind, bad)
            if ctx.shard == 0 and len(bad) < 200 and i % 100 == 0:
                ctx.sample(xml=bad, corruption=kind, outcome=sut.convert(bad).show())
            if ctx.full():
                return
        # every cut of some short documents
        for j in range(ctx.n(64, 1200)):
            t = g.formula(2, 1)
            xml = P19.spell(r, t)[0] if r.random() < 0.6 else P21.spell(r, t)[0]
            if len(xml) > 700:
                continue
            end = xml.rstrip().rfind("</" + t.tag)
            for c in range(0, max(0, end)):
                P22.check(ctx, "cut", xml[:c])
            if ctx.full():
                return
        if ctx.shard == 0:
            for name, xml, out in SKIPPED:
                o = sut.convert(xml)
                ctx.evaluations += 1
                ctx.count("references_skipped_by_the_parser")
                if tuple(o) == ("ok", out):
                    listed(ctx, name, xml)
                elif o.error != "ExpatError":
                    ctx.violate("an undefined entity is not rejected", xml=xml, got=o.show(), expected="ExpatError")


def listed(ctx, name, xml):
    """a defect that known_findings.jsonl lists is reported as such; any other is a violation"""
    import json
    import os
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.jsonl")
    for line in open(path, encoding="utf-8"):
        d = json.loads(line)
        if d.get("kind") == "known" and d.get("property") == ctx.pid and d.get("id") == name and d.get("input") == xml:
            ctx.known.append("%s: %s (input %s)" % (name, d["what"], xml))
            return
    ctx.violate("an undefined entity is not rejected", xml=xml, got=sut.convert(xml).show(), expected="ExpatError")


# ---------------------------------------------------------------- P23
HTML = ["div", "p", "span", "body", "ul", "li", "table", "tr", "td", "section", "b", "svg", "foreignObject", "Math", "mathx", "xmath", "m", "math-field", "MATH"]
# MathML's own elements outside of any formula, and names of the library's source, are markup like any other
MARKUP = [x for x in dict.fromkeys(["annotation", "annotation-xml", "semantics", "mphantom", "maction", "mrow", "mtable", "mtr", "mtd", "mfenced", "mi", "mtext", "merror", "menclose", "mstyle", "none",
                                    "head", "script", "template", "title", "noscript", "textarea", "del", "mml", "equation", "display", "inline", "formula", "alternatives", "tex-math", "p", "a"] + NAMES)
          if x != "math" and not x.lower().startswith("xml")]
NOISE = ["text", "a &lt; b", "x^2", "<mi>outside</mi>", "<mrow><mn>9</mn></mrow>", "<!-- <math><mi>NO</mi></math> -->", "<![CDATA[<math><mi>NO</mi></math>]]>",
         "<?pi <math><mi>NO</mi></math>?>", "<br/>", "<mfrac><mi>a</mi></mfrac>", "\n  ", "<mtable><mtr/></mtable>", "<img alt='&lt;math>'/>", "$x$",
         "<mtext>math</mtext>", "<annotation>NO</annotation>"]


class P23:
    pid = "P23"
    rule = ("documents of 0 to 300 formulas at random depths inside other markup with decoys (comments, CDATA, similar names, MathML outside of math, math "
            "inside math); the result must be the non-empty results of the formulas converted alone, joined by spaces. Non-trivial: at least "
            "two formulas, or a decoy.")
    assumptions = [A_PUBLIC]
    need = {"documents_compared": 4000, "formulas": 15000, "nested_formulas": 500}

    @staticmethod
    def shard(ctx):
        r = ctx.rng
        g = Gen(r, focus={"math": 4})

        def pieces(k, d, alone):
            """k formulas somewhere in a piece of markup"""
            if d <= 0 or k == 0 and r.random() < 0.6:
                out = []
                for _ in range(k):
                    t = g.formula(r.choice([0, 1, 2, 3]), r.choice([0, 1, 1, 2])) if r.random() < 0.95 else N("math", text=r.choice(["", "x", " "]))
                    if r.random() < 0.3:
                        t.attrs["display"] = "block"
                    for _ in range(r.choice([0, 0, 0, 1, 1, 3])):
                        a, v = shared[0] if r.random() < 0.3 else unused_attribute(r)
                        if not a.startswith("xml"):
                            t.attrs[a] = v if r.random() < 0.7 else r.choice(["a", "b", "1", "2", ""])
                    xml = Spelling(r, r.sample(sorted(Spelling.ALL), 4)).element(t) if r.random() < 0.4 else plain(t)
                    alone.append(t)
                    if any(n.tag == "math" for n in list(t.walk())[1:]):
                        ctx.count("nested_formulas")
                    out.append(xml)
                    if r.random() < 0.4:
                        out.append(r.choice(NOISE))
                return "".join(out) if out else r.choice(NOISE)
            cuts = sorted(r.randint(0, k) for _ in range(r.choice([0, 1, 1, 2])))
            parts = [b - a for a, b in zip([0] + cuts, cuts + [k])]
            inner = "".join((r.choice(NOISE) if r.random() < 0.3 else "") + pieces(n, d - 1, alone) for n in parts)
            if r.random() < 0.8:
                tag = r.choice(HTML) if r.random() < 0.6 else r.choice(MARKUP)
                at = "".join(" %s=\"%s\"" % (a, esc_attr(v)) for a, v in dict(unused_attribute(r) for _ in range(r.choice([0, 0, 1, 2]))).items() if not a.startswith("xml"))
                return "<%s%s>%s</%s>" % (tag, at, inner, tag)
            return inner
        for k in ([1000, 12000] + NEW_SIZES[:20] + [b for b in NEW_BIG if b <= 70000][:6])[ctx.shard::ctx.shards]:
            # as many formulas as there may be, all different from their neighbours
            for m in (k, k + 1):
                texts = ["x%d" % j for j in range(m)]
                o = sut.convert("<d>%s</d>" % "".join("<math><mi>%s</mi></math>" % t for t in texts))
                ctx.evaluations += 1
                ctx.count("formulas", m)
                ctx.top("formulas_in_one_document", m)
                if tuple(o) != ("ok", " ".join(texts)):
                    ctx.violate("the formulas of a document do not come out once each, in order", formulas=m, got=o.show()[-300:], expected=" ".join(texts)[-300:])
                    return
        for i in range(ctx.n(9000, 90000)):
            shared = [unused_attribute(r)]
            k = r.choice([0, 1, 2, 2, 3, 3, 4, 5, 7]) if r.random() < 0.98 else size(r, 300)
            alone = []
            xml = "<doc>%s</doc>" % pieces(k, r.choice([0, 1, 2, 3, 5]) if k < 20 else 3, alone)
            outs = [sut.convert(plain(t)) for t in alone]
            o = sut.convert(xml)
            ctx.evaluations += 1 + len(outs)
            ctx.count("documents_compared")
            ctx.count("formulas", k)
            ctx.top("formulas_in_one_document", k)
            ctx.saw(xml)
            errs = [tuple(q) for q in outs if not q.ok]
            ok = tuple(o) in errs if errs else tuple(o) == ("ok", " ".join(q.text for q in outs if q.text))
            if ctx.shard == 0 and len(xml) < 300 and i % 20 == 0:
                ctx.sample(xml=xml, latex=o.show(), alone=[q.show() for q in outs])
            if not ok:
                ctx.violate("the formulas of a document do not come out once each, in order", xml=xml[:4000], got=o.show()[:1500],
                            expected=(" ".join(q.text for q in outs if q.text) if not errs else repr(errs))[:1500])
                if ctx.full():
                    return


# ---------------------------------------------------------------- P24
SOUP = ["<math>", "</math>", "<mi>", "</mi>", "<mfrac>", "</mfrac>", "<mrow/>", "<", ">", "</", "/>", "\"", "'", "=", " ", "&", ";", "&lt;", "&#", "&#x41;", "<!--",
        "-->", "<![CDATA[", "]]>", "<?", "?>", "<!DOCTYPE ", "[", "]", "mml:", "xmlns", ":", "x", "1", "\n", "\r", "\t", "\u00a0", "\x00", "\ufeff", "\U0001f600",
        "a=", "a='b'", "<mfenced open close='x'>", "</mfenced>", "%", "<!ENTITY ", "\\", "<math", "math", "<msup><mi>x</mi><mn>2</mn></msup>", "\u2028",
        "<mtable><mtr><mtd>", "</mtd></mtr></mtable>", "-", "!", "?", "/", "#", "&amp;#x3B1;", "%CE%B1", "&mml:x;"]
TAGS = ["math", "mi", "mo", "mn", "mtext", "mrow", "mfrac", "msqrt", "mroot", "msup", "msub", "msubsup", "munderover", "mover", "munder", "mmultiscripts",
        "mprescripts", "none", "mfenced", "mtable", "mtr", "mtd", "mlabeledtr", "menclose", "merror", "mphantom", "maction", "semantics", "annotation",
        "annotation-xml", "mstyle", "mpadded", "mspace", "ms", "mglyph", "div", "q"]


def anything(r, d):
    """any element anywhere, any attributes, any number of children"""
    tag = r.choice(TAGS) if r.random() < 0.95 or not NAMES else r.choice(NAMES)
    n = N(tag)
    if d <= 0 or r.random() < 0.2:
        n.text = r.choice(["", "", " ", "x", "2", "+", "\u2061", "||", "&#x3B1;", "%CE%B1", "%zz", "\u0301", "\\", "^"] + WORDS[:40] + ALLKEYS[::60])
    else:
        w = FIXED_ARITY.get(tag)
        k = w if w and r.random() < 0.8 else r.choice([0, 1, 1, 2, 2, 3, 4])
        n.kids = [anything(r, d - 1) for _ in range(k)]
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        k = r.choice(["open", "close", "separators", "notation", "mathvariant", "bevelled", "actiontype", "x", "innerTable", "selection", "name", "value"] + NAMES[:30])
        if not k.startswith("xml"):
            n.attrs[k] = r.choice(FENCES + SEPS + NOTATIONS + VARIANTS + ACTIONS + ["true", "", k, "#innerTable", "%s", "{}", "{0}", "\\", "\\g<0>", "$1"])
    return n


class P24:
    pid = "P24"
    rule = ("strings of XML fragments, mutated documents, random text, and well-formed documents with any element anywhere; the outcome must be a string, "
            "ExpatError or InvalidNumberOfChildrenError, within 20 seconds of processor time; well-formed documents never give ExpatError, "
            "and those with admissible numbers of children give a string. Non-trivial: every distinct input of at least 5 characters.")
    assumptions = [A_PUBLIC, A_EXPAT, "lone surrogates are no characters and are left out"]
    need = {"outcome string": 3000, "outcome ExpatError": 3000, "outcome InvalidNumberOfChildrenError": 500, "well_formed_documents": 4000, "names_of_the_library": 5000}

    @staticmethod
    def look(ctx, xml, tree=None):
        o = sut.convert(xml)
        ctx.evaluations += 1
        if len(xml) >= 5:
            ctx.saw(xml)
        ctx.count("outcome " + ("string" if o.ok and type(o.text) is str else o.error or type(o.text).__name__))
        if (o.ok and type(o.text) is str) or o.error in ("ExpatError", "InvalidNumberOfChildrenError"):
            wf = tree is not None or (o.ok or o.error) and False
            if tree is not None:
                ctx.count("well_formed_documents")
                if o.error == "ExpatError":
                    s = simplest(xml, lambda x: well_formed(x) and sut.convert(x).error == "ExpatError")
                    ctx.violate("a well-formed document is rejected as XML", xml=s, got=sut.convert(s).show(), expected="LaTeX")
                elif not o.ok and not any(wrong_count(n) for n in visible(tree)):
                    s = shrink(tree, lambda x: not any(wrong_count(n) for n in visible(x)) and sut.convert(plain(x)).error == "InvalidNumberOfChildrenError")
                    ctx.violate("admissible numbers of children are rejected", xml=plain(s), got=sut.convert(plain(s)).show(), expected="LaTeX")
            return
        what = o.error

        def bad(x):
            q = sut.convert(x)
            return not q.ok and q.error == what and what != "NoAnswer"
        s = simplest(xml, bad) if bad(xml) else xml
        ctx.violate("an outcome that is none of the three: %s" % what, xml=s, got=sut.convert(s).show() if what != "NoAnswer" else "no answer", expected="a string, ExpatError or "
                    "InvalidNumberOfChildrenError")

    @staticmethod
    def shard(ctx):
        r = ctx.rng
        g = Gen(r, focus={"stray": 4})
        cov = cover.Cover()
        cov.start()
        corpus = []
        try:
            for i in range(ctx.n(40000, 500000)):
                p = r.random()
                tree = None
                if p < 0.2:
                    xml = "".join(r.choice(SOUP) for _ in range(r.choice([1, 2, 3, 5, 8, 13, 30, 100])))
                elif p < 0.27:
                    xml = "".join(chr(r.choice([r.randrange(0x20, 0x7f), r.randrange(0x250), r.randrange(0xD800), r.randrange(0xE000, 0x110000)]))
                                  for _ in range(r.choice([0, 1, 3, 10, 50])))
                elif p < 0.5:
                    xml = r.choice(corpus) if corpus and r.random() < 0.5 else plain(g.formula(r.choice([0, 1, 2, 3])))
                    for _ in range(r.choice([1, 1, 2, 4])):
                        a = r.randrange(len(xml) + 1)
                        b = min(len(xml), a + r.choice([0, 0, 1, 1, 2, 5, 20]))
                        q = r.random()
                        xml = xml[:a] + ("" if q < 0.35 else r.choice(SOUP) if q < 0.8 else xml[a:b] * 2 if q < 0.9 else r.choice(WORDS)) + xml[b:]
                        if len(xml) > 20000:
                            xml = xml[:20000]
                elif p < 0.85:
                    tree = N("math", [anything(r, r.choice([1, 2, 3, 4, 5])) for _ in range(r.choice([1, 1, 2, 3]))])
                    xml = plain(tree) if r.random() < 0.6 else Spelling(r).element(tree)
                else:
                    tree = g.formula()
                    xml = plain(tree)
                P24.look(ctx, xml, tree)
                if cov.take_new() or r.random() < 0.005:
                    if len(xml) < 4000:
                        corpus.append(xml)
                        if len(corpus) > 300:
                            corpus.pop(r.randrange(len(corpus)))
                if ctx.shard == 0 and 30 < len(xml) < 250 and i % 400 == 0:
                    ctx.sample(xml=xml, outcome=sut.convert(xml).show())
                if ctx.full():
                    return
            for i, xml in enumerate(large()):
                if i % ctx.shards == ctx.shard:
                    ctx.count("large_documents")
                    P24.look(ctx, xml)
                    if not sut.convert(xml).ok:
                        ctx.violate("a large document does not convert", xml=xml[:300] + "...", size=len(xml), got=sut.convert(xml).show()[:300], expected="LaTeX")
                    if ctx.full():
                        return
            # elements and attributes named like the things of the library and of other vocabularies
            for i, w in enumerate(identifiers()):
                if i % ctx.shards != ctx.shard:
                    continue
                for k in range(4):
                    kids = [N("mi", text="x"), N("mn", text="2"), N("mi", text="y")][:k]
                    for tree in (N("math", [N(w, kids, "" if k else "ab")]), N("math", [N("mrow", kids, attrs={w: "x"}), N("mi", text="z", attrs={w: w + "1"})])):
                        ctx.count("names_of_the_library")
                        P24.look(ctx, plain(tree), tree)
                    if ctx.full():
                        return
            # values that careless parsing trips over, in every place
            places = [(t, None) for t in ("mi", "mo", "mn", "mtext", "mrow", "mprescripts", "annotation")] + \
                [(t, a) for t in ("mfenced", "menclose", "mi", "mtext", "mfrac", "maction", "mtable", "mtr", "msup", "mo", "mspace", "math")
                 for a in ("open", "close", "separators", "notation", "mathvariant", "bevelled", "actiontype", "selection", "columnspan", "linethickness", "id")]
            for i, (t, a) in enumerate(places):
                if i % ctx.shards != ctx.shard:
                    continue
                for v in ODD:
                    n = N(t, [] if t in ("mi", "mo", "mn", "mtext", "mspace") or a is None else [N("mi", text="x"), N("mn", text="2")])
                    if a:
                        n.attrs[a] = v
                    if a is None or not n.kids:
                        n.text = v if a is None else "ab"
                    tree = N("math", [n])
                    ctx.count("odd_values")
                    P24.look(ctx, plain(tree), tree)
                    if ctx.full():
                        return
        finally:
            cov.stop()
            ctx.lines |= cov.lines()
            ctx.count("coverage_points", len(cov.seen))


# ---------------------------------------------------------------- P25
SPACES = [" ", "  ", "\n", "\t", "\r\n", "\r", "\u00a0", "\u2003", "\u2009", "\u3000", "\u1680", "\u2028", "\u2029", "\u0085", "\u205f", "\u202f", "   \n\t "]


class P25:
    pid = "P25"
    rule = ("random documents with white space of every Unicode kind in texts, attribute values and between tags; the monitor looks at the result alone. "
            "Non-trivial: results of at least 3 characters from inputs with such white space.")
    assumptions = [A_PUBLIC, "white space is what str.isspace says"]
    need = {"lines_checked": 8000, "spaces_planted": 20000, "documents_of_several_formulas": 2000}
    NOTHING = ["<math/>", "<math> </math>", "<math><mrow/></math>", "<math><mphantom><mi>x</mi></mphantom></math>", "<math><mi> </mi></math>", "<math><mo>&#x2062;</mo></math>",
               "<math>text</math>", "<math><mtext/></math>", "<math><mi>\u00a0</mi><mi/></math>", "<math><mtable><mtr><mtd/></mtr></mtable></math>", "<math><mtext> \u2003</mtext></math>"]

    @staticmethod
    def shard(ctx):
        r = ctx.rng
        g = Gen(r)

        def why(s):
            if re.search(r"[^\S ]", s) and re.search(r"[\n\r\t\v\f\x1c-\x1f\x85\u2028\u2029]", s):
                return "a line break or tab"
            if s != s.strip():
                return "white space at an end"
            if re.search(r"\s\s", s):
                return "two white space characters in a row"
            return None
        for i in range(ctx.n(16000, 200000)):
            t = g.formula()
            for n in t.walk():
                if not n.kids and n.tag in ("mi", "mo", "mn", "mtext", "ms", "mrow") and r.random() < 0.5:
                    k = r.randrange(len(n.text) + 1)
                    n.text = r.choice(["", r.choice(SPACES)]) + n.text[:k] + r.choice(SPACES) + n.text[k:] + r.choice(["", "", r.choice(SPACES)])
                    ctx.count("spaces_planted")
                for a in list(n.attrs):
                    if r.random() < 0.2:
                        n.attrs[a] = r.choice(SPACES) + n.attrs[a] + r.choice(SPACES)
                        ctx.count("spaces_planted")
            xml = Spelling(r).element(t) if r.random() < 0.6 else plain(t)
            if r.random() < 0.2:
                # several formulas, among them such as come to nothing
                parts = [xml] + [r.choice(P25.NOTHING) if r.random() < 0.5 else plain(g.formula(1)) for _ in range(r.choice([1, 1, 2, 3, 6, 9, 12, 20, 33, 65]))]
                r.shuffle(parts)
                xml = "<a>%s</a>" % "".join(r.choice(SPACES) + x for x in parts)
                ctx.count("documents_of_several_formulas")
            o = sut.convert(xml)
            ctx.evaluations += 1
            if not o.ok:
                continue
            ctx.count("lines_checked")
            if len(o.text) >= 3:
                ctx.saw(xml)
            if ctx.shard == 0 and t.size() < 10 and i % 100 == 0:
                ctx.sample(xml=xml, latex=o.text)
            if why(o.text):
                def bad(x):
                    q = sut.convert(plain(x))
                    return q.ok and why(q.text) is not None
                s = plain(shrink(t, bad)) if bad(t) else xml
                ctx.violate("the result is not one normalised line: " + why(o.text), xml=s, got=sut.convert(s).show(), expected="one line, single spaces inside")
                if ctx.full():
                    return


# ---------------------------------------------------------------- P26
WORD = re.compile(r"\\([^\W\d_]+)")
VOCABULARY = set()
for _k in LEX.values():
    for _v in _k.values():
        VOCABULARY.update(WORD.findall(_v))
for _t in list(ENCLOSE.values()) + list(MI_VARIANT.values()) + list(TEXT_VARIANT.values()):
    VOCABULARY.update(WORD.findall(_t))
VOCABULARY |= set("left right frac sqrt overset underset hat bar overline underline overbrace underbrace begin end color text Longrightarrow "
                  "backslash sim".split())
FENCES_OK = [("(", ")"), ("[", "]"), ("|", "|"), ("<", ">"), (".", "."), ("[", ")"), ("/", "/"), ("\\{", "\\}"), (None, None), ("(", None), (None, "]")]
TABLE_OK = [("(", ")"), ("[", "]"), ("{", "}"), ("|", "|"), ("||", "||"), ("[", ")"), (".", "|"), ("<", ">"), ("\\{", ".")]


def sound(v):
    """a symbol whose own LaTeX is balanced and does not start or end in the middle of something"""
    return unbalanced(v) is None and not re.search(r"^\s*[\^_]|[\^_]\s*$|\\left|\\right|&|\\\\$|\\$", v) and "^" not in v and "_" not in v


ENDS = [c for c, v in sorted(LEX["mi"].items()) if len(c) == 1 and sound(v) and re.search(r"\\[a-zA-Z]+$", v)]
LETTERS = [c for c, v in sorted(LEX["mi"].items()) if len(c) == 1 and sound(v) and v[:1].isalpha()]
SOUND = {k: [t for t, v in d.items() if sound(v)] for k, d in LEX.items()}


def sound_token(g):
    r = g.r
    kind = r.choice(["mi", "mi", "mo", "mn", "mtext"])
    p = r.random()
    if p < 0.4:
        t = r.choice(["x", "y", "ab", "n", "42", "3.5", "sin", "+", "-", "=", "lim", "foo", "Q"])
    elif p < 0.75:
        t = r.choice(SOUND["mi" if kind == "mtext" else kind])
        if kind == "mtext":
            t = t if len(t) == 1 else "x"
    elif p < 0.9:
        t = "".join(r.choice("ab1 #$%&_{}^~\\,.;[]()|") for _ in range(r.randint(1, 6)))
        if any(collapse(t) in d for d in LEX.values()) and not sound(LEX.get(kind, LEX["mi"]).get(collapse(t), "")):
            t = "a"
    else:
        t = r.choice(["", " ", "x y", "a  b"])
    if kind == "mtext":
        t = "".join(c for c in t if c not in LEX["mi"] or sound(LEX["mi"][c]))
    n = N(kind, text=t)
    if kind in ("mi", "mtext") and r.random() < 0.2:
        n.attrs["mathvariant"] = r.choice(VARIANTS)
    return n


def double_script(s):
    ts = [x for x in tokens(s) if not x.isspace()]
    seen = {}
    stack = [set()]
    pend = None
    i = 0
    last = stack[-1]          # scripts already on the current atom, per nesting level
    kind = []
    while i < len(ts):
        t = ts[i]
        if t in ("^", "_"):
            if t in stack[-1]:
                return "double %s" % ("superscript" if t == "^" else "subscript")
            stack[-1].add(t)
            if i + 1 < len(ts) and ts[i + 1] == "{":
                kind.append("script")
                stack.append(set())
                i += 2
                continue
            return "a script without a group"
        if t == "{":
            stack[-1].clear()
            kind.append("group")
            stack.append(set())
        elif t == "}":
            if not kind:
                return "unbalanced }"
            stack.pop()
            if kind.pop() == "group":
                stack[-1].clear()
        else:
            stack[-1].clear()
        i += 1
    return None


class P26:
    pid = "P26"
    rule = ("random documents over all elements, with symbols and fences whose own LaTeX is balanced, size and depth families included; the monitor reads the LaTeX "
            "alone: groups, environments, growing delimiters, scripts, alignments, comment and math-shift characters, and whether every "
            "command is a known one (so none has swallowed a letter). Non-trivial: LaTeX with at least two of those features.")
    assumptions = [A_PUBLIC, "the command vocabulary is that of the recorded dictionary and of the element templates"]
    need = {"lines_parsed": 6000, "commands_seen": 20000, "commands_before_letters": 300}

    @staticmethod
    def tame(t, r):
        def go(n, fenced):
            if n.tag == "mfenced":
                has = any(x.tag in ("mtable", "mtr", "mlabeledtr") for x in n.walk())
                o, c = r.choice(TABLE_OK if has else FENCES_OK)
                for a, v in (("open", o), ("close", c)):
                    n.attrs.pop(a, None)
                    if v is not None:
                        n.attrs[a] = v
                n.attrs.pop("separators", None)
                if r.random() < 0.5:
                    n.attrs["separators"] = r.choice([",", ";", "", ";,", "|", "a", "#", "&", "~^", "_%", "$", "\\", " ; ", "xy", "{}"])
                fenced = fenced or has
            if n.tag == "menclose" and attr(n, "notation") in ("left", "right", "madruwb"):
                n.attrs["notation"] = r.choice(["box", "top", "updiagonalarrow", "phasorangle", "longdiv", "actuarial"])
            if n.tag == "mmultiscripts":
                # prescripts start with \_ on purpose: it reads as a group pair
                pass
            kids = []
            for k in n.kids:
                if k.tag in ("mtr", "mlabeledtr", "mtable") and not fenced and n.tag not in ("mtable",):
                    k = N("mfenced", [k if k.tag == "mtable" else N("mtable", [k])], attrs={"open": "[", "close": "]"})
                kids.append(k)
            n.kids = kids
            for k in n.kids:
                go(k, fenced)
        go(t, False)
        return t

    @staticmethod
    def fault(s):
        u = unbalanced(s)
        if u:
            return u
        d = double_script(s.replace("\\_{", "\\_ {"))
        if d:
            return d
        for w in WORD.findall(s):
            if w not in VOCABULARY:
                return "unknown command \\%s" % w
        return None

    @staticmethod
    def shard(ctx):
        from .shapes import deep, wide
        r = ctx.rng
        g = Gen(r, tokens=sound_token, focus={"stray": 0})

        def sane(t):
            ok = [True]

            def go(n, fenced, base=False):
                if n.tag in ("mtable", "mtr", "mlabeledtr"):
                    # a table that is the base of a script has no atom of its own to carry it
                    if not fenced or base:
                        ok[0] = False
                    base = False
                if n.tag == "mfenced":
                    has = any(x.tag in ("mtable", "mtr", "mlabeledtr") for x in n.walk())
                    if (n.attrs.get("open"), n.attrs.get("close")) not in (TABLE_OK if has else FENCES_OK):
                        ok[0] = False
                    # an environment is only opened for a table; loose rows need one around them
                    if any(x.tag in ("mtr", "mlabeledtr") for x in n.walk()) and not any(x.tag == "mtable" for x in n.walk()):
                        ok[0] = False
                    fenced = fenced or has
                if n.tag in ("mi", "mo", "mn", "mtext") and n.kids:
                    ok[0] = False
                if n.tag == "menclose" and attr(n, "notation") in ("left", "right", "madruwb"):
                    ok[0] = False
                if n.tag in ("mphantom", "annotation", "annotation-xml") and any(x.tag in ("mtable", "mtr") for x in n.walk()):
                    ok[0] = False
                if n.tag in ("mo", "mi", "mn", "mtext") and n.text and not sound_text(n):
                    ok[0] = False
                if n.tag == "maction" and attr(n, "actiontype") not in ("toggle", "") and any(x.tag == "mtable" for x in n.walk()):
                    ok[0] = False
                for i, k in enumerate(n.kids):
                    go(k, fenced, base or n.tag in SCRIPTS and i == 0)
            go(t, False)
            return ok[0]

        def look(t):
            if not valid_arity(t) or not sane(t):
                ctx.count("unsuitable_skipped")
                return
            o = sut.convert(plain(t))
            ctx.evaluations += 1
            if not o.ok:
                return
            ctx.count("lines_parsed")
            cmds = WORD.findall(o.text)
            ctx.count("commands_seen", len(cmds))
            for feature, pat in (("environments", r"\\begin"), ("growing_delimiters", r"\\left"), ("scripts", r"[\^_]\{"), ("escapes", r"\\[#$%&_{}]")):
                ctx.count("lines_with_" + feature, 1 if re.search(pat, o.text) else 0)
            if sum(bool(re.search(p, o.text)) for p in (r"\\begin", r"\\left", r"\^\{", r"_\{", r"\\[a-z]+\{")) >= 2:
                ctx.saw(plain(t))
            if ctx.shard == 0 and 5 < t.size() < 14 and ctx.evaluations % 40 == 0:
                ctx.sample(xml=plain(t), latex=o.text)
            f = P26.fault(o.text)
            if f:
                def bad(x):
                    q = sut.convert(plain(x))
                    return valid_arity(x) and sane(x) and q.ok and P26.fault(q.text) is not None
                s = shrink(t, bad, 3000)
                q = sut.convert(plain(s))
                ctx.violate("the LaTeX is not well-formed", xml=plain(s), got=q.show(), expected="no " + P26.fault(q.text) if P26.fault(q.text) else f)
        for i in range(ctx.n(16000, 200000)):
            look(P26.tame(g.formula(), r))
            if ctx.full():
                return
        # every command a symbol ends with, before letters of every kind
        letters = ["a", "Z", "\u0436", "\u00e9", "\u4e2d", "\u05d0", "\u00df", "\U0001d538"] + LETTERS
        for i, c in enumerate(ENDS):
            if i % ctx.shards != ctx.shard:
                continue
            some = r.sample(letters, 10)
            look(N("math", [N("mtext", text="".join(c + x for x in some[:6]))]))
            look(N("math", [N("mrow", [N("mi", text=c), N("mi", text=some[0])]), N("mfenced", [N("mi", text=c), N("mo", text=some[1]), N("mtext", text=c), N("mn", text=some[2])],
                                                                                    attrs={"separators": "".join(x for x in some[6:] if x not in LEX["mi"])})]))
            ctx.count("commands_before_letters", 2)
            if ctx.full():
                return
        tok = lambda: sound_token(g)  # noqa: E731
        w = wide(tok)
        d = {k: v[0] for k, v in deep(tok).items()}
        ss = [s for s in SIZES if s <= 300]
        jobs = [(w, f, s) for f in sorted(w) for s in ss] + [(d, f, s) for f in sorted(d) for s in ss if s <= 60]
        jobs = [j for i, j in enumerate(jobs) if i % ctx.shards == ctx.shard]
        if ctx.quick:
            jobs = r.sample(jobs, 60)
        for fam, f, s in jobs:
            ctx.count("size_boundary_cases")
            look(P26.tame(fam[f](s), r))
            if ctx.full():
                return


def sound_text(n):
    v = collapse(n.text)
    kind = n.tag if n.tag in LEX else "mi"
    if n.tag == "mtext":
        return all(sound(LEX["mi"].get(c, "")) for c in v)
    return sound(LEX[kind].get(v, ""))
