"""Mixed corpora for the monitors of histories, schedules and configurations:
every kind of document, every kind of failure, and families of near-duplicates
(documents that a careless cache or a leftover could confuse)."""
import re

from .diff import mutate
from .gen import ACTIONS, FENCES, Gen, NOTATIONS, SEPS, VARIANTS
from .harvest import NAME, NEW_BIG, NEW_SIZES, NEW_WORDS
from .node import N, Spelling, esc_attr, plain
from . import shapes


def mi(t):
    return N("mi", text=t)


def representative():
    """one document per feature"""
    x, y, z = mi("x"), N("mn", text="2"), N("mo", text="+")
    d = {}
    d["mi"] = [x]
    d["mi bold"] = [N("mi", text="x", attrs={"mathvariant": "bold"})]
    d["mi symbol"] = [mi("\u03b1")]
    d["mo symbol"] = [N("mo", text="\u2211")]
    d["mn symbol"] = [N("mn", text="\u00bd")]
    d["escape"] = [mi("%"), N("mo", text="_"), N("mn", text="#")]
    d["mtext"] = [N("mtext", text="if x > 0 then \u03b1b")]
    d["mtext bold"] = [N("mtext", text="a b", attrs={"mathvariant": "bold"})]
    d["mtext italic"] = [N("mtext", text="a b", attrs={"mathvariant": "bold-italic"})]
    d["mfrac"] = [N("mfrac", [x, y])]
    d["bevelled"] = [N("mfrac", [x, N("mrow", [y, z])], attrs={"bevelled": "true"})]
    d["msqrt"] = [N("msqrt", [x, z, y])]
    d["mroot"] = [N("mroot", [x, y])]
    d["mroot ]"] = [N("mroot", [x, N("mo", text="]")])]
    for t in ("msup", "msub"):
        d[t] = [N(t, [x, y])]
        d[t + " row"] = [N(t, [N("mrow", [x, z, y]), y])]
        d[t + " empty"] = [N(t, [N("mrow"), y])]
    d["msubsup"] = [N("msubsup", [x, y, z])]
    d["munderover"] = [N("munderover", [N("mo", text="\u2211"), y, z])]
    d["mover"] = [N("mover", [x, y])]
    d["mover accent"] = [N("mover", [x, N("mo", text="^")])]
    d["munder"] = [N("munder", [x, y])]
    d["munder accent"] = [N("munder", [x, N("mo", text="_")])]
    d["multi"] = [N("mmultiscripts", [x, y, z, N("mprescripts"), z, y])]
    d["multi 2"] = [N("mmultiscripts", [x, y, z, y, z])]
    d["multi odd"] = [N("mmultiscripts", [N("mrow", [x, y]), y, z, z])]
    d["mfenced"] = [N("mfenced", [x, y, z])]
    d["mfenced sep"] = [N("mfenced", [x, y, z], attrs={"open": "[", "close": ")", "separators": ";|"})]
    d["mfenced empty"] = [N("mfenced")]
    tab = N("mtable", [N("mtr", [N("mtd", [x]), N("mtd", [y])]), N("mtr", [N("mtd", [y]), N("mtd", [z])])])
    d["table"] = [tab]
    for o, c in ("()", "[]", "{}", "||", ("||", "||"), ("[", ""), ("(", "]"), ("/", "/")):
        d["matrix" + o + c] = [N("mfenced", [tab], attrs={"open": o, "close": c})]
    d["table in table"] = [N("mtable", [N("mtr", [N("mtd", [tab]), N("mtd", [x])])])]
    for n in NOTATIONS:
        d["menclose " + n] = [N("menclose", [x, y], attrs={"notation": n})]
    d["menclose -"] = [N("menclose", [x, y])]
    d["merror"] = [N("merror", [x, y])]
    d["mphantom"] = [x, N("mphantom", [y]), z]
    d["semantics"] = [N("semantics", [x, N("annotation", text="x^2")])]
    d["toggle"] = [N("maction", [x, y], attrs={"actiontype": "toggle"})]
    d["action"] = [N("maction", [x, y], attrs={"actiontype": "tooltip"})]
    d["unknown"] = [N("mfoo", [x, y])]
    d["mstyle"] = [N("mstyle", [x, y], attrs={"innerTable": "innerTable"})]
    for a in ({"class": "c"}, {"class": "c", "id": "t"}, {"class": "c", "id": "t", "style": "s"}):
        same = N("mtable", [N("mtr", [N("mtd", [x], attrs=dict(a)), N("mtd", [y])], attrs=dict(a))], attrs=dict(a))
        d["table with %d" % len(a)] = [same]
        d["inner table with %d" % len(a)] = [N("mtable", [N("mtr", [N("mtd", [same]), N("mtd", [x])])])]
    d["nested math"] = [N("math", [x]), y]
    d["empty"] = []
    out = [plain(N("math", k)) for k in d.values()]
    # failures
    for t, k in (("mfrac", 1), ("mfrac", 3), ("mroot", 0), ("msub", 1), ("msup", 3), ("mover", 1), ("munder", 0), ("msubsup", 2), ("munderover", 4),
                 ("mmultiscripts", 2)):
        out.append(plain(N("math", [x, N(t, [x] * k)])))
    out += ["", "x", "<math>", "<math><mi>x</math>", "<math><mi>&alpha;</mi></math>", "<math><mi>x</mi></math><math/>", "<math><mi a='1' a='1'>x</mi></math>",
            "<math display><mi class= >x</mi></math>", "<math><mfenced open close='['><mi>x</mi></mfenced></math>", "<math x><mi>", "<p/>",
            "<mml:math><mml:mi>x</mml:mi></mml:math>", "<d><math><mi>a</mi></math><math/><math><mi>b</mi></math></d>",
            "<math><mtable><mtr><mtd><mfrac><mi>x</mi></mfrac></mtd></mtr></mtable></math>",
            "<math><mfenced><mtable><mtr><mtd><mfrac/></mtd></mtr></mtable></mfenced></math>",
            "<math><maction actiontype='tooltip'/></math>", "<math><mmultiscripts><mi>x</mi></mmultiscripts></math>",
            "<!DOCTYPE math [<!ENTITY e 'q'>]><math><mi>&e;</mi></math>", "<math><mi>&e;</mi></math>", "<math><![CDATA[x]]><mi><![CDATA[<]]></mi></math>",
            "<math><!-- c --><mi>a<!-- c -->b</mi></math>"]
    # what stands around the document: blanks, declarations, marks, more than one root, several formulas
    head, one = "<?xml version='1.0'?>", "<math><mi>x</mi></math>"
    out += [a + head + one for a in ("", " ", "\n", "\t ", "\ufeff", "\u00a0", "<!-- c -->")] + [a + one for a in (" ", "\r\n", "\ufeff", "\u00a0", "\u2028", "\x00", "\x0b", "q")]
    out += [one + a for a in (" ", "\n", "\r\n\t", "\ufeff", "\u00a0", "\u2028", "\x00", "\x1a", "q", "<!-- c -->", "<?p?>", one, "</math>")] + [" ", "\n", "\ufeff", "\x00"]
    out += ["<?xml version='1.0' encoding='%s'?>%s" % (e, one) for e in ("utf-8", "UTF-8", "latin-1", "utf-16", "ascii", "nosuch")]
    out += ["<?xml version='1.1'?>" + one, "<?xml version='1.0' standalone='no'?>" + one]
    out += ["<d>%s</d>" % "".join("<math><mi>%s</mi></math>" % c for c in t) for t in ("ab", "abc", "aab", "aa", "abcdefghijkl")]
    out += ["<d><math><mi>a</mi></math><p><math><mfrac><mi>b</mi></mfrac></math></p><math><msup><mi>c</mi></msup></math></d>"]
    return list(dict.fromkeys(out))


def dictionary(parts=24):
    """documents that hold the dictionary, entry by entry, each a slice across all of it"""
    from .lexicon import LEX, xml_char
    toks = [N(kind, text=t) for kind in ("mi", "mo", "mn") for t in sorted(LEX[kind]) if t and all(xml_char(ord(c)) for c in t)]
    toks += [N("mtext", text=t) for t in sorted(LEX["mi"]) if len(t) == 1 and xml_char(ord(t))]
    return [plain(N("math", toks[i::parts])) for i in range(parts)]


def directed():
    """documents around the constants that the recorded source did not have"""
    out = []
    for w in NEW_WORDS[:60]:
        x = mi("x")
        for tag, a in (("mfenced", "open"), ("mfenced", "close"), ("mfenced", "separators"), ("menclose", "notation"), ("mi", "mathvariant"), ("mtext", "mathvariant"),
                       ("mfrac", "bevelled"), ("maction", "actiontype")):
            out.append(N(tag, [x, mi("y")] if tag[1:] not in ("i", "text") else [], text="a b" if tag[1:] in ("i", "text") else "", attrs={a: w}))
        for tag in ("mi", "mo", "mn", "mtext"):
            out.append(N(tag, text=w))
        if NAME.match(w) and not w.lower().startswith("xml"):
            out.append(N("mrow", [N("msup", [x, mi("y")], attrs={w: "true"}), N("mi", text="z", attrs={w: w + "x"})]))
            out.append(N(w, [x, mi("y")]))
    w = shapes.wide(lambda: mi("x"))
    for k in NEW_SIZES[:40]:
        if k <= 600:
            out += [w[f](k).kids[0] for f in sorted(w) if w[f](k).kids]
    return [plain(N("math", [n])) for n in out]


def large(top=40000):
    """documents as large as the new numbers of the changed source; on the recorded source, a few thousand items"""
    out = []
    for k in [3000] + NEW_BIG[:8]:
        out += [N(tag, text="ab " * (k // 3) + "c" * (k % 3)) for tag in ("mi", "mtext")]
        if k <= top:
            out += [N("mrow", [mi("x") for _ in range(k)]), N("mfenced", [mi("x") for _ in range(k)])]
    docs = [plain(N("math", [n])) for n in out]
    for k in [3000] + NEW_BIG[:8]:
        docs.append("<math><!--%s--><mi class='%s'>x</mi></math>" % ("a" * k, "b" * k))
        docs.append("<math><mi>x</mi>%s</math>" % (" \n" * k))
        if k <= top:
            docs.append("<d>%s</d>" % ("<math><mi>x</mi></math>" * k))
            docs.append("<math><mi %s>x</mi></math>" % " ".join("a%d" % i for i in range(k)))
    # numbers that are too long to be taken for machine numbers
    for k in (20, 45, 400, 4301, 6000, 20000):
        d = "1" + "0987654321" * (k // 10)
        for x in (d, "-" + d, d + "." + d, "." + d, "1e" + d[:k // 2], ",".join(d[i:i + 3] for i in range(0, len(d), 3)), "0x" + d, "\u0663" * k):
            docs.append("<math><mn>%s</mn></math>" % x)
        docs.append("<math><mi>%s</mi><mo>%s</mo><mtext>%s</mtext><mn width='%s'>1</mn></math>" % (d, d, d, d))
    return docs


def nested(r):
    """documents of moderate depth, one or two for every way of nesting"""
    out = []
    for k, (make, _) in sorted(shapes.deep(lambda: mi("q")).items()):
        for n in (6, 15, 40, 90):
            out.append(plain(make(n + r.randrange(4))))
    two = N("mrow", [mi("a"), N("mo", text="+"), mi("b")])
    for tag, more in (("msup", 1), ("msub", 1), ("msubsup", 2), ("munderover", 2), ("mmultiscripts", 2), ("mover", 1), ("mfenced", 1), ("mfrac", 1)):
        for n in (3, 8, 14, 33, 70):
            t = two.clone()
            for _ in range(n):
                t = N(r.choice(["mrow", "mstyle", "maction", "mpadded", "unknown"]), [t])
            out.append(plain(N("math", [N(tag, [t] + [mi("i")] * more)])))
    return out


def combined(r, n):
    """attribute values of several words, with the separators that a value may hold"""
    lists = {("menclose", "notation"): NOTATIONS, ("mi", "mathvariant"): VARIANTS, ("mtext", "mathvariant"): VARIANTS, ("maction", "actiontype"): ACTIONS,
             ("mfenced", "open"): FENCES, ("mfenced", "close"): FENCES, ("mfenced", "separators"): SEPS, ("mfrac", "bevelled"): ["true", "false", "", "1"]}
    slots = sorted(lists)
    out = []
    for i in range(n):
        tag, attr = slots[i % len(slots)] if i % 2 else ("menclose", "notation")
        v = r.choice([" ", " ", " ", ",", ";", "  ", "\t"]).join(r.sample(lists[tag, attr], r.choice([2, 2, 2, 3, 3])))
        text = r.choice(["x", "Ab", "12"]) if tag in ("mi", "mtext") else ""
        out.append(plain(N("math", [N(tag, [] if text else [mi("a"), mi("b")], text, {attr: v})])))
    return out


def too_deep():
    """documents beyond the capacity: RecursionError"""
    d = shapes.deep(lambda: mi("q"))
    return [plain(d[k][0](n)) for k, n in (("mrow", 1500), ("mfenced", 1200), ("mtable", 700), ("multi-base", 1100), ("sup-base", 1300))]


def broken(r, xml):
    """a likely failing relative of a document"""
    p = r.random()
    if p < 0.3:
        return xml[:r.randrange(len(xml) + 1)]
    if p < 0.5:
        return re.sub(r"</m(frac|sup|sub|over|under|root|subsup|underover)>", r"<mi>q</mi></m\1>", xml, count=1)
    if p < 0.7:
        return xml.replace("</mi>", "&nosuch;</mi>", 1)
    if p < 0.85:
        return xml.replace("<mi>", "<mi x>", 1).replace("<mrow>", "<mrow q=>", 1)
    return xml + r.choice(["x", "<a/>", "</math>", "<!--"])


def relatives(r, xml):
    """near-duplicates of one document text"""
    out = []
    texts = [m for m in re.finditer(r">([^<>&\s]+)<", xml)]
    if texts:
        for _ in range(2):
            m = r.choice(texts)
            a, b = m.span(1)
            i = r.randrange(a, b)
            if not (0xD800 <= ord(xml[i]) <= 0xDFFF):
                out.append(xml[:i] + r.choice("abcxyz0189\u03b1\u03b2") + xml[i + 1:])
        m = r.choice(texts)
        a, b = m.span(1)
        out.append(xml[:a] + xml[a:b].swapcase() + xml[b:])
        out.append(xml[:b] + r.choice([" ", "\n", "", "  ", "x"]) + xml[b:])
        m1, m2 = r.choice(texts), r.choice(texts)
        if m1.end(1) < m2.start(1):
            out.append(xml[:m1.start(1)] + m2.group(1) + xml[m1.end(1):m2.start(1)] + m1.group(1) + xml[m2.end(1):])
    vals = [m for m in re.finditer(r"=\"([^\"]*)\"", xml)]
    if vals:
        m = r.choice(vals)
        v = m.group(1)
        pool = [VARIANTS, NOTATIONS, FENCES, SEPS, ACTIONS, ["true", "false"]]
        new = r.choice(r.choice(pool))
        out.append(xml[:m.start(1)] + esc_attr(new) + xml[m.end(1):])
        out.append(xml[:m.start(1)] + v[::-1] + xml[m.end(1):] if "&" not in v else xml)
        out.append(xml[:m.start(1)] + xml[m.end(1):])
    p = r.random()
    if p < 0.3:
        out.append(" " + xml)
        out.append(xml + "\n")
    elif p < 0.5:
        out.append(xml.replace("<math>", "<math display=\"block\">", 1))
        out.append(xml.replace("<math>", "<math display>", 1))
    elif p < 0.7:
        out.append(re.sub(r"(</?)m", r"\1mml:m", xml))
    elif p < 0.9:
        a, b = r.sample(["msub", "msup", "mover", "munder", "mfrac", "mroot"], 2)
        out.append(xml.replace("<%s>" % a, "<%s>" % b).replace("</%s>" % a, "</%s>" % b))
    return out


DRESS = [{"class": "c"}, {"id": "t"}, {"class": "c", "id": "t"}, {"class": "c", "id": "t", "style": "s"}, {"open": "[", "close": "]"}, {"mathvariant": "bold"},
         {"notation": "box", "mathvariant": "bold", "bevelled": "true", "open": "|", "close": "|", "actiontype": "tooltip"}, {"xmlns": "http://www.w3.org/1998/Math/MathML"}]


def dressed(r, t):
    """the same few attributes on many elements, so that equal attributes occur in different places"""
    t = t.clone()
    a = r.choice(DRESS)
    p = r.choice([1, 0.5, 0.2])
    for n in t.walk():
        if r.random() < p:
            for k, v in a.items():
                n.attrs.setdefault(k, v)
    return t


def mixed(r, n, failures=0.15, big=True):
    g = Gen(r)
    out = representative()
    new = directed()
    out += r.sample(new, min(len(new), n // 4))
    while len(out) < n:
        t = g.formula(r.choice([1, 2, 2, 3, 3, 4]))
        if r.random() < 0.25:
            t = dressed(r, t)
        xml = plain(t) if r.random() < 0.7 else Spelling(r).element(t)
        if len(xml) > 6000 and not big:
            continue
        fam = [xml]
        if r.random() < 0.6:
            fam += relatives(r, xml)
        if r.random() < 0.2:
            fam.append(plain(mutate(r, t, g)))
        if r.random() < 0.25:
            # parts of it on their own, after it or before it
            parts = [n for n in t.walk() if n.kids]
            subs = [plain(N("math", [r.choice(parts)])) for _ in range(2) if parts]
            fam = fam + subs if r.random() < 0.5 else subs + fam
        if r.random() < failures * 2:
            fam.append(broken(r, xml))
        if r.random() < 0.1:
            fam.append("<d>%s<p>%s</p></d>" % (plain(t), plain(g.formula(2))))
        out += fam
    return list(dict.fromkeys(out))[:n]
