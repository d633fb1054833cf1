"""The model-free structure monitor: documents of marker tokens are converted, the
LaTeX is read back by an independent reader (latex.py), and what it says is
compared with what the MathML says."""
from . import sut
from .gen import shrink
from .latex import Bad, meaning, norm, read, tokens
from .model import FIXED_ARITY, attr
from .node import N, plain

ROWS = ["mrow", "mrow", "mstyle", "mpadded", "semantics", "unknown", "foo"]
LEAVES = ["mi", "mi", "mn", "mo", "mtext"]
OPEN = ["[", "|", "<", ".", "]", "/", "\\{", "(", ")", ">"]
TABLE_FENCES = [("(", ")"), ("[", "]"), ("{", "}"), ("|", "|"), ("||", "||"), ("[", "|"), ("|", "."), ("/", "/"), ("<", ">"),
                (".", "|"), ("(", "]"), ("\\{", ".")]
SEPARATORS = [None, "", ";", ";:", "!;:", "; :", "::!", "-+", " ; ", ";:!+-"]
NOTATION = ["longdiv", "actuarial", "radical", "box", "roundedbox", "circle", "top", "bottom", "updiagonalstrike",
            "downdiagonalstrike", "updiagonalarrow", "verticalstrike", "horizontalstrike", "nosuch"]
SHAPES = {"row": 6, "mfrac": 4, "msqrt": 3, "mroot": 3, "msup": 4, "msub": 4, "msubsup": 3, "munderover": 3, "mover": 3, "munder": 3,
          "mmultiscripts": 3, "mfenced": 4, "mtable": 2, "menclose": 3, "merror": 2, "mphantom": 2, "maction": 2, "annot": 1, "math": 0.5}


class Sane:
    def __init__(self, rng, focus=None):
        self.r = rng
        w = dict(SHAPES)
        for k, v in (focus or {}).items():
            k = "row" if k in ("mrow", "wrap") else k
            if k in w:
                w[k] *= v
        self.k, self.w = list(w), list(w.values())

    def leaf(self):
        return N(self.r.choice(LEAVES), text="Q0q")

    def kids(self, d, lo, hi):
        return [self.tree(d - 1) for _ in range(self.r.randint(lo, hi))]

    def tree(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.2:
            return self.leaf()
        k = r.choices(self.k, self.w)[0]
        if k == "row":
            return N(r.choice(ROWS), self.kids(d, 0, 3) if r.random() < 0.6 else self.kids(d, 1, 1))
        if k in FIXED_ARITY:
            n = N(k, self.kids(d, FIXED_ARITY[k], FIXED_ARITY[k]))
            if k == "mfrac" and r.random() < 0.35:
                n.attrs["bevelled"] = r.choice(["true", "true", "false"])
            return n
        if k == "mmultiscripts":
            kids = [self.tree(d - 1)]
            s = lambda: N("none") if r.random() < 0.2 else self.tree(d - 2)  # noqa: E731
            post = r.choice([0, 1, 2, 2, 3, 4, 6])
            kids += [s() for _ in range(post)]
            if r.random() < 0.6:
                kids += [N("mprescripts")] + [s() for _ in range(r.choice([0, 1, 2, 2, 3, 4, 6]))]
            while len(kids) < 3:
                kids.append(s())
            return N(k, kids)
        if k == "mfenced":
            n = N(k, self.kids(d, 0, 4))
            if r.random() < 0.8:
                n.attrs["open"] = r.choice(OPEN)
            if r.random() < 0.8:
                n.attrs["close"] = r.choice(OPEN)
            s = r.choice(SEPARATORS)
            if s is not None:
                n.attrs["separators"] = s
            return n
        if k == "mtable":
            x = self.table(d)
            for _ in range(r.choice([0, 0, 0, 1, 3])):
                x = N(r.choice(ROWS), [x])
            o, c = r.choice(TABLE_FENCES)
            return N("mfenced", [x], attrs={"open": o, "close": c})
        if k == "menclose":
            n = N(k, self.kids(d, 0, 3))
            if r.random() < 0.9:
                n.attrs["notation"] = r.choice(NOTATION)
            return n
        if k == "maction":
            return N(k, self.kids(d, 1, 3), attrs={"actiontype": r.choice(["toggle", "tooltip", "", "statusline"])})
        if k == "annot":
            return N("semantics", [self.tree(d - 1), N(r.choice(["annotation", "annotation-xml"]), [self.leaf()])])
        return N(k, self.kids(d, 0, 3))

    def table(self, d):
        r = self.r
        rows = []
        for _ in range(r.choice([1, 1, 2, 2, 3])):
            row = N("mtr")
            for _ in range(r.choice([0, 1, 2, 2, 3])):
                kids = self.kids(d - 1, 0, 2)
                if r.random() < 0.15 and d > 1:
                    kids.append(self.table(d - 2))
                row.kids.append(N("mtd", kids))
            rows.append(row)
        return N("mtable", rows)

    def formula(self):
        d = self.r.choice([2, 2, 3, 3, 4])
        return renumber(N("math", [self.tree(d) for _ in range(self.r.choice([1, 1, 1, 2, 3]))]))


def renumber(t):
    i = 0
    for n in t.walk():
        if n.text:
            i += 1
            n.text = "Q%dq" % i
    return t


def readable(t, table_ok=False, in_table=False):
    """Is t a document whose LaTeX says everything about it?"""
    tag, k = t.tag, t.kids
    w = FIXED_ARITY.get(tag)
    if w is not None and len(k) != w:
        return False
    if t.text and tag not in LEAVES or tag in LEAVES and (k or not t.text):
        return False
    if tag in LEAVES:
        return True
    if tag == "mmultiscripts":
        if len(k) < 3 or k[0].tag == "mprescripts":
            return False
        return sum(x.tag == "mprescripts" for x in k) <= 1 and \
            all(x.tag == "mprescripts" and not x.kids or readable(x, False, in_table) for x in k)
    if tag == "mfenced":
        if any(x.tag == "mtable" for x in t.walk()) and chain(t):
            return (attr(t, "open"), attr(t, "close")) in TABLE_FENCES and all(readable(x, True, in_table) for x in k)
        if any(attr(t, a) and attr(t, a) not in OPEN for a in ("open", "close")):
            return False
        if any(x.tag == "mtable" for x in t.walk()):
            return False
        return all(readable(x, False, in_table) for x in k)
    if tag == "mtable":
        return (table_ok or in_table) and all(
            row.tag == "mtr" and all(c.tag == "mtd" and all(readable(x, False, True) for x in c.kids) for c in row.kids)
            for row in k) and bool(k)
    if tag in ROWS:
        ok = table_ok and len(k) == 1
        return all(readable(x, ok, in_table) for x in k)
    if tag in ("mphantom", "annotation", "annotation-xml"):
        return not any(x.tag == "mtable" for x in t.walk()) and all(readable(x, False, in_table) for x in k)
    if tag == "maction" and not k:
        return False
    if tag not in FIXED_ARITY and tag not in ("msqrt", "menclose", "merror", "maction", "math", "none"):
        return False
    if not all(readable(x, False, in_table) for x in k):
        return False
    # a slash needs something on both sides
    return not (tag == "mfrac" and attr(t, "bevelled") == "true") or all(meaning(x, in_table) for x in k)


def chain(fence):
    """Does the fence hold a table and nothing but wrappers around it?"""
    n = fence
    while len(n.kids) == 1:
        n = n.kids[0]
        if n.tag == "mtable":
            return True
        if n.tag not in ROWS:
            return False
    return False


def norm_meaning(items):
    out = []
    for it in items:
        k = it[0]
        if k == "a":
            out.extend(("a", x) for x in tokens(it[1]) if not x.isspace())
        elif k == "f":
            if it[1] == "(" and it[2] == ")":
                out.extend(norm_meaning(it[3]))
            else:
                out.append(("f", it[1], it[2], norm_meaning(it[3])))
        elif k == "c":
            out.append(("c", it[1], None if it[2] is None else norm_meaning(it[2]), [norm_meaning(a) for a in it[3]]))
        elif k == "e":
            out.append(("e", it[1], [[norm_meaning(c) for c in r] for r in it[2]]))
        elif k == "p":
            out.append(("p", norm_meaning(it[1]), norm_meaning(it[2])))
        elif k == "s":
            out.append(("s", norm_meaning(it[1]), None if it[2] is None else norm_meaning(it[2]),
                        None if it[3] is None else norm_meaning(it[3])))
        elif k == "bev":
            out.append(("bev", norm_meaning(it[1]), norm_meaning(it[2])))
    return out


def verdict(t):
    o = sut.convert(plain(t))
    if not o.ok:
        return o.show(), "no error"
    w = norm_meaning(meaning(t))
    try:
        got = norm(read(o.text))
    except Bad as e:
        return "%s -- unreadable: %s" % (o.text, e), repr(w)
    if got != w:
        return "%s -- read as %r" % (o.text, got), repr(w)
    return None


def semantic(ctx, focus, n, claims, count="structures_read_back"):
    g = Sane(ctx.rng, focus)
    for _ in range(n):
        t = g.formula()
        if not readable(t):
            ctx.count("unreadable_shapes_skipped")
            continue
        ctx.evaluations += 1
        ctx.count(count)
        if claims(t):
            ctx.count("relevant_structures_read_back")
            ctx.saw(plain(t))
        if verdict(t):
            small = shrink(t, lambda x: readable(x) and verdict(x) is not None, budget=4000)
            got, want = verdict(small)
            if claims(small):
                ctx.violate("the LaTeX reads as a different structure", xml=plain(small), got=got, expected=want)
            else:
                ctx.count("disagreements_of_other_properties")
                if len(ctx.foreign) < 3:
                    ctx.foreign.append({"xml": plain(small)[:500], "expected": want[:300], "got": got[:300]})
        if ctx.full():
            return
