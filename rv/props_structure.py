"""P01 - P12: what the elements mean."""
import re

from . import sut
from .diff import sizes, toks, workload, judge, disagrees, expected, one, mutate  # noqa: F401
from .gen import FENCES, Gen, IRRELEVANT, MEANINGFUL, NOTATIONS, SEPS, shrink
from .harvest import NAME, NAMES, identifiers, size, NEW_BIG, NEW_SIZES, SIZES, WORDS, unused_attribute
from .latex import tokens
from .model import FIXED_ARITY, NOT_TRANSPARENT, attr
from .node import N, Spelling, plain
from .readable import semantic
from .shapes import deep, wide

A_MODEL = "the executable specification in rv/model.py states the property's text; symbols come from the recorded dictionary"
A_PUBLIC = "only the public conversion entry point is observed"
MARK = re.compile(r"Q\d+q")
SCRIPTS = {"msup", "msub", "msubsup", "munderover", "mmultiscripts"}


def has(*tags):
    s = set(tags)
    return lambda t: any(n.tag in s for n in t.walk())


def pick(ctx, names, fn, limit, count):
    """sized documents of the named families: this shard's share of all size
    boundaries (thorough), or a seeded sample of them (quick)"""
    fam = fn
    ss = sorted({s for s in SIZES if s <= limit} | {s for s in NEW_SIZES if limit >= 300})
    jobs = [(f, s) for f in names for s in ss]
    ctx.rng.shuffle(jobs)
    jobs.sort(key=lambda j: j[1] not in NEW_SIZES)
    jobs = jobs[:count] if ctx.quick else jobs[:count * 4]
    far = [s for s in NEW_BIG if s <= 40000]
    if far and limit >= 300:
        jobs += [(ctx.rng.choice(names), s) for s in ctx.rng.sample(far, min(4, len(far)))]
    for f, s in jobs:
        yield fam[f](s)


def sized_of(names, deep_names=(), limit=300, dlimit=110, count=60):
    def go(ctx, g):
        tok = lambda: toks(ctx.rng, 1)[0]  # noqa: E731
        w = wide(tok)
        d = {k: v[0] for k, v in deep(tok).items()}
        yield from pick(ctx, list(names), w, limit, count)
        if deep_names:
            yield from pick(ctx, list(deep_names), d, dlimit, count // 2)
    return go


def valid_arity(t):
    for n in t.walk():
        w = FIXED_ARITY.get(n.tag)
        if w is not None and len(n.kids) != w:
            return False
        if n.tag == "mmultiscripts" and len(n.kids) < 3:
            return False
        if n.tag == "maction" and not n.kids:
            return False
    return True


# ---------------------------------------------------------------- P01
def order(n, out):
    """visible markers in reading order"""
    k = n.kids
    if n.tag in ("mi", "mn", "mo", "mtext"):
        if not k and MARK.fullmatch(n.text):
            out.append(n.text)
        return
    if n.tag in ("mphantom", "annotation", "annotation-xml"):
        return
    if n.tag in ("mroot", "mover", "munder"):
        order(k[1], out)
        order(k[0], out)
        return
    if n.tag == "mmultiscripts":
        cut = next((i for i, c in enumerate(k) if i and c.tag == "mprescripts"), None)
        if cut is not None:
            for c in k[cut + 1:]:
                order(c, out)
        for c in k[:cut]:
            order(c, out)
        return
    if n.tag == "maction" and attr(n, "actiontype") not in ("", "toggle"):
        order(k[0], out)
        return
    for c in k:
        order(c, out)


class P01:
    pid = "P01"
    rule = ("random and size-boundary documents whose tokens are unique markers; the monitor extracts the markers from the LaTeX and "
            "compares the sequence with the reading order of the visible tokens. Non-trivial: at least 4 visible markers and 2 kinds "
            "of structural elements, or a size-boundary family.")
    assumptions = [A_PUBLIC, "markers Q<n>q are no entries of the symbol dictionary"]
    need = {"markers_seen": 5000, "marker_sequences_compared": 500, "documents_with_equal_parts": 1000}
    LISTS = ("math", "mrow", "mstyle", "msqrt", "merror", "menclose", "mfenced", "mpadded", "mtable", "mtr", "mtd", "semantics", "mphantom", "unknown")

    @staticmethod
    def repeat(ctx, t):
        """equal parts side by side or apart: each of them counts"""
        r = ctx.rng
        lists = [n for n in t.walk() if n.kids and n.tag in P01.LISTS]
        for _ in range(r.choice([1, 1, 2, 3])):
            if not lists or t.size() > 400:
                break
            n = r.choice(lists)
            i = r.randrange(len(n.kids))
            for _ in range(r.choice([1, 1, 2, 5])):
                n.kids.insert(r.choice([i, i + 1, len(n.kids), 0]), n.kids[i].clone())
        if r.random() < 0.3:
            toks = [n for n in t.walk() if n.text]
            for n in toks:
                if r.random() < 0.5:
                    n.text = r.choice(toks).text
        ctx.count("documents_with_equal_parts")

    @staticmethod
    def check(ctx, t, nontrivial=True):
        want = []
        for k in t.kids:
            order(k, want)
        xml = plain(t)
        if ctx.rng.random() < 0.35:
            xml = Spelling(ctx.rng).element(t)
            ctx.count("spelt_in_other_ways")
        o = sut.convert(xml)
        ctx.evaluations += 1
        ctx.count("marker_sequences_compared")
        got = MARK.findall(o.text) if o.ok else None
        ctx.count("markers_seen", len(got or ()))
        ctx.top("markers_in_one_document", len(want))
        ctx.top("depth", t.depth())
        if nontrivial:
            ctx.saw(plain(t))
        if ctx.shard == 0 and 8 < t.size() < 22:
            ctx.sample(xml=plain(t), latex=o.show(), markers=want)
        if got != want:
            def bad(x):
                if not valid_arity(x):
                    return False
                w = []
                for k in x.kids:
                    order(k, w)
                r = sut.convert(plain(x))
                return not r.ok or MARK.findall(r.text) != w
            if o.error == "NoAnswer" or not bad(t):
                ctx.violate("tokens lost, repeated, invented or out of order", xml=xml, markers_expected=want, got=o.show())
                return
            s = shrink(t, bad)
            w = []
            for k in s.kids:
                order(k, w)
            ctx.violate("tokens lost, repeated, invented or out of order", xml=plain(s), markers_expected=w, got=sut.convert(plain(s)).show())

    @staticmethod
    def shard(ctx):
        g = Gen(ctx.rng, markers=True)
        kinds = {"stray": 0}
        g.w = [w if k != "stray" else 0 for k, w in zip(g.kinds, g.w)]
        for _ in range(ctx.n(16000, 200000)):
            g.nmark = 0
            t = g.formula()
            for n in t.walk():
                if n.tag == "mi" and ctx.rng.random() < 0.1:
                    n.attrs["mathvariant"] = ctx.rng.choice(["bold", "italic", "script", "nosuch"])
            if ctx.rng.random() < 0.25:
                P01.repeat(ctx, t)
            structural = {n.tag for n in t.walk()} - {"mi", "mn", "mo", "mtext", "math", "mrow"}
            m = [n for n in t.walk() if n.text]
            P01.check(ctx, t, len(m) >= 4 and len(structural) >= 2)
            if ctx.full():
                return
        i = [0]

        def tok():
            i[0] += 1
            return N(ctx.rng.choice(["mi", "mn", "mo", "mtext"]), text="Q%dq" % i[0])
        w = wide(tok)
        d = {k: v[0] for k, v in deep(tok).items()}
        for t in pick(ctx, sorted(w), w, 600, 120):
            P01.check(ctx, t)
        for t in pick(ctx, sorted(set(d) - {"identifier", "text element"}), d, 110, 60):
            P01.check(ctx, t)
        # tokens in many pieces
        for j, k in enumerate(SIZES):
            if j % ctx.shards != ctx.shard:
                continue
            for tag in ("mi", "mo", "mn", "mtext"):
                for piece in ("<!--c-->", "<![CDATA[]]>", "<?p q?>", "<!---->\n"):
                    for at in ("Q%%dq%s", "%sQ%%dq", "Q%s%%dq"):
                        if "\n" in piece and at[0] == "Q" and at[1] == "%":
                            continue
                        text = at % (piece * k)
                        xml = "<math><mfrac><%s>%s</%s><mrow><%s>%s</%s><mi>Q3q</mi></mrow></mfrac></math>" % (tag, text % 1, tag, tag, text % 2, tag)
                        o = sut.convert(xml)
                        ctx.evaluations += 1
                        ctx.count("tokens_in_many_pieces")
                        got = MARK.findall(o.text) if o.ok else None
                        if got is None or [re.sub(r"\s", "", g) for g in got] != ["Q1q", "Q2q", "Q3q"]:
                            ctx.violate("tokens lost, repeated, invented or out of order", xml=xml[:2000], pieces=k, expected="Q1q Q2q Q3q", got=o.show()[:500])
                            if ctx.full():
                                return


# ---------------------------------------------------------------- P02 .. P09: differential + semantic
class _Diff:
    assumptions = [A_MODEL, A_PUBLIC]
    focus = {}
    tags = ()
    quick_n, thorough_n = 12000, 160000
    sem_quick, sem_thorough = 6000, 80000
    wide_names, deep_names = (), ()
    need = {"relevant_documents": 1500}
    what = "differs from the specification"
    relevant_attrs = ()

    @classmethod
    def claims(cls, t):
        return any(n.tag in cls.tags for n in t.walk())

    @classmethod
    def shard(cls, ctx):
        workload(ctx, cls.focus, ctx.n(cls.quick_n, cls.thorough_n), sized=sized_of(cls.wide_names, cls.deep_names),
                 interesting=cls.claims, claims=cls.claims, what=cls.what)
        if cls.sem_quick and not ctx.full():
            semantic(ctx, cls.focus, ctx.n(cls.sem_quick, cls.sem_thorough), cls.claims)
        cls.extra(ctx)

    @classmethod
    def extra(cls, ctx):
        pass


def _rule(s):
    return ("coverage-guided random documents, mutations of those that reached new branches, and size boundaries (sizes include every "
            "constant in the library's source, plus and minus one); output compared with the executable specification, and, for documents "
            "of markers, read back by an independent LaTeX reader and compared with the MathML structure. Non-trivial: the document "
            "contains " + s + ".")


class P02(_Diff):
    pid = "P02"
    tags = ("mfrac", "msqrt", "mroot", "msub", "msup", "msubsup", "munderover")
    rule = _rule("a fraction, root or script element")
    focus = {k: 3 for k in tags}
    wide_names = ("msqrt", "sup-base", "sub-script", "subsup-base", "underover-base", "numerator", "denominator", "bevelled",
                  "root-index", "radicand", "fractions", "powers")
    deep_names = ("msqrt", "num", "den", "bevelled", "radicand", "index", "sup", "sub", "subsup-sup", "underover-under", "sup-base")
    need = {"relevant_documents": 5000, "relevant_structures_read_back": 2000}


class P03(_Diff):
    pid = "P03"
    tags = tuple(SCRIPTS)
    rule = _rule("a script element")
    focus = {"msup": 5, "msub": 5, "msubsup": 4, "munderover": 4, "mmultiscripts": 4, "wrap": 3, "mphantom": 2, "maction": 2, "math": 2}
    wide_names = ("sup-base", "subsup-base", "underover-base", "postscripts", "both-scripts", "powers")
    deep_names = ("sup-base", "sub-base", "subsup-base", "underover-base", "multi-base")
    need = {"relevant_documents": 5000, "relevant_structures_read_back": 2000, "base_shapes": 300}

    @classmethod
    def extra(cls, ctx):
        """every script element on every base shape, through chains of wrappers"""
        r = ctx.rng
        g = Gen(r)
        for _ in range(ctx.n(4000, 60000)):
            p = r.random()
            b = (N(r.choice(["mrow", "mi", "mphantom", "mtext", "mspace", "mrow"]), text="") if p < 0.12 else
                 N("mrow", toks(r, r.choice([0, 1, 2, 3]))) if p < 0.4 else g.tree(r.randint(0, 3)))
            if p < 0.15:
                b = N("mrow", [N("mphantom", [b]), N("mrow")][:r.randint(0, 2)])
            for _ in range(r.choice([0, 0, 1, 1, 2, 3, 6, 20])):
                b = N(r.choice(["mrow", "mstyle", "mpadded", "mtd", "unknown", "math", "semantics"]), [b]) if r.random() < 0.85 else \
                    N("maction", [b], attrs={"actiontype": r.choice(["toggle", "tooltip"])})
            tag = r.choice(sorted(SCRIPTS))
            k = [b] + toks(r, {"msup": 1, "msub": 1}.get(tag, 2))
            if tag == "mmultiscripts" and r.random() < 0.4:
                k += [N("mprescripts")] + toks(r, 2)
            t = N("math", [N(tag, k)])
            ctx.count("base_shapes")
            one(ctx, t, plain(t), cls.claims, cls.claims, cls.what)
            if ctx.full():
                return


class P04(_Diff):
    pid = "P04"
    tags = ("mfenced",)
    rule = _rule("a fence")
    focus = {"mfenced": 8}
    wide_names = ("mfenced", "mfenced-seps", "fences")
    deep_names = ("mfenced", "mfenced-2")
    need = {"relevant_documents": 5000, "relevant_structures_read_back": 2000, "fence_grid": 1000}

    @classmethod
    def extra(cls, ctx):
        r = ctx.rng
        pool = ",;:|.!-+#%&_{}$^~\\ \u00a0a\u2063"
        for i in range(ctx.n(6000, 80000)):
            parts = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, 20, 33])
            nsep = max(0, parts - 1 + r.choice([-3, -2, -1, 0, 0, 1, 2, 5]))
            n = N("mfenced", [N("mi", text="ab"[j % 2] * (1 + j % 3)) if r.random() < 0.9 else N("mrow") for j in range(parts)])
            if r.random() < 0.85:
                n.attrs["separators"] = "".join(r.choice(pool[:7] if r.random() < 0.8 else pool) for _ in range(nsep))
            if r.random() < 0.7:
                n.attrs["open"] = r.choice(FENCES) if r.random() < 0.9 else r.choice(WORDS or ["x"])
            if r.random() < 0.7:
                n.attrs["close"] = r.choice(FENCES) if r.random() < 0.9 else r.choice(WORDS or ["x"])
            t = N("math", [n])
            ctx.count("fence_grid")
            one(ctx, t, plain(t), cls.claims, cls.claims, cls.what)
            if ctx.full():
                return


class P05(_Diff):
    pid = "P05"
    tags = ("mtable", "mtr")
    rule = _rule("a table")
    focus = {"mtable": 9, "mfenced": 3}
    wide_names = ("rows", "cols", "cell", "inner-tables")
    deep_names = ()
    quick_n = 9000
    need = {"relevant_documents": 4000, "cells_read_back": 3000}

    @classmethod
    def extra(cls, ctx):
        """rows x columns of markers: the reader recovers the grid"""
        r = ctx.rng
        for _ in range(ctx.n(2400, 30000)):
            rows = r.choice([1, 1, 2, 2, 3, 4, 5, 7, 10, 13])
            i = 0
            grid = []
            for _ in range(rows):
                row = []
                for _ in range(r.choice([1, 1, 2, 2, 3, 4, 6, 11])):
                    cell = []
                    for _ in range(r.choice([0, 1, 1, 1, 1, 2, 3])):
                        i += 1
                        cell.append("Q%dq" % i)
                    row.append(cell)
                grid.append(row)

            def tok(m):
                x = N(r.choice(["mi", "mn", "mo"]), text=m)
                p = r.random()
                return x if p < 0.7 else N("mrow", [x]) if p < 0.8 else N("msqrt", [x]) if p < 0.9 else N("mphantom", [x])
            tbl = N("mtable", [N("mtr", [N("mtd", [tok(m) for m in c]) for c in row]) for row in grid])
            hidden = {x.text for n in tbl.walk() if n.tag == "mphantom" for x in n.walk() if x.text}
            o, c = r.choice([("(", ")"), ("[", "]"), ("{", "}"), ("|", "|"), ("||", "||"), ("[", ""), ("", ""), ("<", ">"), ("|", "]"), ("/", "/")])
            inner = r.random() < 0.3
            wrapn = r.choice([0, 0, 0, 1, 2, 5])
            x = tbl
            for _ in range(wrapn):
                x = N(r.choice(["mrow", "mstyle", "msqrt"]), [x])
            if inner:
                x = N("mtable", [N("mtr", [N("mtd", [N("mi", text="Q9999q")]), N("mtd", [x])])])
            t = N("math", [N("mfenced", [x], attrs={"open": o, "close": c})])
            out = sut.convert(plain(t))
            ctx.evaluations += 1
            ctx.count("grids_read_back")
            want = [[[m for m in cell if m not in hidden] for cell in row] for row in grid]
            env = {("(", ")"): "pmatrix", ("[", "]"): "bmatrix", ("{", "}"): "Bmatrix", ("|", "|"): "vmatrix",
                   ("||", "||"): "Vmatrix"}.get((o, c)) or ("matrix" if o != c else "bmatrix")
            if inner:
                env = "matrix"
            got = find_grid(out.text, env, inner) if out.ok else out.show()
            ctx.count("cells_read_back", sum(len(q) for q in want))
            ctx.saw(plain(t))
            if got != want:
                ctx.violate("cells are not where they belong", xml=plain(t), expected=repr(want), got="%s -- read as %r" % (out.show(), got))
            if ctx.full():
                return


def find_grid(text, env, inner):
    """the grid of the (innermost, when inner) environment, by splitting the text"""
    b, e = "\\begin{%s}" % env, "\\end{%s}" % env
    i = text.rfind(b) if inner else text.find(b)
    if i < 0:
        return None
    j = text.find(e, i) if inner else text.rfind(e)
    if j < 0:
        return None
    body = text[i + len(b):j]
    return [[MARK.findall(c) for c in row.split("&")] for row in body.split("\\\\")]


class P06(_Diff):
    pid = "P06"
    tags = ("menclose", "merror")
    rule = _rule("an enclosure or error")
    focus = {"menclose": 9, "merror": 8}
    wide_names = ("menclose", "merror")
    deep_names = ("menclose", "merror")
    need = {"relevant_documents": 5000, "relevant_structures_read_back": 1500, "notation_grid": 400}

    @classmethod
    def extra(cls, ctx):
        g = Gen(ctx.rng)
        names = NOTATIONS + [w for w in WORDS if len(w) < 30] + [a + " " + b for a in NOTATIONS[:4] for b in NOTATIONS[3:9]]
        for i, nota in enumerate(names):
            if i % ctx.shards != ctx.shard:
                continue
            for reps in range(6 if ctx.quick else 60):
                t = N("math", [N("menclose", [g.tree(2) for _ in range(ctx.rng.randint(0, 4))], attrs={"notation": nota})])
                ctx.count("notation_grid")
                one(ctx, t, plain(t), cls.claims, cls.claims, cls.what)


class P07(_Diff):
    pid = "P07"
    tags = ("mphantom", "annotation", "annotation-xml", "maction")
    rule = _rule("a phantom, annotation or action") + (" A second monitor puts markers into hidden places only and looks for them in the "
                                                       "LaTeX; a third removes hidden elements and compares.")
    focus = {"mphantom": 9, "annot": 9, "maction": 7}
    wide_names = ("toggle", "action", "phantom")
    deep_names = ("toggle", "action", "phantom", "semantics")
    sem_quick, sem_thorough = 4000, 60000
    need = {"relevant_documents": 5000, "hidden_markers_watched": 2000, "removals_compared": 500}

    @classmethod
    def extra(cls, ctx):
        r = ctx.rng
        g = Gen(r)
        hm = Gen(r, markers=True)
        for _ in range(ctx.n(6000, 80000)):
            t = g.formula()
            if not valid_arity(t):
                continue
            spots = [n for n in t.walk() if n.tag in ("mrow", "math", "msqrt", "mstyle", "menclose", "merror") and
                     not (len(n.kids) == 1)]
            if not spots:
                continue
            before = sut.convert(plain(t))
            n = r.choice(spots)
            if n.tag != "math" and any_base(t, n):
                continue
            hm.nmark = 0
            hid = N(r.choice(["mphantom", "annotation", "annotation-xml"]), [hm.tree(r.randint(0, 3)) for _ in range(r.randint(0, 3))])
            if r.random() < 0.2:
                hid = N("annotation", text="Q1q \\frac")
            if any(x.tag == "mtable" for x in hid.walk()):
                continue
            if r.random() < 0.3:
                # hidden content may even have a wrong number of children
                hid.kids.append(N("mfrac", [N("mi", text="Q77q")]))
                hid.text = ""
            for x in hid.walk():
                for _ in range(r.choice([0, 0, 1, 1, 2, 6]) if x is hid else r.choice([0, 0, 0, 1])):
                    k, v = unused_attribute(r)
                    if k not in MEANINGFUL.get(x.tag, ()) and not k.startswith("xmlns"):
                        x.attrs.setdefault(k, v)
            i = r.randint(0, len(n.kids))
            n.kids.insert(i, hid)
            if n.text:
                n.text = ""
            after = sut.convert(plain(t))
            ctx.evaluations += 1
            ctx.count("removals_compared")
            ctx.count("hidden_markers_watched", sum(1 for x in hid.walk() if x.text))
            ctx.saw(plain(t))
            if before.ok and (not after.ok or MARK.search(after.text)):
                ctx.violate("hidden content reached the result", xml=plain(t), got=after.show(), expected=before.show())
            elif before.ok and tokens_of(before.text) != tokens_of(after.text):
                ctx.violate("a hidden element changed the LaTeX around it", xml=plain(t), got=after.show(), expected=before.show())
            if ctx.full():
                return


def tokens_of(s):
    return [x for x in tokens(s) if not x.isspace()]


def any_base(t, n):
    """is n (part of) an argument that its parent inspects? then one more child may
    rightly change the grouping"""
    def up(cur, inspected):
        if cur is n:
            return inspected
        for i, k in enumerate(cur.kids):
            ins = inspected or (cur.tag in SCRIPTS and i == 0) or (cur.tag == "mfrac" and "bevelled" in cur.attrs) or \
                (cur.tag in ("mover", "munder") and i == 1) or (cur.tag == "mroot" and i == 1) or cur.tag in ("mi", "mo", "mn", "mtext")
            r = up(k, ins)
            if r is not None:
                return r
        return None
    r = up(t, False)
    return bool(r)


class P08(_Diff):
    pid = "P08"
    tags = ("mover", "munder")
    rule = _rule("an over- or under-annotation")
    focus = {"mover": 8, "munder": 8}
    wide_names = ("over-base", "over-annotation", "under-base")
    deep_names = ("over-base", "over", "under-base", "under")
    need = {"relevant_documents": 5000, "relevant_structures_read_back": 2000, "annotation_grid": 1000}

    @classmethod
    def extra(cls, ctx):
        r = ctx.rng
        g = Gen(r)
        from .lexicon import LEX
        acc = [k for k, v in LEX["mo"].items() if v in ("\\hat", "\\bar", "\\underbrace", "\\overbrace", "\\overline", "\\underline")]
        near = [k for k, v in LEX["mo"].items() if re.fullmatch(r"\\(hat|bar|tilde|vec|dot|ddot|check|breve|over\w+|under\w+|wide\w+)", v)]
        words = ["\\hat", "hat", "\\bar", "overline"] + [w for w in WORDS if len(w) < 20]
        for _ in range(ctx.n(6000, 80000)):
            p = r.random()
            a = N("mo", text=r.choice(acc)) if p < 0.35 else N("mo", text=r.choice(near)) if p < 0.5 else \
                N(r.choice(["mi", "mo", "mtext"]), text=r.choice(words)) if p < 0.7 else N(r.choice(["mi", "mo"]), text=r.choice(acc + near)) \
                if p < 0.8 else g.tree(2)
            for _ in range(r.choice([0, 0, 0, 1, 2])):
                a = N(r.choice(["mrow", "mstyle"]), [a]) if r.random() < 0.8 else N("mrow", [a, N("mrow")])
            b = g.tree(r.randint(0, 2))
            t = N("math", [N(r.choice(["mover", "munder"]), [b, a])])
            ctx.count("annotation_grid")
            one(ctx, t, plain(t), cls.claims, cls.claims, cls.what)
            if ctx.full():
                return


class P09(_Diff):
    pid = "P09"
    tags = ("mmultiscripts",)
    rule = _rule("a multiscripts element")
    focus = {"mmultiscripts": 15, "wrap": 1.5}
    wide_names = ("postscripts", "prescripts", "both-scripts")
    deep_names = ("multi-base", "multi-post", "multi-pre")
    need = {"relevant_documents": 5000, "relevant_structures_read_back": 1500, "script_lists": 1500}

    @classmethod
    def extra(cls, ctx):
        r = ctx.rng
        g = Gen(r)
        for _ in range(ctx.n(6000, 60000)):
            def s():
                p = r.random()
                return N("none") if p < 0.2 else toks(r, 1)[0] if p < 0.7 else N("mrow", toks(r, 2)) if p < 0.8 else \
                    N("mrow") if p < 0.85 else g.tree(2)
            base = r.choice([lambda: toks(r, 1)[0], lambda: N("mrow", toks(r, 2)), lambda: N("mrow", toks(r, 1)), lambda: N("mrow"),
                             lambda: N("mtext", text="a b"), lambda: N("mfrac", toks(r, 2)), lambda: N("msqrt", toks(r, r.randint(1, 3))),
                             lambda: N("menclose", toks(r, r.randint(1, 2)), attrs={"notation": "phasorangle"}), lambda: g.tree(2)])()
            post, pre = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 9, 14]), r.choice([None, None, 0, 1, 2, 3, 4, 5, 6, 8, 11])
            k = [base] + [s() for _ in range(post)]
            if pre is not None:
                k += [N("mprescripts")] + [s() for _ in range(pre)]
            while len(k) < 3:
                k.append(s())
            t = N("math", [N("mmultiscripts", k)])
            ctx.count("script_lists")
            one(ctx, t, plain(t), cls.claims, cls.claims, cls.what)
            if ctx.full():
                return


# ---------------------------------------------------------------- P10
class P10:
    pid = "P10"
    rule = ("valid random documents (which must not raise) and the same with one or more wrong child counts planted at random visible places "
            "(which must raise, naming one of the planted elements with its counts). Non-trivial: every planted document.")
    assumptions = [A_PUBLIC, "when several counts are wrong, any one of them may be reported"]
    need = {"errors_observed": 1000, "valid_documents": 500, "errors_among_several_formulas": 2000}
    WANT = dict(FIXED_ARITY)

    @staticmethod
    def shard(ctx):
        r = ctx.rng
        g = Gen(r)
        P10.counts(ctx)
        if ctx.full():
            return
        every = [(tag, n) for tag in sorted(FIXED_ARITY) for n in list(range(0, 12)) + [20, 50, 100, 101, 256] if n != FIXED_ARITY[tag]] + \
            [("mmultiscripts", n) for n in (0, 1, 2)] + [("maction", 0)] * 6
        for i in range(ctx.n(16000, 200000)):
            t = g.formula()
            valid = sut.convert(plain(t))
            ctx.evaluations += 1
            if valid.ok:
                ctx.count("valid_documents")
            else:
                def bad(x):
                    return valid_arity(x) and not sut.convert(plain(x)).ok
                s = shrink(t, bad) if valid_arity(t) else t
                if sut.convert(plain(s)).error == "InvalidNumberOfChildrenError":
                    ctx.violate("an admissible number of children is reported as wrong", xml=plain(s), got=sut.convert(plain(s)).show(), expected="LaTeX")
            # plant
            t2 = t.clone()
            planted = []
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                tag, n = every[(i * 8 + ctx.shard + r.randrange(3)) % len(every)] if r.random() < 0.7 else r.choice(every)
                bad = N(tag, toks(r, n) if r.random() < 0.5 or n > 12 else [g.tree(r.randint(0, 2)) for _ in range(n)])
                if tag == "maction":
                    bad.attrs["actiontype"] = r.choice(["tooltip", "statusline", "x"])
                if tag == "mfrac" and r.random() < 0.3:
                    bad.attrs["bevelled"] = "true"
                if n == 0 and r.random() < 0.3:
                    bad.text = r.choice(["", "x", "  "])
                spot = visible_spot(t2, r, bad)
                if spot:
                    planted.append((tag, n))
            if not planted:
                continue
            xml = plain(t2)
            if r.random() < 0.3:
                # the wrong count in one formula of several, anywhere in other markup
                k = r.choice([1, 1, 2, 2, 3, 4, 7, 20]) if r.random() < 0.9 else size(r, 60)
                others = [plain(N("math", toks(r, r.choice([0, 1, 1, 2])))) if r.random() < 0.8 else plain(valid_tree) if valid.ok and t.size() < 60 else "<math/>" for valid_tree in [t] * k]
                others.insert(r.randrange(k + 1), xml)
                others = [r.choice(["%s", "%s", "<p>%s</p>", "<div><p>text %s</p> more</div>", "<semantics>%s</semantics>", "<annotation-xml>%s</annotation-xml>", "<mphantom>%s</mphantom>"]) % x for x in others]
                xml = "<div>%s</div>" % r.choice(["", " ", " and "]).join(others)
                ctx.count("errors_among_several_formulas")
            o = sut.convert(xml)
            ctx.evaluations += 1
            ctx.count("errors_observed" if not o.ok else "silent_conversions")
            for p in planted:
                ctx.count("planted_" + p[0])
            ctx.top("depth_of_error", t2.depth())
            ctx.saw(xml)
            want = [P10.message(a, b) for a, b in planted]
            if ctx.shard == 0 and len(xml) < 300:
                ctx.sample(xml=xml, outcome=o.show(), planted=planted)
            if not o.ok and o.error == "InvalidNumberOfChildrenError" and o[2] in want:
                continue
            small = t2
            if o.error != "NoAnswer":
                def still(x):
                    left = [P10.message(n.tag, len(n.kids)) for n in visible(x) if wrong_count(n)]
                    q = sut.convert(plain(x))
                    return bool(left) and not (q.error == "InvalidNumberOfChildrenError" and q[2] in left)
                if still(t2):
                    small = shrink(t2, still)
            ctx.violate("a wrong number of children is not reported as it should be", xml=plain(small) if small is not t2 else xml,
                        expected=" | ".join(P10.message(n.tag, len(n.kids)) for n in visible(small) if wrong_count(n)),
                        got=sut.convert(plain(small) if small is not t2 else xml).show())
            if ctx.full():
                return

    ODD_KIDS = ["none", "mprescripts", "mprescripts", "mrow", "mphantom", "mspace", "annotation", "annotation-xml", "maction", "mtable", "mtr", "mtd", "math", "mfenced", "semantics", "malignmark", "unknown",
                "merror", "mi", "mo", "mn", "mtext", "ms", "mglyph", "msqrt", "mstyle"]

    @staticmethod
    def counts(ctx):
        """every counted element with every small number of children of unusual kinds"""
        r = ctx.rng
        g = Gen(r)
        tags = sorted(FIXED_ARITY) + ["mmultiscripts", "mmultiscripts", "maction"]
        for i in range(ctx.n(24000, 200000)):
            tag = tags[i % len(tags)]
            k = r.choice([0, 1, 2, 2, 3, 3, 4, 5, 6])
            n = N(tag, [N(r.choice(P10.ODD_KIDS)) if r.random() < 0.75 else g.token() for _ in range(k)])
            for q in n.kids:
                if q.tag in ("mi", "mo", "mn", "mtext", "annotation"):
                    q.text = q.text or r.choice(["", " ", "x", "\u2062", "2"])
                elif q.tag in ("mphantom", "maction", "mrow", "semantics") and r.random() < 0.5:
                    q.kids = [g.token()]
                if q.tag == "maction" and r.random() < 0.5:
                    q.attrs["actiontype"] = "toggle"
            if tag == "maction" and r.random() < 0.7:
                n.attrs["actiontype"] = r.choice(["toggle", "tooltip", "statusline", "", "x"])
            if r.random() < 0.2:
                n.attrs[r.choice(["bevelled", "accent", "notation", "open", "close", "separators", "mathvariant", "selection"])] = r.choice(["true", "", "0", "2", "box"])
            t = N("math", [n])
            if r.random() < 0.4:
                t = N("math", [r.choice([lambda x: N("mrow", [x]), lambda x: N("mtable", [N("mtr", [N("mtd", [x])])]), lambda x: N("msup", [x, N("mn", text="2")]), lambda x: N("mphantom", [x]),
                                         lambda x: N("maction", [N("mi", text="x"), x], attrs={"actiontype": "tooltip"}), lambda x: N("semantics", [N("mi", text="x"), N("annotation-xml", [x])]),
                                         lambda x: N("mroot", [N("mi", text="x"), x]), lambda x: N("mover", [N("mi", text="x"), x])])(n)])
            xml = plain(t)
            o = sut.convert(xml)
            ctx.evaluations += 1
            ctx.count("small_counts_checked")
            ctx.saw(xml)
            wrong = [P10.message(x.tag, len(x.kids)) for x in visible(t) if wrong_count(x)]
            if wrong and not (o.error == "InvalidNumberOfChildrenError" and o[2] in wrong):
                ctx.violate("a wrong number of children is not reported as it should be", xml=xml, expected=" | ".join(wrong), got=o.show())
            elif not wrong and not o.ok:
                ctx.violate("an admissible number of children is reported as wrong", xml=xml, got=o.show(), expected="LaTeX")
            if ctx.full():
                return

    @staticmethod
    def message(tag, n):
        if tag == "mmultiscripts":
            return "mmultiscripts tag must have at least 3 children. It's actually %d" % n
        if tag == "maction":
            return "maction tag must have at least 1 children. It's actually 0"
        return "%s tag must have exactly %d children. It's actually %d" % (tag, FIXED_ARITY[tag], n)


def wrong_count(n):
    w = FIXED_ARITY.get(n.tag)
    if w is not None:
        return len(n.kids) != w
    if n.tag == "mmultiscripts":
        return len(n.kids) < 3
    return n.tag == "maction" and not n.kids and attr(n, "actiontype") not in ("", "toggle")


def visible(t):
    """elements whose LaTeX is part of the result"""
    stack = [t]
    while stack:
        n = stack.pop()
        yield n
        if n.tag in ("mphantom", "annotation", "annotation-xml", "mi", "mo", "mn", "mtext"):
            continue
        if n.tag == "mmultiscripts":
            seen = False
            for k in n.kids[1:]:
                if k.tag == "mprescripts" and not seen:
                    seen = True
                    continue
                stack.append(k)
            if n.kids:
                stack.append(n.kids[0])
            continue
        if n.tag == "maction" and attr(n, "actiontype") not in ("", "toggle"):
            stack.extend(n.kids[:1])
            continue
        stack.extend(n.kids)


def visible_spot(t, r, bad):
    """replaces a random visible element, or appends to a visible row"""
    spots = [n for n in visible(t) if n.kids and n.tag not in ("mi", "mo", "mn", "mtext", "mphantom", "annotation", "annotation-xml")]
    r.shuffle(spots)
    for n in spots:
        idx = [0] if n.tag == "maction" and attr(n, "actiontype") not in ("", "toggle") else list(range(len(n.kids)))
        idx = [i for i in idx if n.kids[i].tag != "mprescripts" and not any(wrong_count(x) for x in n.kids[i].walk())]
        if not idx:
            continue
        n.kids[r.choice(idx)] = bad
        return n
    return None


# ---------------------------------------------------------------- P11
FOREIGN = ["m", "w", "o", "math", "mathml", "xlink", "xmml", "mmlx", "MML", "mml2", "mm", "svg", "x.y", "_"]


def foreign(r, t, name):
    """the name with a prefix of another vocabulary, which the root declares"""
    p = r.choice(FOREIGN)
    t.attrs["xmlns:" + p] = "urn:" + p
    return p + ":" + name


class P11:
    pid = "P11"
    rule = ("random documents converted as they are and with random elements wrapped (1 to 8 levels) in neutral elements or given unused "
            "attributes; the two outputs must be equal. Non-trivial: at least one wrapper or attribute was added.")
    assumptions = [A_PUBLIC]
    need = {"wrappers_added": 2000, "attributes_added": 2000, "pairs_compared": 1000, "foreign_names": 1000, "names_of_the_library": 5000}

    @staticmethod
    def variant(t, r, how, ctx):
        t2 = t.clone()
        parents = [(n, i) for n in t2.walk() for i in range(len(n.kids))
                   if n.kids[i].tag not in ("mprescripts", "mtr", "mtd", "mlabeledtr")]
        if how in ("wrap", "both") and parents:
            chosen = r.sample(parents, min(len(parents), r.choice([1, 1, 2, 4, 30])))
            for n, i in chosen:
                for _ in range(r.choice([1, 1, 1, 2, 3, 8])):
                    tag = r.choice(["mrow", "mstyle", "mpadded", "semantics", "unknown", "foo", "mrow"])
                    if r.random() < 0.15:
                        tag = r.choice(NAMES) if NAMES else "foo"
                        if tag in NOT_TRANSPARENT or tag in ("maction", "math", "mprescripts", "mtr", "mtd", "mlabeledtr") or ":" in tag:
                            tag = "foo"
                    elif r.random() < 0.12:
                        tag = foreign(r, t2, r.choice(sorted(NOT_TRANSPARENT) + ["maction", "math", "mrow", "mprescripts", "foo"]))
                        ctx.count("foreign_names")
                    n.kids[i] = N(tag, [n.kids[i]])
                    ctx.count("wrappers_added")
        if how in ("attr", "both"):
            for n in r.sample(list(t2.walk()), 1 if r.random() < 0.5 else min(6, t2.size())):
                for _ in range(r.choice([1, 1, 2, 5, 12])):
                    p = r.random()
                    if p < 0.2:
                        k, v = r.choice(IRRELEVANT)
                    elif p < 0.6:
                        k, v = unused_attribute(r)
                    elif p < 0.8:
                        k, v = r.choice(["open", "close", "separators", "notation", "mathvariant", "bevelled", "actiontype"]), \
                            r.choice(["(", "true", "box", "bold", ";", "toggle", "tooltip", "x"])
                    else:
                        k, v = (r.choice(NAMES) if NAMES else "x"), (r.choice(WORDS) if WORDS else "y")
                    if r.random() < 0.12 and ":" not in k and NAME.match(k):
                        k = foreign(r, t2, k if r.random() < 0.4 else r.choice(MEANINGFUL.get(n.tag) or ["open", "notation", "mathvariant", "bevelled", "actiontype"]))
                        v = r.choice([v, "bold", "box", "true", "tooltip", "|", "[", ""])
                        ctx.count("foreign_names")
                    if k in MEANINGFUL.get(n.tag, ()) or k.startswith("xmlns") or k in n.attrs:
                        continue
                    n.attrs[k] = v
                    ctx.count("attributes_added")
        return t2

    @staticmethod
    def shard(ctx):
        r = ctx.rng
        g = Gen(r, focus={"wrap": 0.5, "stray": 0.3})
        for _ in range(ctx.n(16000, 200000)):
            t = g.formula()
            if r.random() < 0.15:
                t = N(r.choice(["div", "p", "doc"]), [t] + [g.formula(r.choice([0, 1, 2])) for _ in range(r.choice([1, 1, 2, 4]))])
                ctx.count("documents_of_several_formulas")
            how = r.choice(["wrap", "wrap", "attr", "both"])
            t2 = P11.variant(t, r, how, ctx)
            a, b = sut.convert(plain(t)), sut.convert(plain(t2))
            ctx.evaluations += 2
            ctx.count("pairs_compared")
            ctx.saw(plain(t2))
            if ctx.shard == 0 and t2.size() < 15:
                ctx.sample(plain=plain(t), dressed=plain(t2), latex=a.show())
            if tuple(a) != tuple(b):
                P11.explain(ctx, t, t2, a, b)
            if ctx.full():
                return
        # every neutral thing, alone, on every element
        tok = lambda: toks(r, 1)[0]  # noqa: E731
        fams = sorted(wide(tok))
        for i, f in enumerate(fams):
            if i % ctx.shards != ctx.shard:
                continue
            for size in (1, 2, 3):
                t = wide(tok)[f](size)
                base = sut.convert(plain(t))
                for tag in ["mrow", "mstyle", "mpadded", "semantics", "foo", "mrow2", "MROW", "a", "m", "m:mrow", "m:mphantom", "x:mi", "w:annotation", "o:mfrac"] + \
                        [x for x in NAMES if x not in NOT_TRANSPARENT and x not in ("maction", "math", "mprescripts", "mtr", "mtd", "mlabeledtr")]:
                    t2 = N("math", [N(tag, [k]) for k in t.kids], attrs={"xmlns:" + tag.split(":")[0]: "urn:x"} if ":" in tag else {})
                    b = sut.convert(plain(t2))
                    ctx.evaluations += 1
                    ctx.count("wrapper_name_grid")
                    if tuple(b) != tuple(base):
                        ctx.violate("wrapping changed the result", xml=plain(t2), without=plain(t), expected=base.show(), got=b.show())
                        if ctx.full():
                            return
        # elements and attributes named like the things of the library and of other vocabularies
        fill = [[], [N("mi", text="x")], [N("mi", text="x"), N("mn", text="2")], [N("mi", text="x"), N("mo", text="+"), N("mn", text="12")]]
        for i, w in enumerate(identifiers()):
            if i % ctx.shards != ctx.shard:
                continue
            pairs = []
            if w not in NOT_TRANSPARENT and w not in ("maction", "math", "mprescripts"):
                for kids in fill:
                    for place in (lambda n: n, lambda n: N("msup", [n, N("mn", text="2")])):
                        pairs.append([N("math", [place(N(tag, [k.clone() for k in kids]))]) for tag in ("mrow", w)])
                pairs.append([N("math", [N(tag, text="abc")]) for tag in ("mrow", w)])
            for tag in ("mi", "mtext", "mfenced", "menclose", "mtable", "mfrac", "msup", "maction", "math", "mrow", "mmultiscripts"):
                if w in MEANINGFUL.get(tag, ()):
                    continue
                leaf = tag in ("mi", "mtext")
                a = N(tag, [] if leaf else [N("mi", text="x"), N("mi", text="y")] + ([N("mi", text="z")] if tag == "mmultiscripts" else []), "ab" if leaf else "")
                b = a.clone()
                b.attrs[w] = "zz"
                pairs.append([a, b] if tag == "math" else [N("math", [a]), N("math", [b])])
            for a, b in pairs:
                x, y = sut.convert(plain(a)), sut.convert(plain(b))
                ctx.evaluations += 2
                ctx.count("names_of_the_library")
                if tuple(x) != tuple(y):
                    ctx.violate("a neutral wrapper or attribute changed the result", xml=plain(b), without=plain(a), expected=x.show(), got=y.show())
                    if ctx.full():
                        return

    @staticmethod
    def explain(ctx, t, t2, a, b):
        ctx.violate("a neutral wrapper or attribute changed the result", xml=plain(t2), without=plain(t), expected=a.show(), got=b.show())


# ---------------------------------------------------------------- P12
SAFE = {"mrow", "math", "msqrt", "menclose", "merror", "mstyle", "mpadded", "unknown", "mtd", "mtr", "mtable", "mfenced", "semantics"}


class P12:
    pid = "P12"
    rule = ("a context with a hole, converted with a marker in the hole and with a random sub-expression in it; the second output must be the "
            "first with the marker replaced by the LaTeX of the sub-expression converted alone (white space aside). Non-trivial: every "
            "distinct pair of context and sub-expression with a context of at least 3 elements.")
    assumptions = [A_PUBLIC, "holes are not in places where the enclosing element by definition looks at its argument"]
    need = {"substitutions_compared": 2000, "neighbours_compared": 20000}
    # contexts of two holes, none of which looks at what stands in it
    PAIRS = {
        "math": lambda a, b: [a, b], "mrow": lambda a, b: [N("mrow", [a, b])], "three": lambda a, b: [N("mrow", [a, b, a.clone()])],
        "unknown": lambda a, b: [N("mstyle", [a, b])], "msqrt": lambda a, b: [N("msqrt", [a, b])], "merror": lambda a, b: [N("merror", [a, b])],
        "menclose": lambda a, b: [N("menclose", [a, b], attrs={"notation": "box"})], "mfenced": lambda a, b: [N("mfenced", [a, b], attrs={"open": "[", "separators": ";"})],
        "mfrac": lambda a, b: [N("mfrac", [a, b])], "subsup": lambda a, b: [N("msubsup", [N("mi", text="x"), a, b])],
        "underover": lambda a, b: [N("munderover", [N("mi", text="x"), a, b])], "scripts": lambda a, b: [N("mmultiscripts", [N("mi", text="x"), a, b])],
        "prescripts": lambda a, b: [N("mmultiscripts", [N("mi", text="x"), N("mprescripts"), a, b])],
        "toggle": lambda a, b: [N("maction", [a, b])], "sup sup": lambda a, b: [N("msup", [N("mi", text="x"), a]), N("msub", [N("mi", text="y"), b])],
        "cells": lambda a, b: [N("mfenced", [N("mtable", [N("mtr", [N("mtd", [a]), N("mtd", [b])])])])],
        "rows": lambda a, b: [N("mfenced", [N("mtable", [N("mtr", [N("mtd", [a])]), N("mtr", [N("mtd", [b])])])])],
        "apart": lambda a, b: [N("mrow", [a]), N("mrow", [b])], "deeper": lambda a, b: [a, N("mfrac", [b, N("mn", text="1")])],
        "fenced alone": lambda a, b: [a, N("mfenced", [b]), N("mo", text="=")],
    }

    @staticmethod
    def pool(r):
        out = [N("mn", text=t) for t in ("1", "2", "12", "3.5", ".", "%")]
        out += [N("mi", text=t) for t in ("x", "d", "dx", "f", "sin", "lim", "log", "mod", "e", "\u03b1", "\u0394", "\u221e", "", "'", "\u2032", "R", "\u0416")]
        out += [N("mo", text=t) for t in ("+", "-", "=", ",", ".", "(", ")", "|", "||", "!", "{", "}", "\u2061", "\u2062", "\u2063", "\u2211", "\u222b", "\u2192", "\u2032", "/", "^", "_", ":", "<", ">", "\\", "&", "...", "d")]
        out += [N("mtext", text=t) for t in ("if", " ", "a b", "\u03b1", "")] + [N("mspace"), N("mrow"), N("none")]
        x, y = N("mi", text="x"), N("mn", text="2")
        out += [N("mrow", [x, y]), N("mfrac", [x, y]), N("msup", [x, y]), N("msub", [x, y]), N("msqrt", [x]), N("mfenced", [x]), N("mfenced", [x, y], attrs={"open": "|", "close": "|"}),
                N("mover", [x, N("mo", text="^")]), N("munder", [x, y]), N("msubsup", [x, y, y]), N("merror", [x]), N("menclose", [x]), N("maction", [x, y]),
                N("mphantom", [x]), N("semantics", [x, N("annotation", text="q")]), N("mi", text="x", attrs={"mathvariant": "bold"}), N("mroot", [x, y]),
                N("mmultiscripts", [x, y, y]), N("mtext", text="a", attrs={"mathvariant": "bold"})]
        from .harvest import NEW_WORDS
        out += [N(k, text=w) for w in r.sample(NEW_WORDS, min(15, len(NEW_WORDS))) for k in ("mi", "mo", "mn")]
        return out

    @staticmethod
    def neighbours(ctx):
        """all pairs out of a pool side by side: neither may change the other"""
        r = ctx.rng
        pool = P12.pool(r)
        alone = [sut.convert(plain(N("math", [n]))) for n in pool]
        m1, m2 = N("mi", text="Q1q"), N("mi", text="Q2q")
        forms = {k: sut.convert(plain(N("math", f(m1, m2)))) for k, f in P12.PAIRS.items()}
        names = sorted(P12.PAIRS)
        for i in range(len(pool)):
            if i % ctx.shards != ctx.shard:
                continue
            for j in range(len(pool)):
                for k in (names if not ctx.quick else ["math", "mrow"] + r.sample(names, 6)):
                    if not (forms[k].ok and alone[i].ok and alone[j].ok):
                        continue
                    xml = plain(N("math", P12.PAIRS[k](pool[i], pool[j])))
                    got = sut.convert(xml)
                    ctx.evaluations += 1
                    ctx.count("neighbours_compared")
                    want = forms[k].text.replace("Q1q", " %s " % alone[i].text).replace("Q2q", " %s " % alone[j].text)
                    if not got.ok or tokens_of(want) != tokens_of(got.text):
                        ctx.violate("a sub-expression converts differently beside another", xml=xml, expected=" ".join(want.split()), got=got.show())
                        if ctx.full():
                            return

    @staticmethod
    def safe_leaves(t):
        out = []
        stack = [(t, None, -1)]
        while stack:
            n, par, i = stack.pop()
            if par is not None and not n.kids and n.tag in ("mi", "mo", "mn", "mtext"):
                out.append((par, i))
            for j, k in enumerate(n.kids):
                if n.tag in SCRIPTS and j == 0:
                    continue
                if n.tag == "mfrac" and attr(n, "bevelled") == "true":
                    continue
                if n.tag in ("mover", "munder") and j == 1:
                    continue
                if n.tag == "mroot" and j == 1:
                    continue
                if n.tag in ("mi", "mo", "mn", "mtext", "mphantom", "annotation", "annotation-xml"):
                    continue
                if n.tag == "maction" and j and attr(n, "actiontype") not in ("", "toggle"):
                    continue
                if n.tag == "mmultiscripts" and k.tag == "mprescripts":
                    continue
                stack.append((k, n, j))
        return out

    @staticmethod
    def shard(ctx):
        r = ctx.rng
        g = Gen(r, focus={"stray": 0.2})
        sub = Gen(r, only={"mrow", "mfrac", "msqrt", "mroot", "msup", "msub", "msubsup", "munderover", "mover", "munder", "mmultiscripts",
                           "mfenced", "menclose", "merror", "maction", "wrap"})
        P12.neighbours(ctx)
        if ctx.full():
            return
        for _ in range(ctx.n(12000, 160000)):
            t = g.formula()
            for n in t.walk():       # letters as separators or delimiters would fuse with commands
                for a in ("separators", "open", "close"):
                    if any(c.isalnum() or c == "\\" for c in n.attrs.get(a, "")):
                        n.attrs.pop(a)
            spots = P12.safe_leaves(t)
            if not spots or not valid_arity(t):
                continue
            par, i = r.choice(spots)
            par.kids[i] = N("mi", text="Q1q")
            m = sut.convert(plain(t))
            x = sub.tree(r.randint(1, 3))
            for n in x.walk():
                if n.tag == "mfenced":
                    n.kids = [k for k in n.kids if not any(y.tag == "mtable" for y in k.walk())]
                for a in ("separators", "open", "close"):
                    if any(c.isalnum() or c == "\\" for c in n.attrs.get(a, "")):
                        n.attrs.pop(a)
            if any(y.tag == "mtable" for y in x.walk()) or not valid_arity(x) or x.tag == "mprescripts":
                continue
            alone = sut.convert(plain(N("math", [x])))
            par.kids[i] = x
            got = sut.convert(plain(t))
            ctx.evaluations += 3
            if not (m.ok and alone.ok and got.ok):
                if m.ok and alone.ok:
                    ctx.violate("a sub-expression converts alone but not in its place", xml=plain(t), alone=plain(x), got=got.show(), expected=alone.show())
                continue
            if m.text.count("Q1q") != 1:
                continue
            ctx.count("substitutions_compared")
            if t.size() >= 3:
                ctx.saw(plain(t))
            if ctx.shard == 0 and t.size() < 16:
                ctx.sample(document=plain(t), subexpression_alone=alone.text, result=got.text)
            want = m.text.replace("Q1q", " " + alone.text + " ")
            if tokens_of(want) != tokens_of(got.text):
                ctx.violate("a sub-expression converts differently in its place", xml=plain(t), subexpression=plain(x),
                            expected=" ".join(want.split()), got=got.text)
            if ctx.full():
                return
