"""The differential monitor: every execution's output against the executable
specification; disagreements are shrunk and attributed by what is left."""
import random

from . import cover, sut
from .gen import Gen, shrink
from .harvest import NEW_SIZES, SIZES
from .model import Arity, expect
from .node import N, Spelling, plain


def expected(roots):
    try:
        return ("ok", expect(roots))
    except Arity as e:
        return ("err", "InvalidNumberOfChildrenError", e.message())


def disagrees(tree, xml=None):
    o = sut.convert(plain(tree) if xml is None else xml)
    return tuple(o) != expected([tree])


def judge(ctx, tree, xml, claims, what, got=None):
    """One monitored execution. Returns True when it agreed."""
    ctx.evaluations += 1
    o = sut.convert(xml) if got is None else got
    exp = expected([tree])
    if tuple(o) == exp:
        return True
    if o.error == "NoAnswer":
        if claims(tree):
            ctx.violate(what, xml=xml, expected=exp[1], got=o.show())
        return False
    small, sxml, so = tree, xml, o
    if disagrees(tree):
        small = shrink(tree, disagrees)
        sxml = plain(small)
        so = sut.convert(sxml)
    sexp = expected([small])
    if claims(small):
        ctx.violate(what, xml=sxml, expected=sexp[1] if sexp[0] == "ok" else sexp[2], got=so.show(),
                    original_xml=xml if len(xml) < 3000 else xml[:3000] + "...")
    else:
        ctx.count("disagreements_of_other_properties")
        if len(ctx.foreign) < 3:
            ctx.foreign.append({"xml": sxml[:500], "expected": str(sexp[-1])[:300], "got": so.show()[:300]})
    return False


def mutate(rng, tree, g):
    t = tree.clone()
    nodes = list(t.walk())
    for _ in range(rng.choice([1, 1, 2, 3])):
        n = rng.choice(nodes)
        p = rng.random()
        if p < 0.25 and n.kids:
            n.kids[rng.randrange(len(n.kids))] = g.tree(rng.randint(0, 3))
        elif p < 0.4 and n.kids:
            i = rng.randrange(len(n.kids))
            n.kids[i] = N(rng.choice(["mrow", "mstyle", "msqrt", "mpadded", "mtd"]), [n.kids[i]])
        elif p < 0.5 and n.tag in ("mrow", "mfenced", "msqrt", "mtr", "mtable", "math", "menclose"):
            n.kids.insert(rng.randint(0, len(n.kids)), g.tree(rng.randint(0, 2)))
            n.text = "" if n.kids else n.text
        elif p < 0.6 and n.tag in ("mrow", "mfenced", "msqrt", "mtr", "mtable", "math", "menclose") and len(n.kids) > 1:
            del n.kids[rng.randrange(len(n.kids))]
        elif p < 0.8 and not n.kids and n.tag in ("mi", "mo", "mn", "mtext"):
            n.text = g.text()
        elif n.attrs:
            k = rng.choice(sorted(n.attrs))
            from .gen import ACTIONS, FENCES, NOTATIONS, SEPS, VARIANTS
            pool = {"open": FENCES, "close": FENCES, "separators": SEPS, "notation": NOTATIONS, "mathvariant": VARIANTS,
                    "actiontype": ACTIONS, "bevelled": ["true", "false", ""]}.get(k)
            if pool:
                n.attrs[k] = g.value(pool)
    return t


def workload(ctx, focus, n, sized=None, gen_kw=None, interesting=None, claims=None, what="differs from the specification",
             spell=0.4, formula=None, key=None):
    """n random/mutated documents, coverage-guided, plus size boundaries."""
    g = Gen(ctx.rng, focus=focus, **(gen_kw or {}))
    cov = cover.Cover()
    cov.start()
    corpus = []
    interesting = interesting or (lambda t: True)
    claims = claims or interesting
    try:
        for i in range(n):
            if corpus and ctx.rng.random() < 0.35:
                t = mutate(ctx.rng, ctx.rng.choice(corpus), g)
            else:
                t = formula(g) if formula else g.formula()
            xml = Spelling(ctx.rng).element(t) if ctx.rng.random() < spell else plain(t)
            one(ctx, t, xml, interesting, claims, what)
            if cov.take_new() or ctx.rng.random() < 0.01:
                corpus.append(t)
                if len(corpus) > 400:
                    corpus.pop(ctx.rng.randrange(len(corpus)))
            if ctx.full():
                return
        if sized:
            cases = list(sized(ctx, g))
            for j, t in enumerate(cases):
                one(ctx, t, plain(t), interesting, claims, what)
                ctx.count("size_boundary_cases")
                if ctx.full():
                    return
    finally:
        cov.stop()
        ctx.lines |= cov.lines()
        ctx.count("coverage_points", len(cov.seen))


def one(ctx, t, xml, interesting, claims, what):
    sz = t.size()
    ctx.top("elements_in_one_document", sz)
    ctx.count("elements_converted", sz)
    if interesting(t):
        ctx.count("relevant_documents")
        ctx.saw(xml)
        if ctx.shard == 0 and 6 < sz < 25:
            ctx.sample(xml=xml, latex=sut.convert(xml).show())
    return judge(ctx, t, xml, claims, what)


def sizes(ctx, limit=300, keep=None):
    """This shard's share of the size boundaries."""
    out = sorted({s for s in SIZES if s <= limit} | {s for s in NEW_SIZES if limit >= 300})
    return [s for i, s in enumerate(out) if i % ctx.shards == ctx.shard]


def toks(rng, n):
    pool = ["x", "y", "z", "1", "2", "ab", "\u03b1", "+"]
    out = []
    for _ in range(n):
        t = rng.choice(pool)
        out.append(N("mn" if t in "12" else "mo" if t == "+" else "mi", text=t))
    return out
