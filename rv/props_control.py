"""P34 - P37: conversions that are interrupted, conversions within conversions,
outcomes that are handed on, and processes that fork."""
import asyncio
import copy
import gc
import json
import os
import pickle
import random
import shutil
import signal
import subprocess
import sys
import tempfile

from . import corpus, sut
from .gen import Gen
from .node import N, plain
from .pristine import Pristine, _recv, _send, in_child

A_PUBLIC = "only the public conversion entry point is observed"
A_FRESH = "the reference is what a process answers that has never converted anything"
mon = sys.monitoring
TOOL = 3
ROOT = os.path.realpath(sut.PKG_DIR) + os.sep


PATIENCE = 90        # seconds, for what takes one


class Timeout(Exception):
    """what a signal handler raises to end a computation"""


class Stop(BaseException):
    """what a debugger or a supervisor raises"""


OUTSIDE = [KeyboardInterrupt, SystemExit, MemoryError, TimeoutError, Timeout, Stop, asyncio.CancelledError]


class Points:
    """Calls at(step) at every event of one conversion: the lines, calls and returns (with
    `fine` the instructions too) of the library's code, or (everywhere) of all Python code
    except the import system."""

    def __init__(self, at, everywhere=False, fine=False):
        self.at, self.everywhere = at, everywhere
        e = mon.events
        self.events = e.LINE | e.PY_START | e.PY_RETURN | (e.INSTRUCTION if fine else 0)
        self.steps = 0
        self.mine = {}
        self.where = None

    def wanted(self, code):
        f = code.co_filename
        m = self.mine.get(f)
        if m is None:
            if os.path.realpath(f).startswith(ROOT):
                m = True
            else:
                m = self.everywhere and not f.startswith("<") and "importlib" not in f and not f.startswith(os.path.dirname(os.path.abspath(__file__)))
            self.mine[f] = m
        return m

    def event(self, code, *where):
        if not self.wanted(code):
            return mon.DISABLE if not self.everywhere else None
        self.steps += 1
        self.where = (os.path.basename(code.co_filename), code.co_name)
        self.at(self.steps)

    def __enter__(self):
        mon.use_tool_id(TOOL, "rv-points")
        mon.restart_events()
        for ev in (mon.events.LINE, mon.events.PY_START, mon.events.PY_RETURN, mon.events.INSTRUCTION):
            mon.register_callback(TOOL, ev, self.event)
        mon.set_events(TOOL, self.events)
        return self

    def off(self):
        mon.set_events(TOOL, 0)

    def __exit__(self, *a):
        mon.set_events(TOOL, 0)
        mon.free_tool_id(TOOL)


def plain_outcome(xml):
    return sut.outcome(lambda: sut.MathMLToLaTeX.convert(xml))


def length(xml, everywhere, fine=False):
    with Points(lambda k: None, everywhere, fine) as p:
        plain_outcome(xml)
    return p.steps


def spread(r, n, want):
    """points from 1 to n"""
    if n <= want:
        return list(range(1, n + 1))
    step = n / want
    return sorted({min(n, max(1, int(step * (i + r.random())) + 1)) for i in range(want)})


def documents(ctx):
    r = ctx.rng
    rep = corpus.representative()
    docs = [d for d in corpus.mixed(r, 500, big=False) if len(d) < 1200]
    return rep, docs


SLICES = corpus.dictionary()


def show(o):
    return o[1] if o[0] == "ok" else "%s: %s" % (o[1], o[2])


# ---------------------------------------------------------------- P34
class P34:
    pid = "P34"
    rule = ("conversions are struck by an exception from outside (KeyboardInterrupt, SystemExit, MemoryError, TimeoutError, CancelledError, private ones) at chosen points: "
            "lines, calls, returns and in part instructions of the library's code and of the standard library under it, in processes that have never converted and in warm "
            "ones; and by signals at random times. The very exception must come out, and conversions afterwards must give the outcome of a fresh process. Non-trivial: a "
            "distinct pair of a document and a point.")
    assumptions = [A_PUBLIC, A_FRESH, "exceptions are raised between instructions of Python code, as signal handlers and asynchronous exceptions are"]
    need = {"interruptions": 8000, "interruptions_in_a_first_conversion": 300, "conversions_after_an_interruption": 8000, "interrupted_by_signals": 300, "kinds_of_exceptions": 7}

    @staticmethod
    def shard(ctx):
        r = ctx.rng
        ref = Pristine()
        rep, docs = documents(ctx)
        kinds = set()
        warm, cold = ctx.n(300, 9000), ctx.n(1000, 20000)
        for i in range(warm + cold):
            job = P34.plan(r, rep, docs, i >= warm)
            ok, res = in_child(lambda: P34.play(job), PATIENCE)
            ctx.evaluations += 1
            if not ok:
                ctx.violate("conversions do not come back after an interruption", reason=str(res), xml=job["xml"], exception=job["exception"].__name__)
                break
            P34.judge(ctx, ref, job, res, kinds)
            if ctx.full():
                break
        ctx.count("kinds_of_exceptions", len(kinds))
        if not ctx.full():
            P34.signals(ctx, r, ref, rep, docs)
        ref.close()

    @staticmethod
    def plan(r, rep, docs, cold):
        xml = r.choice(rep if r.random() < 0.6 else docs)
        p = r.random()
        after = [xml] + [r.choice(rep if r.random() < 0.6 else docs) for _ in range(2)]
        rel = corpus.relatives(r, xml)
        if rel:
            after.append(r.choice(rel))
        if cold:
            after.append(r.choice(SLICES))       # what is filled or made on first use must not stay half done
        return dict(xml=xml, after=after, exception=r.choice(OUTSIDE), cold=cold, everywhere=p > 0.4, fine=r.random() < 0.2, seed=r.randrange(1 << 30),
                    burst=r.choice([1, 1, 1, 3]), shared=r.random() < 0.3)

    @staticmethod
    def play(job):
        r = random.Random(job["seed"])
        out = []
        unraisable = []
        sys.unraisablehook = lambda a: unraisable.append(a.exc_value)
        shared = sut.MathMLToLaTeX()
        convert = shared.convert if job["shared"] else sut.MathMLToLaTeX.convert

        def strike(k):
            sent = job["exception"]("from outside")

            def at(step):
                if step == k and not p.struck:
                    p.struck = True
                    p.spot = p.where
                    p.off()
                    raise sent
            p = Points(at, job["everywhere"] and not job["cold"], job["fine"])
            p.struck, p.spot = False, None
            got = None
            with p:
                try:
                    got = ("ok", convert(job["xml"]))
                except BaseException as e:
                    got = ("same",) if e is sent else ("err", type(e).__name__, str(e)[:300])
            if any(x is sent for x in unraisable):
                got = ("dropped",)          # by Python itself: it was in a finaliser, of a generator say
            del unraisable[:]
            return p.struck, p.spot, got

        def afterwards():
            return [(x, plain_outcome(x)) for x in job["after"]]
        if job["cold"]:
            # the library is loaded, nothing has been converted in this process
            k = r.choice([1, 2, 3, 5, 8, r.randrange(1, 60), r.randrange(1, 300), r.randrange(1, 300), r.randrange(1, 1500), r.randrange(1, 8000)])
            s, spot, got = strike(k)
            if not s:       # beyond its end
                return [dict(k=k, struck=False, first=True, after=afterwards())]
            return [dict(k=k, struck=True, spot=spot, got=got, first=True, after=afterwards())]
        for x in corpus.representative()[::4]:
            plain_outcome(x)
        n = length(job["xml"], job["everywhere"], job["fine"])
        for i, k in enumerate(spread(r, n, 36)):
            s, spot, got = strike(k)
            if s:
                out.append(dict(k=k, struck=True, spot=spot, got=got, first=False, after=[] if i % job["burst"] else afterwards()))
        out.append(dict(k=0, struck=False, first=False, after=afterwards()))
        return out

    @staticmethod
    def judge(ctx, ref, job, res, kinds):
        for e in res:
            if e["struck"]:
                ctx.count("interruptions")
                ctx.evaluations += 1
                kinds.add(job["exception"].__name__)
                if e["first"]:
                    ctx.count("interruptions_in_a_first_conversion")
                ctx.saw("%s %d %s" % (job["xml"], e["k"], job["everywhere"]))
                if ctx.shard == 0:
                    ctx.sample(document=job["xml"], exception=job["exception"].__name__, point=e["k"], inside=e["spot"])
                if e["got"] == ("dropped",):
                    ctx.count("dropped_by_the_interpreter")
                elif e["got"] != ("same",):
                    what = "an exception from outside is swallowed" if e["got"][0] == "ok" else "an exception from outside is replaced by another one"
                    ctx.violate(what, xml=job["xml"], exception=job["exception"].__name__, point=e["k"], inside=str(e["spot"]), got=show(e["got"]))
            for x, o in e["after"]:
                ctx.count("conversions_after_an_interruption")
                want = ref.ask(x)
                if o != want:
                    ctx.violate("an interrupted conversion influences a later one", xml=x, interrupted=job["xml"], exception=job["exception"].__name__, point=e["k"],
                                inside=str(e.get("spot")), expected=show(want), got=show(o))
            if ctx.full():
                return

    @staticmethod
    def signals(ctx, r, ref, rep, docs):
        todo = [r.choice(rep if r.random() < 0.5 else docs) for _ in range(ctx.n(6000, 60000))]
        seed = r.randrange(1 << 30)

        def play():
            q = random.Random(seed)
            out = []
            state = dict(inside=False, sent=None)
            sys.unraisablehook = lambda a: None

            def handler(*_):
                if state["inside"]:
                    state["sent"] = Timeout("time is up")
                    raise state["sent"]
            signal.signal(signal.SIGALRM, handler)
            for x in todo:
                state["sent"] = None
                got = None
                try:
                    try:
                        signal.setitimer(signal.ITIMER_REAL, q.choice([2e-5, 5e-5, 1e-4, 2e-4, 4e-4, 1e-3]))
                        state["inside"] = True
                        got = plain_outcome_through(x)
                    finally:
                        state["inside"] = False
                        signal.setitimer(signal.ITIMER_REAL, 0)
                except Timeout:
                    got = ("struck",)
                out.append((state["sent"] is not None, got, x, plain_outcome(x)))
            return out
        ok, res = in_child(play, 3 * PATIENCE)
        if not ok:
            ctx.violate("conversions do not come back after an interruption by a signal", reason=str(res))
            return
        for sent, got, x, after in res:
            ctx.evaluations += 1
            want = ref.ask(x)
            if sent:
                ctx.count("interrupted_by_signals")
            if got[0] != "struck" and got != want:
                ctx.violate("a signal during a conversion changes its outcome", xml=x, expected=show(want), got=show(got))
            if after != want:
                ctx.violate("an interrupted conversion influences a later one", xml=x, interrupted=x, exception="Timeout (signal)", expected=show(want), got=show(after))
            if ctx.full():
                return


def plain_outcome_through(xml):
    """as plain_outcome, but what a signal handler raises passes"""
    try:
        return ("ok", sut.MathMLToLaTeX.convert(xml))
    except Timeout:
        raise
    except Exception as e:
        return ("err", type(e).__name__, str(e))


# ---------------------------------------------------------------- P35
class P35:
    pid = "P35"
    rule = ("while a conversion runs, at a chosen point (line, call, return, in part instruction, of the library's code or of the standard library under it) the same thread "
            "converts another document, or several, as a signal handler, a finaliser or a hook would; in processes that have never converted and in warm ones; "
            "and from the garbage collector and from signals at random times (those up to four conversions deep). All outcomes are compared with those of a fresh process, and all must finish. Non-trivial: a distinct "
            "triple of outer document, inner document and point.")
    assumptions = [A_PUBLIC, A_FRESH, "the inner conversion starts between instructions of Python code"]
    need = {"conversions_within_conversions": 6000, "within_a_first_conversion": 300, "within_by_the_collector": 200, "within_by_signals": 200}

    @staticmethod
    def shard(ctx):
        r = ctx.rng
        ref = Pristine()
        rep, docs = documents(ctx)
        warm, cold = ctx.n(300, 9000), ctx.n(1000, 20000)
        for i in range(warm + cold):
            job = P35.plan(r, rep, docs, i >= warm)
            ok, res = in_child(lambda: P35.play(job), PATIENCE)
            ctx.evaluations += 1
            if not ok:
                ctx.violate("a conversion within another one does not finish", reason=str(res), xml=job["outer"], within=str(job["inner"])[:1500])
                break
            P35.judge(ctx, ref, job, res)
            if ctx.full():
                break
        for how in ("collector", "signals"):
            if not ctx.violations:
                P35.free(ctx, r, ref, rep, docs, how)
        ref.close()

    @staticmethod
    def plan(r, rep, docs, cold):
        outer = r.choice(rep if r.random() < 0.5 else docs)
        p = r.random()
        pool = rep if r.random() < 0.6 else docs
        rel = corpus.relatives(r, outer)
        inner = [outer if p < 0.2 else r.choice(rel) if rel and p < 0.45 else r.choice(pool)]
        while r.random() < 0.25 and len(inner) < 3:
            inner.append(r.choice(pool))
        if cold and r.random() < 0.7:
            inner = [r.choice(SLICES)]
        q = r.random()
        return dict(outer=outer, inner=inner, cold=cold, everywhere=q > 0.4, fine=r.random() < 0.2, seed=r.randrange(1 << 30), shared=r.random() < 0.3)

    @staticmethod
    def play(job):
        r = random.Random(job["seed"])
        shared = sut.MathMLToLaTeX()
        convert = shared.convert if job["shared"] else sut.MathMLToLaTeX.convert

        def run(k):
            got = []

            def at(step):       # what runs here runs outside of the monitor's sight
                if step == k:
                    for x in job["inner"]:
                        got.append((1, x, sut.outcome(lambda: convert(x))))
            with Points(at, job["everywhere"] and not job["cold"], job["fine"]) as p:
                o = sut.outcome(lambda: convert(job["outer"]))
            got.append((0, job["outer"], o))
            return dict(point=k, inside=p.where, got=got)
        if job["cold"]:
            return [run(r.choice([1, 2, 3, 5, 8, r.randrange(1, 60), r.randrange(1, 60), r.randrange(1, 300), r.randrange(1, 300), r.randrange(1, 1500), r.randrange(1, 8000)]))]
        for x in corpus.representative()[::4]:
            plain_outcome(x)
        n = length(job["outer"], job["everywhere"], job["fine"])
        return [run(k) for k in spread(r, n, 36)]

    @staticmethod
    def judge(ctx, ref, job, res):
        for e in res:
            inner = [g for g in e["got"] if g[0]]
            if inner:
                ctx.count("conversions_within_conversions", len(inner))
                if job["cold"]:
                    ctx.count("within_a_first_conversion")
                ctx.saw("%s|%s|%s|%s" % (job["outer"], job["inner"], e["point"], job["everywhere"]))
                if ctx.shard == 0:
                    ctx.sample(outer=job["outer"], inner=str(job["inner"]), point=e["point"])
            for level, x, o in e["got"]:
                ctx.evaluations += 1
                want = ref.ask(x)
                if o != want:
                    ctx.violate("a conversion within another one changes an outcome", xml=x, which="inner" if level else "outer", outer=job["outer"], inner=str(job["inner"])[:1500], point=e["point"],
                                expected=show(want), got=show(o))
            if ctx.full():
                return

    @staticmethod
    def free(ctx, r, ref, rep, docs, how):
        todo = [r.choice(rep if r.random() < 0.5 else docs) for _ in range(ctx.n(4000, 40000))]
        seed = r.randrange(1 << 30)

        def play():
            q = random.Random(seed)
            out, within = [], []
            state = dict(inside=False, depth=0)
            for x in corpus.representative()[::4]:      # the parser imports modules when it is first used; a collection there would find them half made
                plain_outcome(x)
            top = 1 if how == "collector" else 3

            def convert_another(*_):
                if state["inside"] and state["depth"] < top:
                    state["depth"] += 1
                    x = q.choice(todo)
                    if top > 1:
                        signal.setitimer(signal.ITIMER_REAL, q.choice([5e-5, 1e-4, 2e-4]))
                    within.append((x, plain_outcome(x), state["depth"]))
                    state["depth"] -= 1
            if how == "collector":
                gc.callbacks.append(convert_another)
            else:
                signal.signal(signal.SIGALRM, convert_another)
            for x in todo:
                if how == "collector":
                    gc.set_threshold(q.choice([20, 60, 150, 400]), 5, 5)
                else:
                    signal.setitimer(signal.ITIMER_REAL, q.choice([2e-5, 5e-5, 1e-4, 2e-4, 4e-4]))
                state["inside"] = True
                o = plain_outcome(x)
                state["inside"] = False
                out.append((x, o, 0))
            signal.setitimer(signal.ITIMER_REAL, 0)
            return out, within
        ok, res = in_child(play, 3 * PATIENCE)
        if not ok:
            ctx.violate("a conversion within another one does not finish", by=how, reason=str(res))
            return
        ctx.count("within_by_the_collector" if how == "collector" else "within_by_signals", len(res[1]))
        for kind, rows in (("outer", res[0]), ("inner", res[1])):
            for x, o, depth in rows:
                if depth > 1:
                    ctx.count("within_two_levels_and_more")
                ctx.evaluations += 1
                want = ref.ask(x)
                if o != want:
                    ctx.violate("a conversion within another one changes an outcome", xml=x, by=how, which=kind, expected=show(want), got=show(o))
                    if ctx.full():
                        return


# ---------------------------------------------------------------- P36
def same_error(a, b):
    """is b, as far as a caller can see, the exception a?"""
    pub = lambda e: {k: v for k, v in vars(e).items() if not k.startswith("_")}
    if type(a) is not type(b):
        return "%s instead of %s" % (type(b).__name__, type(a).__name__)
    if str(a) != str(b):
        return "message %r" % str(b)
    if a.args != b.args:
        return "arguments %r" % (b.args,)
    if pub(a) != pub(b):
        return "attributes %r" % (pub(b),)
    return None


def ways():
    """name -> a way in which an object is handed on"""
    out = {"copy": copy.copy, "deepcopy": copy.deepcopy, "two trips": lambda e: pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(e)))),
           "within a list": lambda e: pickle.loads(pickle.dumps([e, e]))[1], "pure Python pickle": lambda e: pickle._loads(pickle._dumps(e))}
    for k in range(pickle.HIGHEST_PROTOCOL + 1):
        out["pickle %d" % k] = lambda e, k=k: pickle.loads(pickle.dumps(e, k))
    return out


class P36:
    pid = "P36"
    rule = ("every outcome (result or exception) of a corpus with all elements and failures is copied, deep-copied and pickled with all protocols, and the type, message, arguments "
            "and attributes compared; and batches are converted by worker processes (executors and pools, forked and spawned), threads and coroutines, with the function itself as the task, "
            "and what arrives is compared with what a direct call gives. Non-trivial: a distinct document.")
    assumptions = [A_PUBLIC, "pickle, copy, multiprocessing and concurrent.futures of the standard library"]
    need = {"exceptions_handed_on": 3000, "results_handed_on": 3000, "errors_about_children": 300, "converted_by_workers": 1500, "failures_from_workers": 200}

    @staticmethod
    def shard(ctx):
        r = ctx.rng
        g = Gen(r)
        rep = corpus.representative()
        failing = [d for d in rep if not sut.convert(d).ok]
        docs = corpus.mixed(r, ctx.n(20000, 200000), failures=0.4) + [plain(P36.wrong(r, g)) for _ in range(ctx.n(4000, 40000))] + corpus.too_deep()[:2]
        for xml in docs:
            P36.hand_on(ctx, xml)
            if ctx.full():
                return
        for how in ("executor", "pool", "spawned", "threads", "coroutines"):
            batch = [r.choice(docs) for _ in range(60)] + [r.choice(failing) for _ in range(20)]
            batch = [x for x in batch if len(x) < 4000]
            r.shuffle(batch)
            ok, res = in_child(lambda: P36.work(how, batch), PATIENCE)
            if not ok:
                ctx.violate("a batch of conversions by workers does not come to an end", by=how, reason=str(res), documents=[x[:200] for x in batch[:5]])
                return
            ctx.evaluations += len(batch)
            for x, o in zip(batch, res):
                want = tuple(sut.convert(x))
                ctx.count("converted_by_workers")
                if want[0] != "ok":
                    ctx.count("failures_from_workers")
                if o != want:
                    ctx.violate("what a worker converts does not arrive", by=how, xml=x, expected=show(want), got=show(o))
                    if ctx.full():
                        return

    @staticmethod
    def wrong(r, g):
        t = g.formula(2)
        tag = r.choice(["mfrac", "mroot", "msub", "msup", "mover", "munder", "msubsup", "munderover", "mmultiscripts", "maction"])
        t.kids.append(N(tag, [N("mi", text="x") for _ in range(r.choice([0, 0, 1, 4, 5]))], attrs={"actiontype": "tooltip"} if tag == "maction" else {}))
        return t

    @staticmethod
    def hand_on(ctx, xml):
        try:
            v = sut.MathMLToLaTeX.convert(xml)
        except Exception as e:
            v = e
        ctx.saw(xml)
        ctx.evaluations += 1
        if not isinstance(v, Exception):
            ctx.count("results_handed_on")
            if type(v) is not str or pickle.loads(pickle.dumps(v)) != v or copy.deepcopy(v) != v:
                ctx.violate("a result cannot be handed on", xml=xml, got=repr(type(v)))
            return
        ctx.count("exceptions_handed_on")
        if type(v).__name__ == "InvalidNumberOfChildrenError":
            ctx.count("errors_about_children")
        for name, way in ways().items():
            try:
                why = same_error(v, way(v))
            except Exception as e:
                why = "%s: %s" % (type(e).__name__, e)
            if why:
                ctx.violate("an exception cannot be handed on", way=name, xml=xml, expected="%s: %s" % (type(v).__name__, v), got=why)
                return

    @staticmethod
    def work(how, batch):
        import concurrent.futures as cf
        import multiprocessing as mp

        def end(f):
            try:
                return ("ok", f())
            except Exception as e:
                return ("err", type(e).__name__, str(e))
        if how in ("executor", "spawned", "threads"):
            if how == "threads":
                ex = cf.ThreadPoolExecutor(4)
            else:
                ex = cf.ProcessPoolExecutor(2, mp_context=mp.get_context("fork" if how == "executor" else "spawn"))
            with ex:
                return [end(f.result) for f in [ex.submit(sut.MathMLToLaTeX.convert, x) for x in batch]]
        if how == "pool":
            with mp.get_context("fork").Pool(2) as p:
                return [end(f.get) for f in [p.apply_async(sut.MathMLToLaTeX().convert, (x,)) for x in batch]]

        async def one(x):
            await asyncio.sleep(0)
            return await asyncio.to_thread(sut.MathMLToLaTeX.convert, x)

        async def everything():
            return await asyncio.gather(*[one(x) for x in batch], return_exceptions=True)
        return [("err", type(v).__name__, str(v)) if isinstance(v, BaseException) else ("ok", v) for v in asyncio.run(everything())]


# ---------------------------------------------------------------- P37
class P37:
    pid = "P37"
    rule = ("processes are forked at chosen points of a conversion, in the thread that converts (first conversions and later ones) and in another thread while four threads convert; the child "
            "finishes what it inherited and converts more documents, the parent goes on; all outcomes are compared with those of a fresh process, and all must finish. "
            "Non-trivial: a distinct document and point.")
    assumptions = [A_PUBLIC, A_FRESH, "forks within a conversion happen between instructions of Python code",
                   "forks beside other threads happen once the process has converted (its first conversion imports modules of the standard library, under locks that a fork inherits)"]
    need = {"forks_within_a_conversion": 1500, "forks_within_a_first_conversion": 300, "forks_beside_threads": 100, "conversions_in_forked_processes": 4000, "outcomes_compared_with_a_process_nobody_forked": 1000}

    @staticmethod
    def shard(ctx):
        r = ctx.rng
        ref = Pristine()
        rep, docs = documents(ctx)
        warm, cold = ctx.n(120, 3000), ctx.n(700, 12000)
        for i in range(warm + cold):
            xml = r.choice(rep if r.random() < 0.6 else docs)
            more = [xml] + [r.choice(rep if r.random() < 0.6 else docs) for _ in range(2)]
            if i >= warm:
                more.append(r.choice(SLICES))
            seed = r.randrange(1 << 30)
            ok, res = in_child(lambda: P37.within(xml, more, seed, i >= warm), PATIENCE)
            if not ok:
                ctx.violate("a process forked during a conversion does not come to an end", xml=xml, reason=str(res))
                break
            if P37.judge(ctx, ref, xml, res, i >= warm) or ctx.full():
                break
        for _ in range(ctx.n(16, 200)):
            if ctx.violations:
                break
            todo = [r.choice(rep if r.random() < 0.6 else docs) for _ in range(40)]
            seed = r.randrange(1 << 30)
            ok, res = in_child(lambda: P37.beside(todo, seed), PATIENCE)
            if not ok:
                ctx.violate("a process forked beside conversions does not come to an end", reason=str(res), documents=[x[:200] for x in todo[:4]])
                break
            for who, x, o in res:
                if who == "fork":
                    ctx.count("forks_beside_threads")
                    continue
                ctx.evaluations += 1
                if who == "child":
                    ctx.count("conversions_in_forked_processes")
                if o is None:
                    ctx.violate("a process forked beside conversions does not come to an end", document=x)
                elif o != ref.ask(x):
                    ctx.violate("an outcome depends on a fork", which=who, xml=x, expected=show(ref.ask(x)), got=show(o))
                if ctx.full():
                    break
        P37.unforked(ctx, ref.known)
        ref.close()

    @staticmethod
    def unforked(ctx, known):
        """what an interpreter that nobody forked answers"""
        docs = sorted(known)
        tmp = tempfile.mkdtemp(prefix="rv-p37-")
        try:
            cpath, out = os.path.join(tmp, "corpus.json"), os.path.join(tmp, "out.json")
            with open(cpath, "w", encoding="utf-8") as f:
                json.dump(docs, f)
            worker = os.path.join(os.path.dirname(os.path.abspath(__file__)), "worker.py")
            p = subprocess.run([sys.executable, "-B", worker, cpath, out, json.dumps({"repo": sut.REPO})], capture_output=True, timeout=300)
            try:
                with open(out, encoding="ascii") as f:
                    got = json.load(f)
            except (OSError, ValueError):
                raise RuntimeError("worker failed: %s" % p.stderr.decode("utf-8", "replace")[-2000:])
            for x, o in zip(docs, got):
                ctx.evaluations += 1
                ctx.count("outcomes_compared_with_a_process_nobody_forked")
                if tuple(o) != tuple(known[x]) and "RecursionError" not in (o[1], known[x][1]):
                    ctx.violate("an outcome depends on a fork", which="a forked process", xml=x, expected=show(tuple(o)), got=show(tuple(known[x])))
                    if ctx.full():
                        return
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    @staticmethod
    def judge(ctx, ref, xml, res, cold):
        for e in res:
            if e["forked"]:
                ctx.count("forks_within_a_conversion")
                if cold:
                    ctx.count("forks_within_a_first_conversion")
                ctx.saw("%s %d" % (xml, e["point"]))
                if ctx.shard == 0:
                    ctx.sample(document=xml, point=e["point"])
                if e["child"] is None:
                    ctx.violate("a process forked during a conversion does not come to an end", xml=xml, point=e["point"])
                    return True
            for who in ("parent", "child"):
                for x, o in e[who] or []:
                    ctx.evaluations += 1
                    if who == "child":
                        ctx.count("conversions_in_forked_processes")
                    if o != ref.ask(x):
                        ctx.violate("an outcome depends on a fork", which=who, xml=x, forked_in=xml, point=e["point"], expected=show(ref.ask(x)), got=show(o))
            if ctx.full():
                return

    @staticmethod
    def receive(rd, pid):
        import select
        ready, _, _ = select.select([rd], [], [], 25)
        try:
            return _recv(rd) if ready else None
        except EOFError:
            return None
        finally:
            os.close(rd)
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(pid, 0)

    @staticmethod
    def within(xml, more, seed, cold):
        r = random.Random(seed)
        out = []

        def run(k):
            rd, wr = os.pipe()
            pid = [None]

            def at(step):
                if step == k:
                    pid[0] = os.fork()
            with Points(at):
                o = plain_outcome(xml)
            if pid[0] == 0:
                try:
                    _send(wr, [(xml, o)] + [(x, plain_outcome(x)) for x in more])
                finally:
                    os._exit(0)
            os.close(wr)
            if pid[0] is None:
                os.close(rd)
                return dict(point=k, forked=False, parent=[(xml, o)], child=None)
            mine = [(xml, o)] + [(x, plain_outcome(x)) for x in more[1:]]
            return dict(point=k, forked=True, parent=mine, child=P37.receive(rd, pid[0]))
        if cold:
            return [run(r.choice([1, 2, 5, 8, r.randrange(1, 60), r.randrange(1, 60), r.randrange(1, 200), r.randrange(1, 600), r.randrange(1, 6000)]))]
        for x in corpus.representative()[::4]:
            plain_outcome(x)
        for k in spread(r, length(xml, False), 16):
            out.append(run(k))
            if out[-1]["forked"] and out[-1]["child"] is None:
                break
        return out

    @staticmethod
    def beside(todo, seed):
        import threading
        import warnings
        warnings.simplefilter("ignore")
        r = random.Random(seed)
        sys.setswitchinterval(r.choice([1e-6, 1e-5, 1e-4]))
        for x in corpus.representative()[::4]:      # the first conversion imports modules, and a fork inherits import locks
            plain_outcome(x)
        seen, stop = [], threading.Event()

        def convert(i):
            q = random.Random(seed + i)
            while not stop.is_set():
                x = q.choice(todo)
                seen.append(("thread", x, plain_outcome(x)))
        ts = [threading.Thread(target=convert, args=(i,), daemon=True) for i in range(4)]
        for t in ts:
            t.start()
        out = []
        import time
        for _ in range(12):
            time.sleep(r.random() * 0.004)
            rd, wr = os.pipe()
            some = [r.choice(todo) for _ in range(3)]
            pid = os.fork()
            if pid == 0:
                try:
                    _send(wr, [("child", x, plain_outcome(x)) for x in some])
                finally:
                    os._exit(0)
            os.close(wr)
            out.append(("fork", "", None))
            got = P37.receive(rd, pid)
            out += got if got is not None else [("child", str(some)[:1000], None)]
            if got is None:
                break
        stop.set()
        for t in ts:
            t.join(60)
        return out + seen[:400] + [("thread", "a thread that converts", None)] * any(t.is_alive() for t in ts)
