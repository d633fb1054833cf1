"""P27 - P33: histories, schedules, configurations, side effects, work, depth,
memory."""
import gc
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

from . import corpus, shapes, sut
from .diff import expected, toks
from .gen import Gen
from .harvest import SIZES, WORDS
from .node import N, Spelling, plain
from .pristine import Pristine, in_child
from .schedule import Baton, preempt_at, random_walk, round_robin

A_PUBLIC = "only the public conversion entry point is observed"
A_FRESH = "the reference for a document is the answer of a process that has never converted anything before"


def show(o):
    return o[1] if o[0] == "ok" else "%s: %s" % (o[1], o[2])


# ---------------------------------------------------------------- P27
class P27:
    pid = "P27"
    rule = ("long histories of conversions in one process: random orders, bursts, every ordered pair of a set of representative documents, near-duplicates in a "
            "row, failures of every kind (malformed, wrong counts, beyond the recursion limit) before good documents, class and instances; every outcome is compared with "
            "that of a fresh process. Non-trivial: a document converted after at least one other.")
    assumptions = [A_PUBLIC, A_FRESH]
    need = {"conversions_in_histories": 80000, "ordered_pairs": 8000, "failures_in_histories": 5000, "recursion_failures": 60}

    @staticmethod
    def shard(ctx):
        r = ctx.rng
        ref = Pristine()
        docs = corpus.mixed(r, 1200 if ctx.quick else 4000)
        for x in r.sample(corpus.nested(r), 60) + corpus.combined(r, 100):
            docs.insert(r.randrange(len(docs)), x)
        rep = corpus.representative()
        deep = corpus.too_deep()
        history = []
        shared = sut.MathMLToLaTeX()
        calls = [sut.MathMLToLaTeX.convert, shared.convert, lambda x: sut.MathMLToLaTeX().convert(x)]

        def step(xml, how=None):
            want = ref.ask(xml)
            if how is None:
                got = sut.convert(xml)
            else:
                got = sut.outcome(lambda: how(xml))
            history.append(xml)
            ctx.evaluations += 1
            ctx.count("conversions_in_histories")
            if want[0] != "ok":
                ctx.count("failures_in_histories")
            if tuple(got) != tuple(want):
                if want[1] == "RecursionError" and tuple(got)[:2] == tuple(want)[:2]:
                    return
                ctx.violate("the outcome depends on what was converted before", xml=xml, expected=show(want), got=show(tuple(got)), position_in_history=len(history),
                            just_before=[h[:300] for h in history[-5:-1]], shortest_history_found=P27.explain(ref, history, xml, want))
        # every ordered pair of representative documents
        k = 0
        for i, a in enumerate(rep):
            for j, b in enumerate(rep):
                if (i * len(rep) + j) % ctx.shards == ctx.shard:
                    step(a)
                    step(b)
                    ctx.count("ordered_pairs")
                    if ctx.full():
                        return ref.close()
        for i, x in enumerate(corpus.large()):
            if i % ctx.shards == ctx.shard:
                for y in [x, rep[0], x] + r.sample(rep, 3) + r.sample(docs, 5) + [x]:
                    step(y)
                ctx.count("large_documents")
                if ctx.full():
                    return ref.close()
        target = ctx.n(120000, 4000000)
        while k < target:
            p = r.random()
            if p < 0.03:
                ctx.count("recursion_failures")
                for _ in range(r.choice([1, 1, 3])):
                    step(r.choice(deep))
                seq = r.sample(rep, 30)
            elif p < 0.2:
                seq = [r.choice(docs)] * r.choice([2, 5, 20, 70])
                seq += r.sample(docs, 10)
            elif p < 0.45:
                i = r.randrange(len(docs))
                seq = docs[i:i + r.choice([5, 10, 30])]
                if r.random() < 0.5:
                    seq = seq[::-1]
                seq = seq * r.choice([1, 2])
            elif p < 0.6:
                x = r.choice(docs)
                bad = [corpus.broken(r, x) for _ in range(r.choice([1, 2, 6, 12]))]
                seq = bad + [x] + bad[-1:] + [x] + corpus.relatives(r, x)
            elif p < 0.8:
                a, b = r.choice(docs), r.choice(docs)
                seq = [a, b] * r.choice([1, 3]) + [b, a]
            else:
                seq = [r.choice(docs) for _ in range(40)]
            how = r.choice(calls) if r.random() < 0.3 else None
            for x in seq:
                step(x, how)
                k += 1
                if ctx.full():
                    return ref.close()
            if len(history) > 400000:
                del history[:200000]
        for x in ref.known:
            ctx.saw(x)
        ctx.count("fresh_processes_asked", ref.asked)
        ctx.top("conversions_in_one_process", len(history))
        if ctx.shard == 0:
            ctx.sample(history=[h[:200] for h in history[-4:]], outcomes=[show(ref.ask(h))[:200] for h in history[-4:]])
        ref.close()

    @staticmethod
    def explain(ref, history, xml, want):
        """a short history that still shows it, searched in fresh processes"""
        def bad(h):
            return tuple(ref.after(h + [xml])) != tuple(want)
        try:
            before = history[:-1]
            for h in reversed(list(dict.fromkeys(before[-150:]))):
                if bad([h]):
                    return [h[:1500]]
            for n in (2, 5, 20, 100, 1000, 10000):
                if bad(before[-n:]):
                    h = before[-n:]
                    size = max(1, len(h) // 2)
                    tries = 0
                    while size >= 1 and tries < 60:
                        i = 0
                        while i < len(h) and tries < 60:
                            c = h[:i] + h[i + size:]
                            tries += 1
                            if bad(c):
                                h = c
                            else:
                                i += size
                        size //= 2
                    return ["%d documents" % len(h)] + [x[:300] for x in h[:8]]
        except Exception as e:
            return ["search failed: %r" % (e,)]
        return ["not reproduced in a short history"]


# ---------------------------------------------------------------- P28
class P28:
    pid = "P28"
    rule = ("2 to 4 threads convert different documents under controlled interleavings (the turn changes only at lines, calls and, in part of the runs, single "
            "instructions of the library: every single preemption point of small documents, random walks, round robin), both in processes that have never converted "
            "and in warm ones, and 8 threads run freely with a tiny switch interval; every outcome is compared with that of a fresh process, and all must finish. "
            "Non-trivial: an interleaving with at least one switch inside the library.")
    assumptions = [A_PUBLIC, A_FRESH, "switches happen between instructions of the library's own Python code"]
    need = {"interleavings": 1500, "switches": 20000, "cold_starts": 100, "free_running_conversions": 3000, "preemption_points": 1000}

    @staticmethod
    def shard(ctx):
        r = ctx.rng
        ref = Pristine()
        docs = [d for d in corpus.mixed(r, 700, big=False) if len(d) < 1500]
        rep = corpus.representative()
        small = [d for d in rep if len(d) < 400]
        end = time.time() + (100 if ctx.quick else 900)
        rounds = ctx.n(400, 12000)
        for i in range(rounds):
            if time.time() > end:
                break
            p = i % 8
            if p < 3:
                job = P28.plan_cold(r, docs, rep)
            elif p < 5:
                job = P28.plan_preempt(r, small, docs)
            else:
                job = P28.plan_warm(r, docs, rep)
            ok, res = in_child(lambda: P28.play(job), 240)
            if not ok:
                ctx.violate("threads converting at the same time do not finish", documents=[x[:300] for row in job["docs"] for x in row][:8], reason=str(res))
                break
            P28.judge(ctx, ref, job, res)
            if ctx.full():
                break
        if not ctx.full():
            P28.free_run(ctx, r, ref, docs, rep)
        ref.close()

    @staticmethod
    def plan_cold(r, docs, rep):
        n = r.choice([2, 2, 2, 3, 4])
        same = r.random() < 0.4
        first = r.choice(rep if r.random() < 0.7 else docs)
        rows = [[first if same else r.choice(rep if r.random() < 0.7 else docs)] + [r.choice(rep)] for _ in range(n)]
        return dict(kind="cold", docs=rows, plans=[P28.strategy(r, n)], fine=r.random() < 0.3, shared=r.random() < 0.4)

    @staticmethod
    def plan_warm(r, docs, rep):
        n = r.choice([2, 2, 3, 4])
        rows = [[r.choice(docs if r.random() < 0.5 else rep) for _ in range(r.choice([1, 2, 4]))] for _ in range(n)]
        if r.random() < 0.3:
            rows = [rows[0]] * n
        return dict(kind="warm", docs=rows, plans=[P28.strategy(r, n) for _ in range(6)], fine=r.random() < 0.15, shared=r.random() < 0.5)

    @staticmethod
    def plan_preempt(r, small, docs):
        a = r.choice(small if r.random() < 0.8 else docs)
        b = r.choice(small)
        if r.random() < 0.3:
            rel = corpus.relatives(r, a)
            b = r.choice(rel) if rel else b
        return dict(kind="preempt", docs=[[a], [b]], plans=[("every", r.randrange(12))], fine=False, shared=r.random() < 0.5)

    @staticmethod
    def strategy(r, n):
        p = r.random()
        if p < 0.65:
            return ("random", r.randrange(1 << 30), r.choice([0.01, 0.03, 0.1, 0.3, 0.6, 1.0]))
        if p < 0.9:
            return ("robin", r.choice([1, 2, 3, 5, 8, 13, 40]))
        return ("at", [r.randrange(1, 400) for _ in range(r.choice([1, 2, 4]))])

    @staticmethod
    def play(job):
        """in a child process: runs the schedules, returns outcomes and statistics"""
        shared = sut.MathMLToLaTeX()

        def call(x):
            if job["shared"]:
                return lambda: shared.convert(x)
            return lambda: sut.MathMLToLaTeX.convert(x)
        out = []

        def one(strategy):
            rows = [[call(x) for x in row] for row in job["docs"]]
            b = Baton(rows, strategy, fine=job["fine"])
            done = b.go()
            out.append(dict(done=done, results=[list(map(tuple, x)) if x else None for x in b.results], switches=len(b.switches),
                            trace=str(b.switches[:2000]), steps=b.steps, free=b.free))
            return b
        for plan in job["plans"]:
            n = len(job["docs"])
            if plan[0] == "random":
                one(random_walk(random.Random(plan[1]), plan[2]))
            elif plan[0] == "robin":
                one(round_robin(plan[1], n))
            elif plan[0] == "at":
                one(preempt_at(sorted(plan[1]), [(i + 1) % n for i in range(len(plan[1]))]))
            else:
                # every single preemption of thread 0 by a complete run of thread 1
                alone = one(preempt_at([], []))
                total = max(1, alone.steps // 2 + 20)
                stride = max(1, total // 60)
                for k in range(1 + plan[1] % stride, total, stride):
                    b = one(preempt_at([k], [1]))
                    if not out[-1]["done"] or b.free:
                        break
            if not out[-1]["done"]:
                break
        return out

    @staticmethod
    def judge(ctx, ref, job, res):
        if job["kind"] == "cold":
            ctx.count("cold_starts")
        for run in res:
            ctx.evaluations += 1
            ctx.count("interleavings")
            ctx.count("switches", run["switches"])
            ctx.count("steps_scheduled", run["steps"])
            if job["kind"] == "preempt":
                ctx.count("preemption_points", run["switches"] > 0)
            if run["free"]:
                ctx.count("runs_released_because_a_thread_blocked")
            if run["switches"]:
                ctx.saw(json.dumps(job["docs"]) + run["trace"])
            if not run["done"]:
                ctx.violate("threads converting at the same time block one another for good", documents=[x[:300] for row in job["docs"] for x in row][:8],
                            switches=run["trace"][:300])
                return
            for t, row in enumerate(job["docs"]):
                for x, got in zip(row, run["results"][t] or []):
                    want = ref.ask(x)
                    if got != tuple(want):
                        ctx.violate("an outcome depends on other threads", xml=x, expected=show(want), got=show(got), thread=t, kind=job["kind"],
                                    other_threads=[y[:300] for u, rr in enumerate(job["docs"]) if u != t for y in rr][:6], switches=run["trace"][:300])
                        return
        if ctx.shard == 0:
            ctx.sample(kind=job["kind"], documents=[x[:120] for row in job["docs"] for x in row][:3], switches=res[-1]["trace"][:120])

    @staticmethod
    def free_run(ctx, r, ref, docs, rep):
        pool = rep + docs[:300]
        want = {x: tuple(ref.ask(x)) for x in pool}
        seeds = [r.randrange(1 << 30) for _ in range(8)]
        secs = 4 if ctx.quick else 60

        def work():
            sys.setswitchinterval(1e-6)
            bad, done = [], [0] * 8
            stop = time.time() + secs
            gate = threading.Barrier(8)

            def run(i):
                rr = random.Random(seeds[i])
                gate.wait()
                while time.time() < stop and not bad:
                    x = rr.choice(pool)
                    got = sut.outcome(lambda: sut.MathMLToLaTeX.convert(x))
                    done[i] += 1
                    if got != want[x]:
                        bad.append((x, got))
            ts = [threading.Thread(target=run, args=(i,), daemon=True) for i in range(8)]
            for t in ts:
                t.start()
            for t in ts:
                t.join(secs + 60)
            return bad[:1], sum(done), any(t.is_alive() for t in ts)
        ok, res = in_child(work, secs + 120)
        if not ok or res[2]:
            ctx.violate("threads converting freely do not finish", reason=str(res)[:300])
            return
        bad, done, _ = res
        ctx.count("free_running_conversions", done)
        ctx.evaluations += done
        for x, got in bad:
            ctx.violate("an outcome depends on other threads", xml=x, expected=show(want[x]), got=show(got), kind="free running")


# ---------------------------------------------------------------- P29
def env_words():
    """environment variables named like the words of the library's source"""
    out = {}
    for w in WORDS:
        if re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]{2,40}", w):
            out[w.upper()] = "1"
    for w in ("DEBUG", "TEST", "CI", "STRICT", "VERBOSE", "MATHML_DEBUG", "MATHML_STRICT", "LATEX", "TEXINPUTS"):
        out[w] = "1"
    for w in ("PATH", "HOME", "LANG", "TZ", "LC_ALL"):
        out.pop(w, None)
    return {k: v for k, v in out.items() if not k.startswith(("PYTHON", "LD_", "MALLOC"))}


def configurations():
    c = []

    def add(name, flags=(), env=None, cwd=None, **opts):
        c.append(dict(name=name, flags=list(flags), env=env or {}, cwd=cwd, opts=opts))
    for h in ("0", "1", "2", "3", "42", "1000", "77777", "random", "random", "random"):
        add("hash seed " + h, env={"PYTHONHASHSEED": h})
    add("-O", ["-O"])
    add("-OO", ["-OO"])
    add("-OO hash 5", ["-OO"], env={"PYTHONHASHSEED": "5"})
    add("-B -s", ["-B", "-s"])
    add("-I", ["-I"])
    add("-E -S", ["-E", "-S"])
    add("-X utf8", ["-X", "utf8"])
    add("-X utf8=0, C", ["-X", "utf8=0"], env={"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0"})
    add("POSIX locale", env={"LC_ALL": "POSIX", "LANG": "POSIX"})
    add("C.UTF-8 locale", env={"LC_ALL": "C.UTF-8"}, locale="C.UTF-8")
    add("setlocale ''", env={"LC_ALL": "C.utf8"}, locale="")
    add("latin1 io", env={"PYTHONIOENCODING": "latin-1"})
    add("ascii io", env={"PYTHONIOENCODING": "ascii:strict", "LC_ALL": "C", "PYTHONUTF8": "0"})
    add("cwd /", cwd="/")
    add("cwd temp", cwd="temp")
    add("-W error", ["-W", "error"])
    add("-W error -X dev", ["-W", "error", "-X", "dev"])
    add("-bb", ["-bb"])
    add("warnings error", warnings="error")
    add("gc off", gc="off")
    add("gc often", gc="often")
    add("gc freeze", gc="freeze")
    add("gc collect", gc="collect")
    add("recursion 500", recursion=500)
    add("recursion 800", recursion=800)
    add("recursion 3000", recursion=3000)
    add("recursion 20000", recursion=20000)
    add("deep caller 300", deepcall=300)
    add("deep caller 600", deepcall=600)
    add("thread", thread=True)
    add("thread, instance", thread=True, call="instance")
    add("instance", call="instance")
    add("one instance", call="one")
    add("package src", **{"import": "src"})
    add("no std streams", closed=True)
    add("closed std streams", closed="fd")
    add("reverse", order="reverse")
    add("shuffled", order="shuffle")
    add("time zone", env={"TZ": "Asia/Tokyo"})
    add("other time", clock=4102444800 + 86400 * 200)
    add("past time", clock=86400 * 3)
    add("random state", random=12345)
    add("environment words", env=env_words())
    add("usual variables", env={"COLUMNS": "1", "LINES": "1", "TERM": "dumb", "NO_COLOR": "1", "LANGUAGE": "de", "USER": "x", "LOGNAME": "x", "TMPDIR": "/nonexistent", "HOME": "/nonexistent"})
    add("usual variables, others", env={"COLUMNS": "20", "LINES": "5", "TERM": "xterm-256color", "FORCE_COLOR": "1", "LANGUAGE": "tr_TR:tr", "USER": "root", "EDITOR": "vi", "PAGER": "less",
                                        "SHELL": "/bin/false", "DISPLAY": ":0", "http_proxy": "http://127.0.0.1:9", "SOURCE_DATE_EPOCH": "0", "PYTEST_CURRENT_TEST": "x", "GITHUB_ACTIONS": "true"})
    add("empty environment", env=None, cleanenv=True)
    add("user nobody", user=65534)
    add("digits", digits=640)
    add("decimal context", decimal=True)
    add("subclass", call="subclass")
    add("str subclass", strsub=True)
    add("trace function", trace=True)
    add("profile function", profile=True)
    add("asyncio", loop=True)
    add("pickled class", call="pickle")
    add("terminal", streams="terminal")
    add("file objects as streams", streams="other")
    add("interactive", interactive=True)
    add("one processor", processors=1)
    add("worker process, forked", worker="fork")
    add("worker process, spawned", worker="spawn")
    add("pool of threads", worker="threads")
    add("tools loaded", modules=["pytest", "_pytest", "unittest.mock", "IPython", "ipykernel", "pydevd", "coverage", "doctest", "google.colab", "sphinx",
                                 "django", "flask", "gevent"])
    add("limits and priority", limits=True)
    add("names of another program", names=True)
    add("settings of sys", settings=True)
    add("argv", argv=["--debug", "-v", "x.xml"])
    return c


class P29:
    pid = "P29"
    rule = ("a corpus with every element, failure and spelling is converted in separate interpreters under about 75 configurations (hash seeds, -O, -OO, -I, -E, -S, -bb, dev "
            "mode, UTF-8 modes, locales, io encodings, directories, warning filters, collector settings, recursion limits and callers deep in the stack, threads, "
            "instances, subclasses, import paths, closed streams, orders, time zones, clocks, environment variables, users, tracing); outcomes must be equal. "
            "Non-trivial: every document that converts.")
    assumptions = [A_PUBLIC, "the configurations are those CPython 3.12 offers on this machine; only the C locales are installed"]
    need = {"configurations": 50, "outcomes_compared": 15000}

    @staticmethod
    def shard(ctx):
        r = random.Random("P29/%d" % ctx.seed)
        docs = corpus.mixed(r, 2000 if ctx.quick else 4000)
        docs += corpus.nested(r) + corpus.combined(r, 800)
        base = [tuple(sut.convert(d)) for d in docs]
        tmp = tempfile.mkdtemp(prefix="rv-p29-")
        try:
            cpath = os.path.join(tmp, "corpus.json")
            with open(cpath, "w", encoding="utf-8") as f:
                json.dump(docs, f)
            os.chmod(tmp, 0o755)
            for i, c in enumerate(configurations()):
                if i % ctx.shards != ctx.shard:
                    continue
                P29.config(ctx, c, docs, base, tmp, cpath)
                if ctx.full():
                    return
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    @staticmethod
    def config(ctx, c, docs, base, tmp, cpath):
        out = os.path.join(tmp, "out-%d.json" % ctx.counts.get("configurations", 0))
        env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG"))}
        if c["opts"].get("cleanenv"):
            env = {}
        env.update(c["env"])
        cwd = {None: None, "temp": tmp}.get(c["cwd"], c["cwd"])
        opts = dict(c["opts"], repo=sut.REPO)
        with open(out, "w"):
            pass
        os.chmod(out, 0o666)
        worker = os.path.join(os.path.dirname(os.path.abspath(__file__)), "worker.py")
        cmd = [sys.executable] + c["flags"] + (["-B"] if "-B" not in c["flags"] else []) + [worker, cpath, out, json.dumps(opts)]
        if c["opts"].get("user"):
            wcopy = os.path.join(tmp, "worker.py")
            shutil.copy(worker, wcopy)
            os.chmod(wcopy, 0o644)
            cmd[cmd.index(worker)] = wcopy
        p = subprocess.run(cmd, env=env, cwd=cwd, capture_output=True, timeout=400)
        try:
            with open(out, encoding="ascii") as f:
                got = [tuple(x) for x in json.load(f)]
        except ValueError:
            err = p.stderr.decode("utf-8", "replace")
            if sut.PKG_DIR in err:
                ctx.violate("the library does not work under a configuration", configuration=c["name"], got=err[-1500:], expected="the same outcomes as by default")
                return
            if c["opts"].get("user") and ("Permission" in err or "setuid" in err or "Operation not permitted" in err):
                ctx.count("configurations_not_available")
                return
            raise RuntimeError("worker failed under %s: %s" % (c["name"], err[-2000:]))
        ctx.count("configurations")
        for d, want, have in zip(docs, base, got):
            ctx.evaluations += 1
            ctx.count("outcomes_compared")
            if want[0] == "ok":
                ctx.saw(d)
            if want != have:
                if "RecursionError" in (want[1], have[1]) and P29.deep(d):
                    ctx.count("capacity_differs_for_deep_documents")
                    continue
                ctx.violate("the outcome depends on the environment", xml=d, configuration=c["name"], expected=show(want), got=show(have))
                if ctx.full():
                    return
        if ctx.shard == 0:
            ctx.sample(configuration=c["name"], documents=len(docs))

    @staticmethod
    def deep(xml):
        d = best = 0
        for m in re.finditer(r"<(/?)[A-Za-z][^<>]*?(/?)>", xml):
            d += -1 if m.group(1) else 0 if m.group(2) else 1
            best = max(best, d)
        return best > 25
