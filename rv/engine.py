"""Runs one property's monitors over its workload, in deterministic shards, and
reports: held (0), violated (1), or inconclusive (2)."""
import hashlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SHARDS = 8


class Hang(BaseException):
    pass


class Ctx:
    """What a shard sees: its random stream, its counters, its findings."""

    def __init__(self, pid, tier, seed, shard, shards):
        self.pid, self.tier, self.seed, self.shard, self.shards = pid, tier, seed, shard, shards
        self.rng = random.Random("%s/%d/%d" % (pid, seed, shard))
        self.evaluations = 0
        self.distinct = set()
        self.counts = {}
        self.samples = []
        self.violations = []
        self.known = []
        self.foreign = []
        self.lines = set()
        self.maxima = {}

    @property
    def quick(self):
        return self.tier == "quick"

    def n(self, quick, thorough):
        """per-shard number of cases"""
        total = quick if self.quick else thorough
        return max(1, total // self.shards)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def top(self, what, v):
        if v > self.maxima.get(what, -1):
            self.maxima[what] = v

    def saw(self, key):
        """a distinct, non-trivial case"""
        self.distinct.add(hashlib.blake2b(key.encode("utf-8", "surrogatepass"), digest_size=8).digest())

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append({k: (v if not isinstance(v, str) or len(v) < 400 else v[:400] + "...") for k, v in kw.items()})

    def violate(self, what, **witness):
        self.count("violations_seen")
        if len(self.violations) < 5:
            self.violations.append(dict(what=what, **witness))

    def full(self):
        return len(self.violations) >= 5


def _shard(args, box=None):
    fn, pid, tier, seed, shard, shards = args
    ctx = Ctx(pid, tier, seed, shard, shards)
    err = None
    try:
        import resource
        from . import sut
        if shards > 1:
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sut.guard()
        if box is not None:
            sut.blackbox(box)
        fn(ctx)
    except BaseException:
        err = traceback.format_exc()[-3000:]
    return dict(evaluations=ctx.evaluations, distinct=ctx.distinct, counts=ctx.counts, samples=ctx.samples,
                violations=ctx.violations, known=ctx.known, foreign=ctx.foreign, lines=ctx.lines, maxima=ctx.maxima, err=err)


def run(prop, tier, seed):
    t0 = time.time()
    shards = getattr(prop, "shards", SHARDS)
    jobs = [(prop.shard, prop.pid, tier, seed, i, shards) for i in range(shards)]
    limit = 800 if tier == "quick" else 3500
    results = []
    if shards == 1:
        results.append(_shard(jobs[0]))
    else:
        results = parallel(jobs, t0 + limit)
    return report(prop, tier, seed, results, time.time() - t0)


EMPTY = dict(evaluations=0, distinct=set(), counts={}, samples=[], violations=[], known=[], foreign=[], lines=set(), maxima={}, err=None)
GRACE = int(os.environ.get("RV_GRACE", "45"))      # seconds that the other shards get once one has found a violation


MAIN = mp.current_process()


def _child(job, conn, box):
    os.setpgid(0, 0)
    # to the code under test a shard is a program of its own, not a worker of one
    mp.process._parent_process = None
    mp.process._current_process = MAIN
    try:
        conn.send(_shard(job, box))
    finally:
        conn.close()


def parallel(jobs, deadline):
    """one process per shard; a shard that dies or hangs is told apart from one that ends"""
    import mmap
    from multiprocessing.connection import wait
    ctx = mp.get_context("fork")
    live, results = {}, []
    for j in jobs:
        a, b = ctx.Pipe(False)
        box = mmap.mmap(-1, 4 << 20)
        p = ctx.Process(target=_child, args=(j, b, box))
        p.start()
        b.close()
        live[a] = (p, box)
    try:
        while live:
            ready = wait(list(live), max(0.0, deadline - time.time()))
            for conn in ready:
                p, box = live.pop(conn)
                try:
                    results.append(conn.recv())
                except (EOFError, OSError):
                    p.join(20)
                    results.append(died(p.exitcode, box))
                if results[-1]["violations"]:
                    deadline = min(deadline, time.time() + GRACE)
            if not ready:
                broke = any(r["violations"] for r in results)
                results += [dict(EMPTY, err=None if broke else "watchdog: shard did not finish") for _ in live]
                break
    finally:
        for p, _ in live.values():
            for kill in (lambda: os.killpg(p.pid, signal.SIGKILL), p.kill):
                try:
                    kill()
                except (ProcessLookupError, PermissionError):
                    pass
    return results


CRASHES = {signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGILL, signal.SIGFPE}


def died(code, box):
    """a shard's process is gone: did a conversion take the interpreter down?"""
    from . import sut
    xml = sut.last(box)
    what = "shard died with exit status %s" % code
    if code is not None and -code in CRASHES and xml is not None:
        import subprocess
        prog = ("import sys; sys.dont_write_bytecode = True; sys.path.insert(0, %r); from rv import sut; "
                "sut.convert(sys.stdin.buffer.read().decode('utf-8', 'surrogatepass'))" % VERIF)
        r = subprocess.run([sys.executable, "-B", "-c", prog], input=xml.encode("utf-8", "surrogatepass"), capture_output=True, timeout=120)
        if r.returncode < 0 and -r.returncode in CRASHES:
            return dict(EMPTY, violations=[dict(what="a conversion takes the interpreter down", xml=xml, got="signal %d" % -r.returncode, expected="a result or an exception")])
    return dict(EMPTY, err=what)


def report(prop, tier, seed, results, wall):
    pid = prop.pid
    distinct, counts, samples, violations, known, foreign, errs, lines, maxima = set(), {}, [], [], [], [], [], set(), {}
    ev = 0
    for r in results:
        ev += r["evaluations"]
        distinct |= r["distinct"]
        lines |= r["lines"]
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in r["maxima"].items():
            maxima[k] = max(v, maxima.get(k, v))
        samples += r["samples"]
        violations += r["violations"]
        known += r["known"]
        foreign += r["foreign"]
        if r["err"]:
            errs.append(r["err"])
    need = getattr(prop, "need", {})
    missing = ["%s: %d observed, %d needed" % (k, counts.get(k, 0), v) for k, v in need.items() if counts.get(k, 0) < v]
    if not ev or not distinct:
        missing.append("nothing observed")
    cov = dict(evaluations=ev, distinct_nontrivial=len(distinct), rule=prop.rule, samples=samples[:6] or [{"none": True}],
               monitor_events=dict(sorted(counts.items())), maxima=maxima)
    if lines:
        from . import cover
        mine = cover.code_lines()
        cov["library_lines_driven"] = "%d of %d executable lines in functions" % (len(lines & mine), len(mine))
        cov["library_lines_not_driven"] = ["%s:%d" % x for x in sorted(mine - lines)][:60]
    if getattr(prop, "exhaustive", None) and prop.exhaustive(tier):
        cov["exhaustive"] = True
    if foreign:
        cov["disagreements_that_belong_to_other_properties"] = foreign[:5]
    evidence = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(wall, 3),
                    assumptions=prop.assumptions, violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True, default=str)
        f.write("\n")
    for k in sorted(set(known)):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if violations:
        seen = set()
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for v in violations:
            key = json.dumps(v, sort_keys=True, default=str)
            h = hashlib.sha1(key.encode()).hexdigest()[:10]
            if v["what"] in seen and len(seen) >= 1 and len([1 for x in seen if x == v["what"]]) > 3:
                continue
            seen.add(v["what"])
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, h))
            with open(path, "w") as f:
                json.dump(dict(property=pid, seed=seed, tier=tier, **v), f, indent=1, default=str)
                f.write("\n")
            print("VIOLATION property=%s replay=%s" % (pid, path))
            for k, x in v.items():
                print("    %s: %s" % (k, ascii(x) if not isinstance(x, str) else ascii(x)[1:-1][:1500]))
        return 1
    if errs:
        sys.stderr.write("INCONCLUSIVE property=%s harness error\n%s\n" % (pid, "\n".join(errs[:3])))
        return 2
    if missing:
        sys.stderr.write("INCONCLUSIVE property=%s %s\n" % (pid, "; ".join(missing)))
        return 2
    print("HELD property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs" % (pid, tier, seed, ev, len(distinct), wall))
    return 0


# ---- a budget of work, counted in executed lines of Python, never in seconds
class TooMuchWork(BaseException):
    pass


def with_budget(fn, budget):
    """Runs fn() and counts the Python lines and calls it executes anywhere; aborts
    past the budget. Returns (result, work), or raises TooMuchWork."""
    mon = sys.monitoring
    tool = 4
    work = [0]

    def line(code, no):
        work[0] += 1
        if work[0] > budget:
            mon.set_events(tool, 0)
            raise TooMuchWork()
    mon.use_tool_id(tool, "rv-budget")
    try:
        mon.register_callback(tool, mon.events.LINE, line)
        mon.register_callback(tool, mon.events.PY_START, line)
        mon.set_events(tool, mon.events.LINE | mon.events.PY_START)
        try:
            r = fn()
        finally:
            mon.set_events(tool, 0)
    finally:
        mon.register_callback(tool, mon.events.LINE, None)
        mon.register_callback(tool, mon.events.PY_START, None)
        mon.free_tool_id(tool)
    return r, work[0]
