"""Runs in its own interpreter, under some configuration: converts a corpus and
prints the outcomes as ASCII JSON. argv: corpus file, output file, options."""
import gc
import json
import os
import sys
import threading


class Str(str):
    pass


class Terminal:
    encoding = "ascii"
    errors = "strict"
    name = "<terminal>"

    def __init__(self, tty):
        self.tty = tty

    def isatty(self):
        return self.tty

    def write(self, text):
        return len(text)

    def flush(self):
        pass

    def fileno(self):
        return 2


def surroundings(opts):
    if opts.get("streams"):
        import pty
        if opts["streams"] == "terminal":
            a, b = pty.openpty()
            for fd in (0, 1, 2):
                os.dup2(b, fd)
        sys.stdin = sys.stdout = sys.stderr = Terminal(opts["streams"] == "terminal")
    if opts.get("interactive"):
        import builtins
        sys.ps1, sys.ps2 = ">>> ", "... "
        builtins._ = None
        sys.displayhook = lambda x: None
        main = sys.modules["__main__"]
        if hasattr(main, "__file__"):
            del main.__file__
    if opts.get("processors"):
        os.sched_setaffinity(0, set(sorted(os.sched_getaffinity(0))[:opts["processors"]]))
        os.cpu_count = lambda: opts["processors"]
    if opts.get("modules"):
        import types
        for name in opts["modules"]:
            if name not in sys.modules:
                sys.modules[name] = types.ModuleType(name)
    if opts.get("limits"):
        import resource
        os.nice(5)
        os.umask(0o777)
        resource.setrlimit(resource.RLIMIT_NOFILE, (32, 32))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        sys.setswitchinterval(1e-4)
    if opts.get("names"):
        threading.current_thread().name = "worker-7"
        import socket
        socket.gethostname = lambda: "ci"
        os.getpid = lambda: 1
        os.getlogin = lambda: "ci"
        import getpass
        getpass.getuser = lambda: "ci"
        import platform
        platform.system = lambda: "Windows"
        platform.node = lambda: "ci"
        platform.machine = lambda: "arm64"
        platform.python_implementation = lambda: "PyPy"
    if opts.get("settings"):
        sys.excepthook = sys.displayhook = lambda *a: None
        sys.tracebacklimit = 0
        sys.setswitchinterval(0.5)
        sys.set_int_max_str_digits(0)
        sys.path_importer_cache.clear()
        import socket
        socket.setdefaulttimeout(0.01)
        import logging
        logging.disable(logging.CRITICAL)
        logging.raiseExceptions = False
        import locale
        locale.getpreferredencoding = lambda *a: "latin-1"


def below(n, f):
    return f() if n <= 0 else below(n - 1, f)


def outcome(doc):
    from mathml_to_latex.converter import MathMLToLaTeX
    try:
        return ["ok", MathMLToLaTeX.convert(doc)]
    except Exception as e:
        return ["err", type(e).__name__, str(e)]


def main():
    corpus, out, opts = sys.argv[1], sys.argv[2], json.loads(sys.argv[3])
    sys.dont_write_bytecode = True
    repo = opts["repo"]
    with open(corpus, encoding="utf-8") as f:
        docs = json.load(f)
    outfile = open(out, "w", encoding="ascii")
    if "user" in opts:
        os.setgid(opts["user"])
        os.setuid(opts["user"])
    sys.path[0:0] = [repo] if opts.get("import") == "src" else [os.path.join(repo, "src")]
    if opts.get("gc") == "off":
        gc.disable()
    elif opts.get("gc") == "often":
        gc.set_threshold(1, 1, 1)
    elif opts.get("gc") == "freeze":
        gc.freeze()
    if "recursion" in opts:
        sys.setrecursionlimit(opts["recursion"])
    if "digits" in opts:
        sys.set_int_max_str_digits(opts["digits"])
    if "argv" in opts:
        sys.argv = ["prog"] + opts["argv"]
    if "locale" in opts:
        import locale
        try:
            locale.setlocale(locale.LC_ALL, opts["locale"])
        except locale.Error:
            pass
    if opts.get("warnings") == "error":
        import warnings
        warnings.simplefilter("error")
    if "clock" in opts:
        import time
        real = time.time()
        for name in ("time", "monotonic", "perf_counter"):
            setattr(time, name, lambda: opts["clock"] + real % 1)
        for name in ("time_ns", "monotonic_ns", "perf_counter_ns"):
            setattr(time, name, lambda: opts["clock"] * 10 ** 9)
        lt, gt = time.localtime, time.gmtime
        time.localtime = lambda s=None: lt(opts["clock"] if s is None else s)
        time.gmtime = lambda s=None: gt(opts["clock"] if s is None else s)
    if "random" in opts:
        import random
        random.seed(opts["random"])
    if opts.get("decimal"):
        import decimal
        decimal.getcontext().prec = 2
        decimal.getcontext().rounding = decimal.ROUND_UP
    if opts.get("import") == "src":
        from src.mathml_to_latex.converter import MathMLToLaTeX
    else:
        from mathml_to_latex.converter import MathMLToLaTeX
    if opts.get("closed"):
        sys.stdout = sys.stderr = sys.stdin = None
        if opts["closed"] == "fd":
            for fd in (0, 1, 2):
                os.close(fd)
    surroundings(opts)
    if opts.get("trace"):
        def tracer(frame, event, arg):
            return tracer
        sys.settrace(tracer)
        threading.settrace(tracer)
    if opts.get("profile"):
        sys.setprofile(lambda *a: None)
    if opts.get("strsub"):
        docs = [Str(d) for d in docs]
    order = list(range(len(docs)))
    if opts.get("order") == "reverse":
        order.reverse()
    elif opts.get("order") == "shuffle":
        import random
        random.Random(7).shuffle(order)
    res = [None] * len(docs)

    class Sub(MathMLToLaTeX):
        pass
    one = MathMLToLaTeX()
    how = opts.get("call")
    if how == "pickle":
        import pickle
        call = pickle.loads(pickle.dumps(MathMLToLaTeX)).convert
    else:
        call = {"instance": lambda d: MathMLToLaTeX().convert(d), "one": one.convert, "subclass": Sub.convert}.get(how, MathMLToLaTeX.convert)

    def work():
        for n, i in enumerate(order):
            if opts.get("gc") == "collect" and n % 10 == 0:
                gc.collect()
            try:
                res[i] = ["ok", call(docs[i])]
            except Exception as e:
                res[i] = ["err", type(e).__name__, str(e)]

    if opts.get("worker") == "threads":
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(1, "pool") as ex:
            ex.submit(work).result()
    elif opts.get("worker"):
        import multiprocessing as mp
        with mp.get_context(opts["worker"]).Pool(1) as pool:
            res[:] = pool.map(outcome, docs)
    elif opts.get("thread"):
        t = threading.Thread(target=work)
        t.start()
        t.join()
    elif opts.get("loop"):
        import asyncio

        async def go():
            work()
        asyncio.run(go())
    elif "deepcall" in opts:
        below(opts["deepcall"], work)
    else:
        work()
    sys.settrace(None)
    sys.setprofile(None)
    json.dump(res, outfile)
    outfile.close()


if __name__ == "__main__":
    main()
