"""Runs in its own interpreter: brings the library in, in some way, converts a corpus and
writes the outcomes as ASCII JSON. argv: corpus file, output file, options (JSON):
  path     directories or archives to put in front of sys.path
  package  dotted name of the package
  first    modules to import before the entry point, in this order
  how      how the entry point is obtained and used"""
import importlib
import json
import os
import sys
import threading
from importlib.machinery import ModuleSpec

cfile, out, opts = sys.argv[1], sys.argv[2], json.loads(sys.argv[3])
with open(cfile, encoding="utf-8") as f:
    docs = json.load(f)
outfile = open(out, "w", encoding="ascii")
sys.dont_write_bytecode = not opts.get("bytecode")
PKG = opts["package"]
how = opts.get("how", "import")
if opts.get("cwd"):
    os.chdir(opts["cwd"])
if "user" in opts:
    os.setgid(opts["user"])
    os.setuid(opts["user"])
sys.path[0:0] = opts["path"]


def state():
    """what an import must leave alone"""
    import builtins
    import decimal
    import gc
    import locale
    import logging
    import random
    import signal
    import socket
    import warnings
    return {
        "sys.path": list(sys.path), "meta_path": [repr(x) for x in sys.meta_path], "path_hooks": len(sys.path_hooks), "recursion": sys.getrecursionlimit(),
        "switch": sys.getswitchinterval(), "hooks": [repr(sys.excepthook), repr(sys.unraisablehook), repr(sys.displayhook), repr(threading.excepthook)],
        "trace": [repr(sys.gettrace()), repr(sys.getprofile())], "streams": [id(sys.stdout), id(sys.stderr), id(sys.stdin)], "filters": repr(warnings.filters),
        "showwarning": repr(warnings.showwarning), "gc": [gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks)], "env": dict(os.environ), "cwd": os.getcwd(),
        "locale": locale.setlocale(locale.LC_ALL), "root logger": [logging.root.level, len(logging.root.handlers), logging.root.manager.disable], "builtins": sorted(dir(builtins)),
        "random": hash(random.getstate()), "signals": [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1, signal.SIGPIPE, signal.SIGCHLD)],
        "threads": threading.active_count(), "timeout": socket.getdefaulttimeout(), "decimal": repr(decimal.getcontext()), "dont_write": sys.dont_write_bytecode,
        "umask": mask(), "argv": list(sys.argv), "digits": sys.get_int_max_str_digits(), "intern": sys.getfilesystemencoding(), "fds": len(os.listdir("/proc/self/fd")),
    }


def mask():
    m = os.umask(0o22)
    os.umask(m)
    return m


class InMemory:
    """an importer that knows the sources only, as frozen applications have it: no files"""

    def __init__(self, sources):
        self.sources = sources      # name -> (source, is package)

    def find_spec(self, name, path=None, target=None):
        if name not in self.sources:
            return None
        return ModuleSpec(name, self, is_package=self.sources[name][1])

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        exec(compile(self.sources[module.__name__][0], "<frozen %s>" % module.__name__, "exec"), module.__dict__)


def sources(root):
    found = {}
    for d, _, files in os.walk(root):
        for f in files:
            if f.endswith(".py"):
                rel = os.path.relpath(os.path.join(d, f), os.path.dirname(root))[:-3].replace(os.sep, ".")
                package = rel.endswith(".__init__")
                with open(os.path.join(d, f), encoding="utf-8", newline="") as s:
                    found[rel[:-9] if package else rel] = (s.read(), package)
    return found


def run(convert):
    res = []
    for d in docs:
        try:
            res.append(["ok", convert(d)])
        except Exception as e:
            res.append(["err", type(e).__name__, str(e)])
    return res


def entry(package=PKG):
    return importlib.import_module(package + ".converter").MathMLToLaTeX


def main():
    changed = []
    if how == "state":
        before = state()
    for m in opts.get("first", []):
        importlib.import_module(m)
    if how == "state":
        entry()
        after = state()
        changed = [k for k in before if before[k] != after[k]]
        return run(entry().convert), changed
    if how == "memory":
        sys.meta_path.insert(0, InMemory(sources(opts["root"])))
        return run(entry().convert), changed
    if how == "from package":
        space = {}
        exec("from %s import MathMLToLaTeX\nx = MathMLToLaTeX" % PKG, space)
        if space["x"] is not entry():
            changed.append("the package and the module export different classes")
        return run(space["x"]().convert), changed
    if how == "star":
        space = {}
        exec("from %s.converter import *\nx = MathMLToLaTeX" % PKG, space)
        return run(space["x"].convert), changed
    if how == "purge":
        old = entry()
        first = run(old.convert)
        for m in [m for m in sys.modules if m == PKG or m.startswith(PKG + ".")]:
            del sys.modules[m]
        new = entry()
        if run(new.convert) != first:
            changed.append("after importing it anew")
        return run(old.convert), changed
    if how == "two":
        other = entry(opts["other"])
        this = entry()
        a, b = [], []
        for d in docs:
            for f, l in ((this, a), (other, b)):
                try:
                    l.append(["ok", f.convert(d)])
                except Exception as e:
                    l.append(["err", type(e).__name__, str(e)])
        if a != b:
            changed.append("two copies in one process")
        return a, changed
    if how == "threads":
        gate = threading.Barrier(len(opts["modules"]))
        bad = []

        def load(m):
            gate.wait()
            try:
                importlib.import_module(m)
            except Exception as e:
                bad.append("%s: %s: %s" % (m, type(e).__name__, e))
        sys.setswitchinterval(1e-6)
        ts = [threading.Thread(target=load, args=(m,)) for m in opts["modules"]]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        sys.setswitchinterval(0.005)
        return run(entry().convert), bad
    if how == "thread":
        box = []
        t = threading.Thread(target=lambda: box.append(run(entry().convert)))
        t.start()
        t.join()
        return box[0], changed
    if how == "leave":
        convert = entry().convert
        convert("<math><mi>x</mi></math>")
        del sys.path[:len(opts["path"])]
        os.chdir("/")
        return run(convert), changed
    if how == "subinterpreter":
        import _xxsubinterpreters as si
        r, w = os.pipe()
        code = ("import sys, os, json, importlib\nsys.dont_write_bytecode = True\nsys.path[0:0] = %r\n"
                "c = importlib.import_module(%r).MathMLToLaTeX.convert\nres = []\n"
                "for d in json.load(open(%r, encoding='utf-8')):\n    try:\n        res.append(['ok', c(d)])\n    except Exception as e:\n        res.append(['err', type(e).__name__, str(e)])\n"
                "with open(%r, 'w', encoding='ascii') as f:\n    json.dump(res, f)\n") % (opts["path"], PKG + ".converter", cfile, out + ".sub")
        i = si.create(isolated=False)
        si.run_string(i, code)
        si.destroy(i)
        with open(out + ".sub", encoding="ascii") as f:
            return json.load(f), changed
    return run(entry().convert), changed


try:
    outcomes, remarks = main()
    json.dump(dict(outcomes=outcomes, remarks=remarks), outfile)
except BaseException as e:
    import traceback
    json.dump(dict(failed="".join(traceback.format_exception(e))[-3000:]), outfile)
outfile.close()
