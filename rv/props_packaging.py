"""P39: the package, however it is installed and imported."""
import compileall
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import zipfile

from . import corpus, sut
from .props_system import show

A_PUBLIC = "only the public conversion entry point is observed"
NAME = "mathml_to_latex"


def modules(root):
    """dotted names of all modules of the package in root"""
    found = []
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x != "__pycache__")
        for f in sorted(files):
            if f.endswith(".py") and f != "__main__.py":
                rel = os.path.relpath(os.path.join(d, f), os.path.dirname(root))[:-3].replace(os.sep, ".")
                found.append(rel[:-9] if rel.endswith(".__init__") else rel)
    return found


class Forms:
    """copies of the package in a scratch directory, as it may reach a user"""

    def __init__(self, tmp):
        self.tmp = tmp
        self.src = os.path.join(tmp, "tree", NAME)
        shutil.copytree(sut.PKG_DIR, self.src, ignore=shutil.ignore_patterns("__pycache__"))

    def dir(self, *name):
        d = os.path.join(self.tmp, *name)
        os.makedirs(d, exist_ok=True)
        return d

    def build(self):
        """what the project's own build puts into a distribution"""
        work = os.path.join(self.tmp, "project")
        shutil.copytree(sut.REPO, work, ignore=shutil.ignore_patterns(".git", "__pycache__", "*.egg-info", "build", "dist", "tests"))
        out = self.dir("built")
        p = subprocess.run([sys.executable, "-B", "setup.py", "-q", "build_py", "--build-lib", out], cwd=work, capture_output=True, timeout=200)
        if p.returncode or not os.path.isdir(os.path.join(out, NAME)):
            if b"No module named 'setuptools'" not in p.stderr and b"Traceback" in p.stderr and b"mathml_to_latex" in p.stderr:
                return None
            self.by_hand(os.path.join(work, "src"), out)
        shutil.rmtree(work)
        return out

    @staticmethod
    def by_hand(src, out):
        """packages = find:, where = src - the packages are the directories with an __init__.py below such ones"""
        for d, dirs, files in os.walk(os.path.join(src, NAME)):
            if "__init__.py" not in files:
                dirs[:] = []
                continue
            to = os.path.join(out, os.path.relpath(d, src))
            os.makedirs(to, exist_ok=True)
            for f in files:
                if f.endswith(".py"):
                    shutil.copy(os.path.join(d, f), to)

    def put(self, *where, name=NAME, frm=None):
        d = self.dir(*where)
        shutil.copytree(frm or self.src, os.path.join(d, name))
        return d

    def archive(self, frm, file):
        z = os.path.join(self.tmp, file)
        with zipfile.ZipFile(z, "w", zipfile.ZIP_DEFLATED) as f:
            for d, _, files in os.walk(frm):
                for x in sorted(files):
                    f.write(os.path.join(d, x), os.path.relpath(os.path.join(d, x), frm))
        return z

    def compiled(self, frm, name, optimize=-1):
        d = self.dir(name)
        shutil.copytree(frm, d, dirs_exist_ok=True)
        compileall.compile_dir(d, quiet=2, legacy=True, optimize=optimize)
        for e, _, files in os.walk(d):
            for x in files:
                if x.endswith(".py"):
                    os.remove(os.path.join(e, x))
        return d


class P39:
    pid = "P39"
    rule = ("the package is put in place in many forms (as the project's own build makes it, zipped, as bytecode only, vendored into another package, renamed, under odd and read-only paths, "
            "without any files) and brought in in many manners (every module first, random import orders, by several threads at once, again after a purge, twice in one process, "
            "in a thread, in a subinterpreter), each in its own interpreter; the outcomes of a corpus with all elements, failures and the whole dictionary must be those of the "
            "source tree, and importing must change no setting of the process. Non-trivial: a distinct way of bringing it in.")
    assumptions = [A_PUBLIC, "the project's own build is setup.py build_py with the setuptools of this machine"]
    need = {"ways": 60, "outcomes_compared": 15000, "modules_imported_first": 8}

    @staticmethod
    def ways(ctx, tmp):
        """-> list of (name, options, interpreter flags, fn making the options); lazily made, each shard makes its own"""
        r = random.Random("P39/%d" % ctx.seed)
        mods = modules(sut.PKG_DIR)
        out = []

        def add(name, make, flags=("-I",), env=None):
            out.append((name, make, list(flags), env or {}))

        def tree(f, **kw):
            return dict(path=[os.path.join(f.tmp, "tree")], package=NAME, **kw)

        def built(f):
            b = f.build()
            if b is None:
                return dict(failed="the project does not build")
            return dict(path=[b], package=NAME)

        def wheel(f):
            return dict(path=[f.archive(f.build(), "mathml_to_latex-1-py3-none-any.whl")], package=NAME)

        def bytecode(f, **kw):
            return dict(path=[f.compiled(f.build(), "compiled", **kw)], package=NAME)

        def vendored(f, *where, init=True):
            d = f.put("app", *where)
            p = os.path.join(f.tmp, "app")
            if init:
                for w in where:
                    p = os.path.join(p, w)
                    open(os.path.join(p, "__init__.py"), "w").close()
            return dict(path=[os.path.join(f.tmp, "app")], package=".".join(where + (NAME,)))

        def readonly(f):
            d = f.put("read only")
            for e, dirs, files in os.walk(d):
                os.chmod(e, 0o555)
                for x in files:
                    os.chmod(os.path.join(e, x), 0o444)
            return dict(path=[d], package=NAME, user=65534, bytecode=True)

        def linked(f):
            d = f.dir("links")
            os.symlink(f.src, os.path.join(d, NAME))
            return dict(path=[d], package=NAME)

        def cached(f):
            d = f.put("cached")
            compileall.compile_dir(d, quiet=2)
            return dict(path=[d], package=NAME)

        def two(f):
            f.put("tree", name="copy_of_it")
            return tree(f, how="two", other="copy_of_it")

        def renamed(f):
            return dict(path=[f.put("renamed", name="m2l")], package="m2l")
        add("as built", built)
        add("as built, -OO", built, ["-I", "-OO"])
        add("zipped wheel", wheel)
        add("zipped tree", lambda f: dict(path=[f.archive(os.path.join(f.tmp, "tree"), "lib.zip")], package=NAME))
        add("within an archive", lambda f: dict(path=[os.path.join(f.archive(f.tmp, os.path.join("..", os.path.basename(f.tmp), "all.zip")), "tree")], package=NAME))
        add("bytecode only", bytecode)
        add("bytecode only, optimized", lambda f: bytecode(f, optimize=2))
        add("vendored", lambda f: vendored(f, "vendor"))
        add("vendored deep", lambda f: vendored(f, "my", "app", "third_party"))
        add("in a namespace", lambda f: vendored(f, "space", "lib", init=False))
        add("renamed", renamed)
        add("odd path", lambda f: dict(path=[f.put("a b%c \u00e9\u4e2d {x} 'q' #")], package=NAME))
        add("long path", lambda f: dict(path=[f.put(*["d" * 100] * 6)], package=NAME))
        add("read only, another user", readonly)
        add("linked", linked)
        add("cached bytecode", cached)
        add("no files", lambda f: dict(path=[], package=NAME, how="memory", root=f.src))
        add("relative path", lambda f: dict(path=["tree"], cwd=f.tmp, package=NAME))
        add("path removed after the first conversion", lambda f: tree(f, how="leave"))
        add("two copies", two)
        add("the settings of the process", lambda f: tree(f, how="state"))
        add("the settings of the process, whole package", lambda f: tree(f, how="state", first=mods))
        for m in mods:
            add("first " + m, lambda f, m=m: tree(f, first=[m]))
        for i in range(16 if ctx.quick else 200):
            order = r.sample(mods, len(mods))[:r.choice([2, 3, 5, len(mods)])]
            add("order " + " ".join(order), lambda f, order=order: tree(f, first=order))
        for h in ("from package", "star", "purge", "thread", "subinterpreter"):
            add(h, lambda f, h=h: tree(f, how=h))
        # all by the same door: threads that import different modules of one package deadlock in CPython's import system
        for i in range(12 if ctx.quick else 150):
            door = [NAME + ".converter", NAME, r.choice(mods)][i % 3]
            add("%s, by threads %d" % (door, i), lambda f, door=door, n=r.choice([2, 4, 8, 16]): tree(f, how="threads", modules=[door] * n))
        for flags in (["-I", "-S"], ["-I", "-X", "frozen_modules=off"], ["-I", "-X", "importtime"], ["-I", "-W", "error"], ["-I", "-P"], ["-I", "-v"]):
            add(" ".join(flags), lambda f: tree(f), flags)
        return out

    @staticmethod
    def shard(ctx):
        r = random.Random("P39/docs/%d" % ctx.seed)
        docs = corpus.representative() + corpus.dictionary() + corpus.mixed(r, 120 if ctx.quick else 600, failures=0.3, big=False)
        base = [tuple(sut.convert(d)) for d in docs]
        if ctx.shard == 0:
            ctx.count("modules_imported_first", len(modules(sut.PKG_DIR)))
        for i, (name, make, flags, env) in enumerate(P39.ways(ctx, None)):
            if i % ctx.shards != ctx.shard:
                continue
            tmp = tempfile.mkdtemp(prefix="rv-p39-")
            try:
                os.chmod(tmp, 0o755)
                P39.way(ctx, name, make, flags, env, docs, base, tmp)
            finally:
                for e, dirs, files in os.walk(tmp):
                    os.chmod(e, 0o755)
                shutil.rmtree(tmp, ignore_errors=True)
            if ctx.full():
                return

    @staticmethod
    def way(ctx, name, make, flags, env, docs, base, tmp):
        f = Forms(tmp)
        opts = make(f)
        cpath, out = os.path.join(tmp, "corpus.json"), os.path.join(tmp, "out.json")
        if "failed" in opts:
            ctx.violate("the package does not work when it is installed or imported in another way", way=name, xml="", got=opts["failed"])
            return
        with open(cpath, "w", encoding="utf-8") as fh:
            json.dump(docs, fh)
        open(out, "w").close()
        os.chmod(out, 0o666)
        worker = os.path.join(tmp, "packworker.py")
        shutil.copy(os.path.join(os.path.dirname(os.path.abspath(__file__)), "packworker.py"), worker)
        os.chmod(worker, 0o644)
        e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        e.update(env)
        try:
            p = subprocess.run([sys.executable] + flags + [worker, cpath, out, json.dumps(opts)], cwd="/", env=e, capture_output=True, timeout=120)
        except subprocess.TimeoutExpired:
            ctx.violate("importing the package does not come to an end", way=name, xml="")
            return
        try:
            with open(out, encoding="ascii") as fh:
                got = json.load(fh)
        except ValueError:
            raise RuntimeError("worker failed for %s: %s" % (name, p.stderr.decode("utf-8", "replace")[-1500:]))
        ctx.evaluations += 1
        if "failed" in got:
            if "user" in opts and "setuid" in got["failed"]:
                ctx.count("ways_not_available")
                return
            ctx.violate("the package does not work when it is installed or imported in another way", way=name, xml="", got=got["failed"])
            return
        ctx.count("ways")
        ctx.saw(name)
        if ctx.shard == 0:
            ctx.sample(way=name, documents=len(docs))
        if (p.stdout or p.stderr) and not {"importtime", "-v"} & {x.split("=")[0] for x in flags}:
            ctx.violate("importing the package prints", way=name, xml="", got=(p.stdout + p.stderr).decode("utf-8", "replace")[:800])
        if got["remarks"]:
            ctx.violate("importing the package changes something or is not repeatable", way=name, xml="", got=str(got["remarks"])[:800])
        for d, want, have in zip(docs, base, got["outcomes"]):
            ctx.evaluations += 1
            ctx.count("outcomes_compared")
            if want != tuple(have):
                ctx.violate("an outcome depends on how the package is installed or imported", way=name, xml=d, expected=show(want), got=show(tuple(have)))
                break
