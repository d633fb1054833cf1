"""P30 - P33, P38: side effects, work, depth, retained and peak memory."""
import builtins
import gc
import os
import random
import signal
import shutil
import socket
import sys
import sysconfig
import tempfile
import threading
import time
import tracemalloc
import warnings

from . import corpus, engine, shapes, sut
from .diff import expected, toks
from .gen import Gen
from .harvest import SIZES
from .node import N, Spelling, plain
from .pristine import Pristine

A_PUBLIC = "only the public conversion entry point is observed"


def show(o):
    return o[1] if o[0] == "ok" else "%s: %s" % (o[1], o[2])


# ---------------------------------------------------------------- P30
QUIET_EVENTS = ("compile", "exec", "import", "object.__getattr__", "object.__setattr__", "object.__delattr__", "sys._getframe", "code.__new__",
                "marshal.loads", "marshal.load", "builtins.id", "sys.monitoring", "gc.", "cpython.", "array.__new__", "os.fspath", "function.__new__", "sys.unraisablehook",
                "signal.set_wakeup_fd", "time.")


class Recorder:
    """the audit events of the interpreter while `on`"""

    def __init__(self):
        self.on = False
        self.events = []
        p = sysconfig.get_paths()
        self.code = tuple(os.path.realpath(d) + os.sep for d in {p["stdlib"], p["platstdlib"], sut.PKG_DIR})
        self.me = None

    def hook(self, event, args):
        if not self.on or self.busy:
            return
        if event.startswith(QUIET_EVENTS):
            if event == "import" and args and args[1] and not self.inside(args[1]):
                self.note("import", args)
            return
        if event == "open":
            path, mode, flags = (list(args) + [None] * 3)[:3]
            if isinstance(path, (str, bytes)) and self.inside(os.fsdecode(path)) and not (flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                return
        if event in ("os.listdir", "os.scandir") and args and isinstance(args[0], str) and self.inside(args[0] + os.sep):
            return
        self.note(event, args)

    busy = False

    def note(self, event, args):
        self.busy = True
        try:
            if len(self.events) < 50:
                self.events.append("%s%s" % (event, ascii(args)[:200]))
        finally:
            self.busy = False

    def inside(self, path):
        self.busy = True
        try:
            return (os.path.realpath(path) + os.sep).startswith(self.code)
        finally:
            self.busy = False


def library_tables():
    """every container of some size that the library's modules, classes and functions hold"""
    out = {}

    def put(name, v, deep=0):
        if isinstance(v, (dict, list, set, frozenset, tuple)) and len(v) > 5:
            out[name] = v
    root = os.path.realpath(sut.PKG_DIR) + os.sep
    for m in list(sys.modules.values()):
        f = getattr(m, "__file__", None)
        if not f or not os.path.realpath(f).startswith(root):
            continue
        for k, v in list(vars(m).items()):
            if k == "__builtins__":
                continue
            put("%s.%s" % (m.__name__, k), v)
            if isinstance(v, type) and getattr(v, "__module__", "") == m.__name__:
                for a, b in list(vars(v).items()):
                    put("%s.%s.%s" % (m.__name__, k, a), b)
    return out


PATCHABLE = ["re", "xml.dom.minidom", "xml.dom.expatbuilder", "xml.parsers.expat", "xml.dom", "string", "os", "builtins", "html", "html.entities", "unicodedata", "codecs",
             "functools", "typing", "dataclasses", "collections", "locale", "xml.dom.minicompat", "sys"]
VOLATILE = {"sys": {"last_value", "last_type", "last_traceback", "last_exc", "path_importer_cache", "modules", "_getframe"}, "builtins": {"_"}}


def patched_state():
    out = {}
    for name in PATCHABLE:
        m = sys.modules.get(name)
        if m is None:
            continue
        if name in ("sys", "builtins"):
            out[name, "the names in it"] = " ".join(sorted(k for k in vars(m) if k not in VOLATILE[name] and not k.startswith("__")))
        for k, v in list(vars(m).items()):
            if k.startswith("__") or k in VOLATILE.get(name, ()):
                continue
            if callable(v) or isinstance(v, (int, float, str, bool, type(None))):
                out[name, k] = v if isinstance(v, (int, float, str, bool, type(None))) else id(v)
            if isinstance(v, type) and name.startswith("xml.dom"):
                for a, b in list(vars(v).items()):
                    if not a.startswith("__"):
                        out[name, k, a] = id(b)
    return out


def interpreter_state():
    import decimal
    import locale
    import logging
    import resource
    um = os.umask(0o022)
    os.umask(um)
    import atexit
    return {
        "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(), "locale": locale.setlocale(locale.LC_ALL),
        "warning filters": list(warnings.filters), "environment": dict(os.environ), "directory": os.getcwd(), "sys.path": list(sys.path), "sys.argv": list(sys.argv),
        "random state": hash(random.getstate()), "signal handlers": {s: str(signal.getsignal(s)) for s in signal.valid_signals()},
        "collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), gc.get_freeze_count()), "threads": threading.active_count(),
        "decimal context": repr(decimal.getcontext()), "int digits": sys.get_int_max_str_digits(), "streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "hooks": (id(sys.excepthook), id(sys.displayhook), id(sys.gettrace()), id(sys.getprofile()), id(sys.unraisablehook), id(threading.excepthook)),
        "import hooks": ([id(x) for x in sys.meta_path], [id(x) for x in sys.path_hooks]), "socket timeout": socket.getdefaulttimeout(), "umask": um,
        "limits": [resource.getrlimit(x) for x in (resource.RLIMIT_NOFILE, resource.RLIMIT_AS, resource.RLIMIT_STACK, resource.RLIMIT_CPU)],
        "nice": os.getpriority(os.PRIO_PROCESS, 0), "logging": (logging.root.level, [id(h) for h in logging.root.handlers], logging.root.manager.disable),
        "exit functions": atexit._ncallbacks(), "thread stack": threading.stack_size(), "builtins": sorted(vars(builtins)),
    }


def quiet(frame, event, arg):
    return quiet


class P30:
    pid = "P30"
    rule = ("conversions of a corpus with every element and failure, of documents that point to files, DTDs, entities, stylesheets and a listening socket, and of strings that "
            "are names of existing files, under the interpreter's audit hook; after every one the audit log, the library's tables, 27 settings of the interpreter, the "
            "functions of the modules it uses, the output streams and the warnings are compared with what they were. Non-trivial: every distinct input.")
    assumptions = [A_PUBLIC, "reading the interpreter's own library files for a first import is not an effect of a conversion",
                   "containers with at most five entries at import (a cache, say) are not the library's tables"]
    need = {"conversions_watched": 8000, "documents_with_external_references": 1000, "table_entries_compared": 1000000, "settings_compared": 50000}

    @staticmethod
    def shard(ctx):
        r = ctx.rng
        tmp = tempfile.mkdtemp(prefix="rv-p30-")
        lis = socket.socket()
        try:
            lis.bind(("127.0.0.1", 0))
            lis.listen(5)
            lis.setblocking(False)
            P30.watch(ctx, r, tmp, lis)
        finally:
            lis.close()
            shutil.rmtree(tmp, ignore_errors=True)

    @staticmethod
    def pointing(r, tmp, port, xml):
        secret = os.path.join(tmp, "secret.txt")
        url = r.choice([secret, "file://" + secret, "http://127.0.0.1:%d/x.dtd" % port, os.path.relpath(secret), "secret.txt", "ftp://127.0.0.1:%d/x" % port,
                        "/etc/hostname", "data:,x"])
        k = r.randrange(12)
        if k == 0:
            return "<!DOCTYPE math SYSTEM \"%s\">%s" % (url, xml)
        if k == 1:
            return "<!DOCTYPE math PUBLIC \"-//W3C//DTD MathML 2.0//EN\" \"%s\">%s" % (url, xml)
        if k == 2:
            return "<!DOCTYPE math [<!ENTITY e SYSTEM \"%s\">]>%s" % (url, xml.replace("</math>", "<mi>&e;</mi></math>"))
        if k == 3:
            return "<!DOCTYPE math [<!ENTITY %% p SYSTEM \"%s\"> %%p;]>%s" % (url, xml)
        if k == 4:
            return "<?xml-stylesheet type=\"text/xsl\" href=\"%s\"?>%s" % (url, xml)
        if k == 5:
            return xml.replace("<math>", "<math xmlns:xi=\"http://www.w3.org/2001/XInclude\"><xi:include href=\"%s\" parse=\"text\"/>" % url, 1)
        if k == 6:
            return xml.replace("<math>", "<math xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" xsi:schemaLocation=\"%s %s\">" % (url, url), 1)
        if k == 7:
            return xml.replace("<math>", "<math altimg=\"%s\" href=\"%s\"><mglyph src=\"%s\"/>" % (url, url, url), 1)
        if k == 8:
            return xml.replace("<math>", "<math><annotation src=\"%s\"/><annotation-xml src=\"%s\"/><mi>%s</mi>" % (url, url, url), 1)
        if k == 9:
            return "<!DOCTYPE math [<!NOTATION n SYSTEM \"%s\"><!ENTITY e SYSTEM \"%s\" NDATA n>]>%s" % (url, url, xml)
        if k == 10:
            return url
        return r.choice([tmp, secret, os.path.join(tmp, "doc.xml"), "file://" + os.path.join(tmp, "doc.xml"), "doc.xml", "/etc/passwd", ".", "~", "$HOME", "-", "http://127.0.0.1:%d/" % port,
                         "__import__('os').getcwd()", "<math><mi>{0.__class__}</mi></math>", "<math><mtext>${HOME} `id` $(id) %s %(x)s {x}</mtext></math>",
                         "<?python import os?><math><mi>x</mi></math>", "<math><mi>__import__('os').getcwd()</mi></math>"])

    @staticmethod
    def watch(ctx, r, tmp, lis):
        secret = "S3CRET%dS3CRET" % r.randrange(10 ** 9)
        with open(os.path.join(tmp, "secret.txt"), "w") as f:
            f.write(secret)
        with open(os.path.join(tmp, "doc.xml"), "w") as f:
            f.write("<math><mi>%s</mi></math>" % secret)
        docs = corpus.mixed(r, 500)
        docs += r.sample(corpus.nested(r), 60) + corpus.combined(r, 60)
        deep = corpus.too_deep()
        rec = Recorder()
        sys.addaudithook(rec.hook)
        # the streams, at the level of file descriptors
        sys.stdout.flush()
        sys.stderr.flush()
        keep = os.dup(1), os.dup(2)
        cap = os.open(os.path.join(tmp, "streams"), os.O_RDWR | os.O_CREAT | os.O_APPEND)
        os.dup2(cap, 1)
        os.dup2(cap, 2)
        here = os.getcwd()
        os.chdir(tmp)
        port = lis.getsockname()[1]
        try:
            with warnings.catch_warnings(record=True) as warned:
                warnings.simplefilter("always")
                tables = library_tables()
                import copy
                saved = {k: copy.deepcopy(v) for k, v in tables.items()}
                entries = sum(len(v) for v in saved.values())
                interpreter_state()
                state = interpreter_state()
                patches = patched_state()
                fds = len(os.listdir("/proc/self/fd"))
                total = ctx.n(16000, 250000)
                large = corpus.large()[ctx.shard::ctx.shards]
                for i in range(total):
                    p = r.random()
                    if i < len(large):
                        xml = large[i]
                        ctx.count("large_documents")
                    elif p < 0.3:
                        xml = P30.pointing(r, tmp, port, r.choice(docs) if r.random() < 0.5 else "<math><mi>x</mi></math>")
                        ctx.count("documents_with_external_references")
                    elif p < 0.302:
                        xml = r.choice(deep)
                    else:
                        xml = r.choice(docs)
                    kept = xml
                    traced = i % 40 == 7
                    if traced:
                        sys.settrace(quiet)
                    rec.on = True
                    out = sut.convert(xml)
                    rec.on = False
                    if traced:
                        sys.settrace(None)
                        ctx.count("conversions_watched_under_a_tracer")
                    ctx.evaluations += 1
                    ctx.count("conversions_watched")
                    ctx.saw(xml)
                    bad = None
                    if rec.events:
                        bad = ("a conversion does what the audit hook must not see", "; ".join(rec.events[:5]))
                        rec.events = []
                    elif out.ok and secret in out.text:
                        bad = ("a conversion reads a file", out.text)
                    elif warned:
                        bad = ("a conversion emits a warning", str(warned[0].message))
                        del warned[:]
                    sys.stdout.flush()
                    if bad is None and os.fstat(cap).st_size:
                        with open(os.path.join(tmp, "streams"), errors="replace") as f:
                            bad = ("a conversion writes to standard output or error", f.read(500))
                        os.ftruncate(cap, 0)
                    if bad is None:
                        for k, v in saved.items():
                            if tables[k] != v or type(v) is dict and list(tables[k]) != list(v):
                                bad = ("a conversion changes a table of the library", k)
                                break
                        ctx.count("table_entries_compared", entries)
                    if bad is None and (i < 300 or i % 10 == 0):
                        now = interpreter_state()
                        for k, v in state.items():
                            ctx.count("settings_compared")
                            if now[k] != v:
                                bad = ("a conversion changes a setting of the interpreter", "%s: %s -> %s" % (k, str(v)[:200], str(now[k])[:200]))
                                break
                        if bad is None:
                            here_now = patched_state()
                            for k, v in patches.items():
                                if here_now.get(k, v) != v or k not in here_now:
                                    bad = ("a conversion changes a module it uses", ".".join(k))
                                    break
                    if bad is None and i % 500 == 499:
                        n = len(os.listdir("/proc/self/fd"))
                        if n > fds + 5:
                            bad = ("conversions leave files open", "%d descriptors, %d before" % (n, fds))
                        again = library_tables()
                        for k in saved:
                            if again.get(k) is None:
                                bad = ("a conversion changes a table of the library", k)
                    if bad is None:
                        try:
                            c, _ = lis.accept()
                            c.close()
                            bad = ("a conversion connects to a server", "connection accepted")
                        except BlockingIOError:
                            pass
                    if kept != xml:
                        bad = ("a conversion changes its argument", kept[:200])
                    if bad:
                        ctx.violate(bad[0], xml=xml[:2000], got=bad[1], expected="no effect")
                        if ctx.full() or ctx.counts.get("violations_seen", 0) > 3:
                            break
                    elif ctx.shard == 0 and i in (1, 10, 20):
                        ctx.sample(xml=xml, outcome=out.show()[:200], audit_events=0, tables=len(saved), entries=entries)
        finally:
            os.chdir(here)
            sys.stdout.flush()
            os.dup2(keep[0], 1)
            os.dup2(keep[1], 2)
            os.close(cap)


# ---------------------------------------------------------------- P31
LIMIT = 60_000_000


def pairs_of(kinds):
    return [(a, b) for a in kinds for b in kinds]


def deep_steps():
    """name -> one step of nesting"""
    out = {}
    for name, (make, _) in shapes.deep(lambda: N("mi", text="x")).items():
        out[name] = make
    return out


def nest(makers, leaf):
    """nests the one-step makers around a leaf"""
    t = leaf
    for m in makers:
        t = m(t)
    return N("math", [t])


def texts():
    """name -> text of n characters, for a token"""
    return {
        "letters": lambda n: "x" * n, "digits": lambda n: "7" * n, "spaces": lambda n: "a" + " " * n + "b", "nbsp": lambda n: "a" + "\u00a0" * n + "b",
        "words": lambda n: ("ab " * n)[:n], "symbols": lambda n: "\u03b1" * n, "mixed": lambda n: ("a\u03b1" * n)[:n], "specials": lambda n: ("%_{}\\" * n)[:n],
        "specials and letters": lambda n: ("a%b " * n)[:n], "unknown": lambda n: "\u4e2d" * n, "newlines": lambda n: ("a\n" * n)[:n], "quotes": lambda n: "'" * n,
        "backslashes": lambda n: "\\" * n, "astral": lambda n: "\U0001d400" * n, "commands": lambda n: ("\u2211a" * n)[:n], "brackets": lambda n: "]" * n,
    }


def hostile(n):
    """texts that make careless patterns slow"""
    m = "<math>%s</math>"
    return {
        "spaces": " " * n, "spaces in math": m % (" " * n), "spaces in tag": "<math" + " " * n + "><mi>x</mi></math>", "spaces in end tag": "<math><mi>x</mi></math" + " " * n + ">",
        "spaces then junk": "<math" + " " * n + "<", "newlines": m % ("\n" * n), "carriage": m % ("\r\n" * (n // 2)), "tabs in token": m % ("<mi>a" + "\t" * n + "b</mi>"),
        "open brackets": "<" * n, "close brackets": ">" * n, "slashes": "</" * (n // 2), "quotes": "<a " + "\"" * n, "odd quotes": "<a b=" + "\"'" * (n // 2), "quoted tags": "<a\"" * (n // 3),
        "apostrophes": "<a '" * (n // 4), "unclosed tag": "<math " + "a" * n, "unclosed attrs": "<math " + "a b " * (n // 4), "unclosed valued": "<math " + "a='b' " * (n // 6),
        "equals": "<math " + "= " * (n // 2) + ">", "equals run": "<math a" + "=" * n + "></math>", "valueless": "<math " + "a%s " * 0 + " ".join("a%d" % i for i in range(n // 8)) + "><mi>x</mi></math>",
        "valueless eq": "<math " + " ".join("a%d=" % i for i in range(n // 8)) + " ><mi>x</mi></math>", "valueless spread": m % ("<mi a>x</mi>" * (n // 12)),
        "valued": "<math " + " ".join("a%d='v'" % i for i in range(n // 10)) + "><mi>x</mi></math>", "spaced equals": "<math a" + " " * (n // 2) + "=" + " " * (n // 2) + "><mi>x</mi></math>",
        "comment opens": "<!--" * (n // 4), "comment unclosed": m % ("<!--" + "-" * n), "comment dashes": m % ("<!--" + "- " * (n // 2) + "-->"), "comments": m % ("<!--a-->" * (n // 8)),
        "cdata opens": m % ("<![CDATA[" * (n // 9)), "cdata brackets": m % ("<mi><![CDATA[" + "]" * n + "]]></mi>"), "cdatas": m % ("<mi>" + "<![CDATA[a]]>" * (n // 13) + "</mi>"), "pis": m % ("<?a b?>" * (n // 7)),
        "pi opens": "<?" * (n // 2), "mml": "mml:" * (n // 4), "mml text": m % ("<mi>" + "mml:" * (n // 4) + "</mi>"), "mml tags": "<mml:math>" + "<mml:mi>x</mml:mi>" * (n // 18) + "</mml:math>",
        "mml attrs": "<math " + " ".join("mml:a%d='mml:'" % i for i in range(n // 16)) + "/>", "mml unclosed": "<mml:" * (n // 5), "mml spaces": "<a " + " mml:" * (n // 5), "amps": m % ("&amp;" * (n // 5)),
        "bare amps": m % ("&" * n), "charrefs": m % ("<mi>" + "&#120;" * (n // 6) + "</mi>"), "long name": "<" + "m" * n + "/>", "long attr": "<math a='" + "x" * n + "'/>",
        "lt in value": "<math a='" + "<" * n + "'/>", "gt in value": "<math a='" + ">" * n + "'><mi b>x</mi></math>", "doctype": "<!DOCTYPE math [" + "<!ENTITY a 'b'>" * (n // 16) + "]><math/>",
        "doctype unclosed": "<!DOCTYPE math [" + "<" * n, "mathtags": "<math>" * (n // 6), "mtext spaces": m % ("<mtext>" + " a  " * (n // 4) + "</mtext>"), "mtext specials": m % ("<mtext>" + "%a" * (n // 2) + "</mtext>"),
        "mo long": m % ("<mo>" + "+" * n + "</mo>"), "mi spaces": m % ("<mi>" + "x " * (n // 2) + "</mi>"), "separators": m % ("<mfenced separators='" + " ," * (n // 2) + "'><mi>x</mi><mi>y</mi></mfenced>"),
        "open": m % ("<mfenced open='" + "(" * n + "'><mi>x</mi></mfenced>"), "notation": m % ("<menclose notation='" + "box " * (n // 4) + "'><mi>x</mi></menclose>"), "empty": "\x00" * n, "bom": "\ufeff" * n,
        "tag soup": "<mi></mo>" * (n // 9), "unclosed nest": "<mrow>" * (n // 6) + "x",
    }


def spell(t):
    return t if isinstance(t, str) else plain(t)


class P31:
    pid = "P31"
    rule = ("documents that grow in one dimension (32 ways to be wide, 16 kinds of text in 4 tokens, 85 ways to be deep, their pairs, and random contexts put into themselves): the executed Python lines and calls "
            "are counted at doubling sizes and their growth compared; CPU time for each item at up to 40 times the size for work hidden in C code; hostile texts of hundreds of kilobytes under a CPU "
            "limit. Non-trivial: every measured family.")
    assumptions = [A_PUBLIC, "work is counted in executed Python lines and calls; time only with wide margins (a factor of 4 over proportional growth, three times in a row)"]
    need = {"families_measured": 1000, "hostile_texts": 55, "random_contexts_nested": 500, "lines_counted": 10000000, "time_families": 8}

    @staticmethod
    def steps(xml):
        try:
            return engine.with_budget(lambda: sut.convert(xml), LIMIT)
        except engine.TooMuchWork:
            return None, None

    @staticmethod
    def shard(ctx):
        r = ctx.rng
        work = []

        def leaf():
            return N("mi", text="x")
        for x in corpus.representative():       # first conversions import modules and compile patterns
            sut.convert(x)
        for name, f in shapes.wide(leaf).items():
            work.append(("wide", name, f))
        for tag in ("mi", "mo", "mn", "mtext"):
            for name, f in texts().items():
                work.append(("text", tag + " " + name, lambda n, tag=tag, f=f: N("math", [N(tag, text=f(n))])))
        work.append(("text", "mtext bold", lambda n: N("math", [N("mtext", text="a b" * n, attrs={"mathvariant": "bold"})])))
        for name, f in sorted(shapes.spelt().items()):
            work.append(("wide", name, f))
        steps = {k: (lambda t, mk=mk: mk(1, t)) for k, (mk, _) in P31.steppers(leaf).items()}
        for k in steps:
            work.append(("deep", (k,), steps))
        import random as rnd
        couples = [(a, b) for a in steps for b in steps if a != b]
        fixed = rnd.Random(ctx.seed)            # the same choice in every shard
        for k in fixed.sample(couples, 1600) if ctx.quick else couples:
            work.append(("deep", k, steps))
        for _ in range(300 if ctx.quick else 6000):
            work.append(("deep", tuple(fixed.choice(sorted(steps)) for _ in range(fixed.choice([3, 4, 5]))), steps))
        for _ in range(1600 if ctx.quick else 30000):
            work.append(("context", fixed.random(), None))
        for i, (kind, name, f) in enumerate(work):
            if i % ctx.shards != ctx.shard:
                continue
            if kind == "deep":
                P31.deep(ctx, name, f, leaf)
            elif kind == "context":
                P31.context(ctx, name)
            else:
                P31.grow(ctx, kind, name, f)
            ctx.count("families_measured")
            if ctx.full():
                return
        P31.timed(ctx, leaf)
        if ctx.full():
            return
        for n in ((300000,) if ctx.quick else (300000, 1000000)):
            for i, (name, xml) in enumerate(sorted(hostile(n).items())):
                if i % ctx.shards != ctx.shard:
                    continue
                t0 = time.process_time()
                o = sut.convert(xml)
                ctx.evaluations += 1
                ctx.count("hostile_texts")
                ctx.top("hostile_cpu_ms", int(1000 * (time.process_time() - t0)))
                ctx.saw(name + str(n))
                if o.error == "NoAnswer":
                    o = sut.convert(xml)          # once more: the machine may have been busy
                    if o.error == "NoAnswer":
                        ctx.violate("hostile text makes a conversion blow up", family=name, xml=xml[:300] + "...", size=len(xml), got=o.show(), expected="an answer within milliseconds")
                        if ctx.full():
                            return

    @staticmethod
    def steppers(leaf):
        """name -> (fn(n, inner), levels)"""
        out = {}
        for name in shapes.deep(leaf):
            def mk(n, inner, name=name):
                made = shapes.deep(leaf)[name][0](1)
                # the maker nests around a fresh leaf: put the inner tree in its place
                return P31.plug(made, name, inner)
            out[name] = (mk, 1)
        return out

    @staticmethod
    def plug(made, name, inner):
        cell = []

        def tok():
            cell.append(N("mi", text="x"))
            return cell[-1]
        made = shapes.deep(tok)[name][0](1)
        hole = cell[0]
        for n in made.walk():
            for i, k in enumerate(n.kids):
                if k is hole:
                    n.kids[i] = inner
                    return made.kids[0]
        raise AssertionError(name)

    @staticmethod
    def grow(ctx, kind, name, f):
        base = 60 if kind == "wide" else 150
        if ctx.tier == "thorough":
            base *= 2
        s, lens = [], []
        for n in (base, 2 * base, 4 * base):
            xml = spell(f(n))
            o, w = P31.steps(xml)
            ctx.evaluations += 1
            if w is None:
                return ctx.violate("work grows faster than the document", family=name, size=n, got="more than %d lines" % LIMIT, xml=xml[:300])
            s.append(w)
            lens.append(len(o.text) if o.ok else 0)
            ctx.count("lines_counted", w)
        ctx.saw("%s %s" % (kind, name))
        a, b = s[1] - s[0], s[2] - s[1]
        ctx.top("increment_ratio_per_mille_" + kind, int(1000 * b / max(1, a)))
        if ctx.shard == 0:
            ctx.sample(family=name, sizes=[base, 2 * base, 4 * base], lines=s, output=lens)
        if b > 3 * max(a, 200):
            ctx.violate("work grows faster than the document", family=name, sizes=[base, 2 * base, 4 * base], lines=s, xml=spell(f(3))[:500], expected="increments in proportion")
        if lens[2] - lens[1] > 3 * max(lens[1] - lens[0], 50):
            ctx.violate("the output grows faster than the document", family=name, lengths=lens, xml=spell(f(3))[:500])

    @staticmethod
    def context(ctx, seed):
        """a small random document with a hole, put into its own hole again and again"""
        import random as rnd
        r = rnd.Random(seed)
        g = Gen(r, focus={"mtable": 0.3})
        for _ in range(50):
            t = g.tree(r.choice([1, 2, 2, 3]))
            spots = [(n, i) for n in t.walk() for i, k in enumerate(n.kids) if k.tag != "mprescripts"]
            if spots and t.size() <= 16 and sum(len(n.text) for n in t.walk()) < 200:
                break
        else:
            return
        par, at = r.choice(spots)
        par.kids[at] = hole = N("mi", text="x")
        levels = next(d for n, d in P31.depths(t) if n is hole)

        def times(k):
            out = N("mi", text="x")
            for _ in range(k):
                par.kids[at] = out
                out = t.clone()
            return out
        d = max(3, min(20, 40 // levels))
        s, lens = [], []
        for n in (d, 2 * d):
            o, w = P31.steps(plain(N("math", [times(n)])))
            ctx.evaluations += 1
            par.kids[at] = hole
            if w is None:
                return ctx.violate("work explodes with nesting", context=plain(t), depth=n, got="more than %d lines" % LIMIT, xml=plain(N("math", [times(3)]))[:1500])
            s.append(w)
            lens.append(len(o.text) if o.ok else 0)
            ctx.count("lines_counted", w)
        ctx.count("random_contexts_nested")
        ctx.saw("context " + plain(t))
        ctx.top("context_ratio_per_mille", int(1000 * s[1] / s[0]))
        if s[1] > 7 * s[0]:
            ctx.violate("work grows faster than size times depth", context=plain(t), depths=[d, 2 * d], lines=s, xml=plain(N("math", [times(3)]))[:1500])
        if lens[1] > 5 * max(lens[0], 40):
            ctx.violate("the output explodes with nesting", context=plain(t), depths=[d, 2 * d], lengths=lens, xml=plain(N("math", [times(3)]))[:1500])

    @staticmethod
    def depths(t):
        stack = [(t, 0)]
        while stack:
            n, d = stack.pop()
            yield n, d
            stack.extend((k, d + 1) for k in n.kids)

    @staticmethod
    def deep(ctx, names, steps, leaf):
        tables = any(shapes.LEVELS.get(k, 1) > 2 for k in names)
        d = 12 if tables else 20
        s, lens = [], []
        for n in (d, 2 * d, 4 * d if ctx.tier == "thorough" else 3 * d):
            t = leaf()
            for i in range(n):
                t = steps[names[i % len(names)]](t)
            xml = plain(N("math", [t]))
            o, w = P31.steps(xml)
            ctx.evaluations += 1
            if w is None:
                return ctx.violate("work explodes with nesting", family=" in ".join(names), depth=n, got="more than %d lines" % LIMIT, xml=xml[:600])
            s.append(w)
            lens.append(len(o.text) if o.ok else 0)
            ctx.count("lines_counted", w)
        ctx.saw("deep " + str(names))
        q = s[1] / s[0]
        ctx.top("deep_ratio_per_mille", int(1000 * q))
        if q > 6:
            ctx.violate("work grows faster than size times depth", family=" in ".join(names), depths=[d, 2 * d], lines=s, xml=xml[:600])
        if lens[1] > 5 * max(lens[0], 40):
            ctx.violate("the output explodes with nesting", family=" in ".join(names), depths=[d, 2 * d], lengths=lens, xml=xml[:600])

    @staticmethod
    def timed(ctx, leaf):
        fams = dict(shapes.wide(leaf))
        fams.update(shapes.spelt())
        # long leaves, for copies of everything made so far
        fams.update({"long-" + k: f for k, f in shapes.wide(lambda: N("mi", text="x" * 600)).items()})
        for tag in ("mtext", "mi", "mo"):
            for name, f in texts().items():
                fams["%s %s" % (tag, name)] = lambda n, tag=tag, f=f: N("math", [N(tag, text=f(4 * n))])
        names = sorted(fams)
        pick = [k for i, k in enumerate(names) if i % ctx.shards == ctx.shard]
        if ctx.quick:       # every way to be wide, some texts
            texts_ = [k for k in pick if k.split(" ")[0] in ("mtext", "mi", "mo")]
            pick = [k for k in pick if k not in texts_] + ctx.rng.sample(texts_, min(2, len(texts_)))
        for name in pick:
            f = fams[name]
            small = spell(f(P31.SMALL))
            ctx.count("time_families")
            per = min(P31.cpu(small) for _ in range(3)) / P31.SMALL
            # as large as the time allows: work hidden in C code is small for each item
            n = int(max(12000, min(60000 if ctx.quick else 200000, (1.5 if ctx.quick else 6) / max(per, 1e-6))))
            big = spell(f(n))
            worst = None
            for attempt in range(3):
                a = max(min(P31.cpu(small) for _ in range(3)), 0.004) / P31.SMALL
                b = P31.cpu(big) / n
                ctx.evaluations += 4
                q = b / a
                worst = q if worst is None else min(worst, q)
                if worst <= 4:
                    break
            ctx.top("time_per_item_growth_percent", int(100 * worst))
            ctx.top("largest_timed_size", n)
            ctx.saw("time " + name)
            if worst > 4:
                ctx.violate("time grows faster than the document", family=name, sizes=[P31.SMALL, n], got="%.1f times the time for each item, three times over" % worst, xml=spell(f(3))[:500])
                if ctx.full():
                    return

    SMALL = 1500

    @staticmethod
    def cpu(xml):
        """CPU time without the collector, whose passes over a large heap are not the converter's"""
        gc.collect()
        gc.disable()
        try:
            t = time.process_time()
            sut.convert(xml)
            return time.process_time() - t
        finally:
            gc.enable()


# ---------------------------------------------------------------- P32
class P32:
    pid = "P32"
    rule = ("chains of every kind of element, and random mixtures of them, up to 150 levels (tables up to 60) against the specification at the default recursion limit; "
            "every depth around the capacity and random depths far beyond it must give RecursionError or the specified result; conversions after such failures are compared with "
            "those of a fresh process. Non-trivial: a document at least 50 levels deep.")
    assumptions = [A_PUBLIC, "the caller itself stands less than 40 frames deep", "the default recursion limit of CPython, 1000"]
    need = {"deep_documents_exact": 3000, "beyond_capacity": 1000, "recursion_errors": 500, "conversions_after_a_failure": 1000, "pairs_far_apart": 1000}

    @staticmethod
    def model(t):
        sys.setrecursionlimit(60000)
        try:
            return expected([t])
        finally:
            sys.setrecursionlimit(1000)

    @staticmethod
    def call(xml):
        """from a fresh stack"""
        box = []
        th = threading.Thread(target=lambda: box.append(sut.Outcome(sut.outcome(lambda: sut.MathMLToLaTeX.convert(xml)))))
        th.start()
        th.join()
        return box[0]

    @staticmethod
    def shard(ctx):
        r = ctx.rng
        ref = Pristine()
        sys.setrecursionlimit(1000)
        threading.stack_size(256 << 20)
        g = Gen(r)

        def tok():
            return N(r.choice(["mi", "mn"]), text=r.choice(["x", "y", "1", "2", "ab", "\u03b1"]))
        rep = corpus.representative()
        kinds = sorted(shapes.deep(tok))
        table = {k: 60 if v > 2 else 74 for k, v in shapes.LEVELS.items()}

        def look(t, depth, name):
            xml = plain(t)
            o = P32.call(xml)
            try:
                want = P32.model(t) if o.error != "RecursionError" or depth is not None else None
            except RecursionError:
                want = tuple(o)
                ctx.count("beyond_the_capacity_of_the_specification")
            ctx.evaluations += 1
            ctx.top("levels", t.depth())
            if depth is not None:
                ctx.count("deep_documents_exact")
                if t.depth() >= 50:
                    ctx.saw(xml)
                if tuple(o) != want:
                    ctx.violate("a deeply nested document is not converted correctly", family=name, depth=t.depth(), xml=xml[:3000], expected=show(want)[:1500], got=o.show()[:1500])
                return o
            ctx.count("beyond_capacity")
            ctx.saw(xml)
            if o.error == "RecursionError":
                ctx.count("recursion_errors")
            elif tuple(o) != want:
                ctx.violate("a document nested beyond the capacity gives a wrong result", family=name, depth=t.depth(), xml=xml[:2000], expected="RecursionError or " + show(want)[:600], got=o.show()[:1000])
            return o
        # single kinds
        for i, k in enumerate(kinds):
            if i % ctx.shards != ctx.shard:
                continue
            make, lv = shapes.deep(tok)[k]
            top = table.get(k, 149)
            depths = sorted({d for d in SIZES if d <= top} | {top, top - 1, top // 2}) if not ctx.quick else sorted({1, 2, 3, 10, 30, 31, 32, 33, 49, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 148, 149, 59, 60, 20, 40} | set(
                r.sample(SIZES, 8)))
            for d in depths:
                if d <= top:
                    look(make(d), d, k)
                    if ctx.full():
                        return ref.close()
            # the capacity, and around it
            lo, hi = top, 300 if k in table else 1100
            while hi - lo > 1:
                mid = (lo + hi) // 2
                if look(make(mid), None, k).ok:
                    lo = mid
                else:
                    hi = mid
            ctx.top("capacity_of_" + k, lo)
            for d in list(range(max(top + 1, lo - 3), lo + 12)) + [lo + 50, 2 * lo, 1500]:
                look(make(d), None, k)
                if ctx.full():
                    return ref.close()
            for x in r.sample(rep, 25):
                P32.after(ctx, ref, x)
        # two things that have to do with each other, far apart
        for i in range(ctx.n(4000, 40000)):
            if not P32.far_apart(ctx, r, tok, look):
                return ref.close()
        # mixtures
        for i in range(ctx.n(4000, 60000)):
            ks = r.sample(kinds, r.choice([2, 2, 3, 5, 8, len(kinds)]))
            depth = r.choice([60, 80, 100, 120, 130, 140, 147]) if i % 3 else r.randint(5, 147)
            beyond = r.random() < 0.2
            if beyond:
                depth = r.randint(150, 800)
            t, used = tok(), 1
            while True:
                k = r.choice(ks)
                lv = shapes.LEVELS.get(k, 1)
                if used + lv > depth:
                    if lv > 1 and used + 1 <= depth:
                        k, lv = "mrow", 1
                    else:
                        break
                t = P31.plug(None, k, t)
                used += lv
                if r.random() < 0.03 and not beyond:
                    t = N("mrow", [t, g.tree(2)] if r.random() < 0.5 else [g.tree(2), t])
                    used += 1
            doc = N("math", [t])
            from .props_structure import valid_arity
            if not valid_arity(doc):
                continue
            look(doc, None if beyond else depth, "mixture of " + ", ".join(ks[:8]))
            if ctx.shard == 0 and i < 2:
                ctx.sample(xml=plain(doc), levels=doc.depth())
            if r.random() < 0.3:
                P32.after(ctx, ref, r.choice(rep))
            if ctx.full():
                break
        ref.close()

    @staticmethod
    def far_apart(ctx, r, tok, look):
        x = tok
        cell = lambda *t: N("mtable", [N("mtr", [N("mtd", [k]) for k in t])])  # noqa: E731
        outer = r.choice([
            lambda t: cell(t), lambda t: cell(x(), t), lambda t: N("mfenced", [t]), lambda t: N("mfenced", [x(), t, x()], attrs={"open": "[", "close": "]"}),
            lambda t: N("mfenced", [t], attrs={"open": "{", "close": ""}), lambda t: N("mfenced", [cell(t, x())], attrs={"open": "|", "close": "|"}),
            lambda t: N("msup", [t, x()]), lambda t: N("msub", [t, x()]), lambda t: N("msubsup", [t, x(), x()]), lambda t: N("munderover", [t, x(), x()]),
            lambda t: N("mmultiscripts", [t, x(), x()]), lambda t: N("mmultiscripts", [t, N("mprescripts"), x(), x()]), lambda t: N("mmultiscripts", [x(), t, x()]),
            lambda t: N("mover", [x(), t]), lambda t: N("munder", [x(), t]), lambda t: N("mover", [t, N("mo", text="^")]), lambda t: N("mfrac", [t, x()], attrs={"bevelled": "true"}),
            lambda t: N("mroot", [x(), t]), lambda t: N("mroot", [t, x()]), lambda t: N("mfrac", [x(), t]), lambda t: N("mphantom", [t]), lambda t: N("maction", [x(), t]),
            lambda t: N("maction", [x(), t], attrs={"actiontype": "tooltip"}), lambda t: N("semantics", [x(), N("annotation-xml", [t])]), lambda t: N("menclose", [t], attrs={"notation": "box"})])
        inner = r.choice([
            lambda: cell(x()), lambda: cell(x(), x()), lambda: N("mfenced", [cell(x())], attrs={"open": "[", "close": "]"}), lambda: N("mrow", [x(), x()]), lambda: N("mrow", [x(), N("mphantom", [x()])]),
            lambda: N("mo", text=r.choice(["^", "_", "]", "\u00af", "\u23de"])), lambda: N("mrow"), lambda: N("mphantom", [x()]), lambda: N("mtext", text="a b"), lambda: N("msup", [x(), x()]),
            lambda: N("msub", [x(), x()]), lambda: N("mfrac", [x(), x()]), lambda: N("mi", text="x"), lambda: N("mfenced", [x(), x()]), lambda: N("mprescripts"), lambda: N("mroot", [x(), N("mo", text="]")])])
        through = r.choice([["mrow"], ["mrow"], ["mstyle"], ["unknown"], ["semantics"], ["math"], ["mtd"], ["mtr"], ["msqrt"], ["mfenced"], ["toggle"], ["no action"], ["action"], ["menclose"], ["merror"], ["sup"],
                            ["over"], ["num"], ["mrow-2"], ["mrow", "mstyle"], ["mrow", "math"], ["mrow", "toggle"], ["mtr", "mtd"], ["mrow", "unknown", "action"], ["mrow", "mfenced"], ["sub", "den"]])
        k = r.choice([s for s in SIZES if s <= 138]) if r.random() < 0.5 else r.randint(1, 138)
        t = inner()
        for _ in range(k):
            t = P31.plug(None, r.choice(through), t)
        doc = N("math", [outer(t)])
        from .props_structure import valid_arity
        if valid_arity(doc):
            ctx.count("pairs_far_apart")
            look(doc, doc.depth(), "far apart")
        return not ctx.full()

    @staticmethod
    def after(ctx, ref, xml):
        want, got = ref.ask(xml), sut.convert(xml)
        ctx.evaluations += 1
        ctx.count("conversions_after_a_failure")
        if tuple(want) != tuple(got):
            ctx.violate("a conversion after a deep one is affected", xml=xml, expected=show(want), got=got.show())


# ---------------------------------------------------------------- P33
class P33:
    pid = "P33"
    rule = ("every representative document and failure, and a mixed corpus, converted hundreds of times over, and thousands of documents no two of which are alike; the interpreter's count of allocated memory blocks is read "
            "after a full collection at equal intervals; it must not keep growing, and neither must the traced bytes. Non-trivial: every document measured.")
    assumptions = [A_PUBLIC, "a cache that stops growing, while the same documents are converted again or after thousands of different ones, is no leak", "sys.getallocatedblocks counts what Python code can retain"]
    need = {"documents_measured": 100, "conversions_measured": 40000, "different_documents_measured": 12000, "places_filled_anew": 100, "documents_measured_in_bytes": 200}

    @staticmethod
    def shard(ctx):
        r = ctx.rng
        rep = corpus.representative() + corpus.too_deep()[:2]
        docs = corpus.mixed(r, 250)
        P33.in_bytes(ctx, rep, docs)        # first, as long lists grow in long steps
        if ctx.full():
            return
        fail = [d for d in docs if not sut.convert(d).ok]
        n = 150 if ctx.quick else 1500
        work = [[x] for i, x in enumerate(rep) if i % ctx.shards == ctx.shard] + [docs, fail or rep]
        for group in work:
            reps = max(4, n // len(group)) if len(group) > 1 else (12 if len(group[0]) > 10000 else n)

            def rounds():
                for _ in range(reps):
                    for x in group:
                        sut.convert(x)
                gc.collect()
                return sys.getallocatedblocks()
            marks = [rounds()]
            total = reps * len(group)
            for attempt in range(6):
                marks.append(rounds())
                ctx.evaluations += total
                ctx.count("conversions_measured", total)
            ctx.count("documents_measured", len(group))
            for x in group:
                ctx.saw(x)
            grow = [b - a for a, b in zip(marks, marks[1:])]
            ctx.top("largest_lasting_growth_in_blocks", max(0, min(grow[-3:])))
            if ctx.shard == 0 and len(group) == 1:
                ctx.sample(xml=group[0], conversions=total * 7, allocated_blocks=marks)
            # a leak of at least one block per conversion of some document, every time
            limit = max(10, 0.5 * reps)
            if min(grow) >= limit:
                # what the interpreter keeps for itself levels off, what is retained for each document does not
                ctx.count("groups_measured_for_longer")
                for attempt in range(40):
                    marks.append(rounds())
                    grow = [b - a for a, b in zip(marks, marks[1:])]
                    if attempt >= 19 and min(grow[-20:]) < limit:
                        break
                grow = grow[-20:]
            if min(grow) >= limit:
                ctx.violate("memory is retained by conversions of the same documents", xml=group[0][:1500], documents=len(group), conversions_per_round=total, blocks_after_each_round=marks,
                            expected="no lasting growth", got="+%d blocks or more in every round" % min(grow))
                if ctx.full():
                    return
        P33.ever_new(ctx)
        P33.one_place(ctx)

    @staticmethod
    def in_bytes(ctx, rep, docs):
        """what grows without a new object: a list that the same thing is appended to, a string that is added to"""
        from . import shapes
        made = shapes.spelt()
        extra = [made[k](3) for k in sorted(made)] + docs[:120]
        work = [x for i, x in enumerate(rep + extra) if i % ctx.shards == ctx.shard and len(x) < 10000]
        n = 60 if ctx.quick else 300
        tracemalloc.start()
        try:
            for x in work:
                marks = []

                def rounds(k):
                    for _ in range(k):
                        sut.convert(x)
                    gc.collect()
                    marks.append(tracemalloc.get_traced_memory()[0])
                    ctx.evaluations += k
                    return marks[-1]
                rounds(n)
                a = rounds(n)
                grown = rounds(2 * n) - a
                k = 2 * n
                while grown > 2 * k and k < 40000:
                    # a cache fills up, what the interpreter keeps for itself levels off
                    k *= 3
                    a = marks[-1]
                    grown = rounds(k) - a
                ctx.count("documents_measured_in_bytes")
                ctx.saw(x)
                ctx.top("largest_lasting_growth_in_bytes", max(0, grown) if k >= 40000 else 0)
                if grown > 2 * k:
                    ctx.violate("memory is retained by conversions of the same documents", xml=x[:1500], conversions=k, traced_bytes=marks, expected="no lasting growth", got="+%d bytes in the last %d conversions" % (grown, k))
                    if ctx.full():
                        return
        finally:
            tracemalloc.stop()

    @staticmethod
    def fresh(r, g, k):
        """a document unlike all others in its texts, names, values and faults"""
        t = g.formula(r.choice([1, 2, 2, 3]))
        for j, n in enumerate(t.walk()):
            if not n.kids and n.tag in ("mi", "mo", "mn", "mtext"):
                n.text = r.choice(["v%dx%d", "%d.%d", "a %d b %d", "%d\u03b1_%d"]) % (k, j)
            if r.random() < 0.3:
                n.attrs[r.choice(["id", "class", "open", "close", "separators", "notation", "mathvariant", "actiontype", "bevelled", "u%d" % k])] = "w%d-%d" % (k, j)
            if r.random() < 0.05:
                n.tag = "e%dn%d" % (k, j) if n.kids else n.tag
        xml = plain(t)
        p = r.random()
        if p < 0.15:
            return "\n" * (k % 50) + " " * (k % 977) + corpus.broken(r, xml)
        if p < 0.25:
            return xml.replace("<m", "<m%d" % k, 1)
        if p < 0.35:
            return xml.replace(">", " q%d=>" % k, 1)
        return xml

    @staticmethod
    def ever_new(ctx):
        r = ctx.rng
        g = Gen(r)
        count = 700 if ctx.quick else 3000
        marks = []
        for rnd in range(6 if ctx.quick else 9):
            for i in range(count):
                sut.convert(P33.fresh(r, g, (ctx.shard * 100 + rnd) * 10000 + i))
            gc.collect()
            marks.append(sys.getallocatedblocks())
        ctx.evaluations += count * len(marks)
        ctx.count("different_documents_measured", count * len(marks))
        grow = [b - a for a, b in zip(marks[2:], marks[3:])]
        ctx.top("largest_lasting_growth_with_new_documents", max(0, min(grow)))
        if min(grow) >= 0.1 * count:
            ctx.violate("memory is retained by conversions of ever new documents", documents_per_round=count, blocks_after_each_round=marks,
                        expected="no lasting growth", got="+%d blocks or more in every round" % min(grow), xml=P33.fresh(r, g, 1))

    @staticmethod
    def places():
        """documents with one place that is never filled in twice alike"""
        out = []
        for tag in ("mi", "mo", "mn", "mtext", "ms", "mspace", "annotation"):
            for t in ("%s", "a%s", "\u03b1 %s", "%s 12", "%%%s", "\u0416%s", "_%s^"):
                out.append("<math><%s>%s</%s></math>" % (tag, t, tag))
        for attr in ("open", "close", "separators"):
            for v in ("%s", "[%s", "%s|", " %s "):
                for rest in ("", ' open="["', ' close="]"'):
                    if rest.strip().startswith(attr):
                        continue
                    out.append('<math><mfenced %s="%s"%s><mi>x</mi><mi>y</mi></mfenced></math>' % (attr, v, rest))
        for v in ("%s", "box %s", "top%s"):
            out.append('<math><menclose notation="%s"><mi>x</mi></menclose></math>' % v)
        for v in ("%s", "bold%s"):
            for tag in ("mi", "mtext", "mn", "mo"):
                out.append('<math><%s mathvariant="%s">x</%s></math>' % (tag, v, tag))
            out.append('<math><maction actiontype="%s"><mi>x</mi><mi>y</mi></maction></math>' % v)
            out.append('<math><mfrac bevelled="%s"><mi>x</mi><mi>y</mi></mfrac></math>' % v)
        out += ['<math %s="1"><mi>x</mi></math>', '<math xmlns:%s="urn:x"><mi>x</mi></math>', '<math id="%s"><mi>x</mi></math>', "<math><%s/></math>", "<math><%s><mi>x</mi></%s></math>",
                "<math><mi>x</mi><!--%s--></math>", "<math><?p %s?><mi>x</mi></math>", "<math><![CDATA[%s]]></math>", "<math><mi>&%s;</mi></math>", "<math><mi>x</mi>%s</math>",
                '<math><mtable %s="1"><mtr><mtd><mi>x</mi></mtd></mtr></mtable></math>', "<!DOCTYPE %s><math><mi>x</mi></math>", "<math><msup><mi>%s</mi></msup></math>", "<math><%s></math>", "%s", "",
                "<math><mfrac><mi>x</mi></mfrac><mi>%s</mi></math>", "<math><mtable><mtr><mtd><mi>%s</mi></mtd></mtr></mtable></math>",
                "<math><munderover><mo>%s</mo><mi>x</mi><mi>y</mi></munderover></math>", "<math><mover><mi>x</mi><mo>%s</mo></mover></math>",
                "<math><mmultiscripts><mi>x</mi><mi>%s</mi><mi>z</mi></mmultiscripts></math>", "<math><mroot><mi>x</mi><mi>%s</mi></mroot></math>",
                "<math><menclose><mi>%s</mi></menclose></math>", "<math><merror><mtext>%s</mtext></merror></math>", "<math><mphantom><mi>%s</mi></mphantom></math>"]
        return out

    @staticmethod
    def one_place(ctx):
        n = 60 if ctx.quick else 400
        for i, p in enumerate(P33.places()):
            if i % ctx.shards != ctx.shard:
                continue
            k = 0
            marks = []
            while True:
                for _ in range(n):
                    k += 1
                    sut.convert(p.replace("%s", "k%dz%d" % (k, i)).replace("%%", "%"))
                gc.collect()
                marks.append(sys.getallocatedblocks())
                grow = [b - a for a, b in zip(marks[1:], marks[2:])]
                if len(grow) >= 3 and min(grow[-3:]) < 0.5 * n or len(grow) > 40 and min(grow[-20:]) < 0.5 * n or len(grow) > 120:
                    break
            ctx.evaluations += k
            ctx.count("different_documents_measured", k)
            ctx.count("places_filled_anew")
            ctx.saw(p)
            if len(grow) > 120:
                ctx.violate("memory is retained by conversions of ever new documents", place=p, documents_per_round=n, blocks_after_each_round=marks[-21:],
                            expected="no lasting growth", got="+%d blocks or more in every round" % min(grow[-20:]), xml=p.replace("%s", "k1"))
                if ctx.full():
                    return


# ---------------------------------------------------------------- P38
class P38:
    pid = "P38"
    rule = ("the most memory that a conversion holds at any moment (traced allocations, expat's included, collector off) is recorded for documents that grow in one dimension: "
            "all ways to be wide, long texts, many formulas, random documents with a wide place, failing documents; what each further item costs at a large size is compared with "
            "what it costs at a small one. For nesting, what each further level costs around a long text is compared with what it costs around a short one. "
            "Non-trivial: every measured family.")
    assumptions = [A_PUBLIC, "memory is what the interpreter's allocators hand out (tracemalloc)", "a factor of 2 for each item, and a tenth of the payload for each level, are tolerated"]
    need = {"wide_families_measured": 90, "deep_families_measured": 75, "random_places_widened": 100, "random_contexts_nested": 100, "conversions_measured": 1500}

    @staticmethod
    def peak(ctx, xml):
        ctx.count("conversions_measured")
        ctx.evaluations += 1
        gc.collect()
        gc.disable()
        tracemalloc.start()
        try:
            a = tracemalloc.get_traced_memory()[0]
            o = sut.convert(xml)
            return tracemalloc.get_traced_memory()[1] - a, o
        finally:
            tracemalloc.stop()
            gc.enable()

    @staticmethod
    def shard(ctx):
        r = ctx.rng

        def leaf():
            return N("mi", text="x")
        for x in corpus.representative():
            sut.convert(x)
        k = 1 if ctx.quick else 4
        work = [("wide", name, lambda n, f=f: plain(f(n)), 500) for name, f in shapes.wide(leaf).items()]
        work += [("wide", name, f, 500) for name, f in sorted(shapes.spelt().items())]
        for tag in ("mi", "mo", "mn", "mtext"):
            for name, f in texts().items():
                work.append(("text", "%s %s" % (tag, name), lambda n, tag=tag, f=f: plain(N("math", [N(tag, text=f(n))])), 1000))
        work += [
            ("wide", "formulas", lambda n: "<d>" + "<math><mi>x</mi></math>" * n + "</d>", 500),
            ("wide", "valueless", lambda n: "<math>" + "<mi a b= c>x</mi>" * n + "</math>", 500),
            ("wide", "mml", lambda n: "<mml:math>" + "<mml:mi>x</mml:mi>" * n + "</mml:math>", 500),
            ("wide", "unclosed", lambda n: "<math>" + "<mi>x</mi>" * n, 500),
            ("wide", "undefined entity", lambda n: "<math>" + "<mi>x</mi>" * n + "&nope;</math>", 500),
            ("wide", "comments", lambda n: "<math><mi>x" + "<!-- a -->" * n + "</mi></math>", 500),
            ("wide", "pieces of text", lambda n: "<math><mtext>" + "a<![CDATA[b ]]>" * n + "</mtext></math>", 500),
            ("wide", "wrong count at the end", lambda n: "<math>" + "<mi>x</mi>" * n + "<mfrac/></math>", 500),
            ("wide", "children of a fraction", lambda n: "<math><mfrac>" + "<mi>x</mi>" * n + "</mfrac></math>", 500),
        ]
        steps = P31.steppers(leaf)
        work += [("deep", name, mk, shapes.LEVELS.get(name, 1)) for name, (mk, _) in steps.items()]
        import random as rnd
        fixed = rnd.Random(ctx.seed)
        names = sorted(steps)
        for _ in range(60 if ctx.quick else 2000):
            some = fixed.sample(names, fixed.choice([2, 2, 3, 4]))
            level = max(shapes.LEVELS.get(x, 1) for x in some)
            turn = [0]

            def mixed(n, inner, some=some, turn=turn):
                turn[0] += 1
                return steps[some[turn[0] % len(some)]][0](1, inner)
            work.append(("deep", " in ".join(some), mixed, level))
        for i, (kind, name, f, base) in enumerate(work):
            if i % ctx.shards != ctx.shard:
                continue
            if kind == "deep":
                P38.deep(ctx, name, f, base)
            else:
                P38.wide(ctx, kind, name, f, base * (1 if kind == "wide" else 2) * (1 if k == 1 else 2), 16 * k)
            if ctx.full():
                return
        for _ in range(ctx.n(160, 4000)):
            P38.place(ctx, r)
            if ctx.full():
                return
        for _ in range(ctx.n(200, 6000)):
            P38.context(ctx, r)
            if ctx.full():
                return

    @staticmethod
    def wide(ctx, kind, name, f, n, times):
        sizes = (n, 2 * n, times * n // 2, times * n)
        m = [P38.peak(ctx, f(s))[0] for s in sizes]
        a, b = (m[1] - m[0]) / n, (m[3] - m[2]) / (sizes[3] - sizes[2])
        ctx.count("wide_families_measured")
        ctx.saw("%s %s" % (kind, name))
        if a > 100:
            ctx.top("cost_of_an_item_per_mille_of_the_cost_at_a_small_size", int(1000 * b / a))
        if ctx.shard == 0:
            ctx.sample(family=name, sizes=list(sizes), most_bytes_held=m)
        if b > 2 * a + 64:
            ctx.violate("peak memory grows faster than the document", family=name, sizes=list(sizes), bytes=m, got="%d bytes for each further item, %d at the small size" % (b, a), xml=f(3)[:500])

    PAY = (100, 40000)

    @staticmethod
    def deep(ctx, name, mk, level):
        d = 25 if level > 2 else 70 // level
        m = []
        for pay in P38.PAY:
            for n in (d // 2, d):
                t = N("mi", text="x" * pay)
                for _ in range(n):
                    t = mk(1, t)
                m.append(P38.peak(ctx, plain(N("math", [t])))[0])
        ctx.count("deep_families_measured")
        ctx.saw("deep " + name)
        P38.level(ctx, name, m, d - d // 2, lambda: "<!-- %s, %d levels, around texts of %s characters -->" % (name, d, P38.PAY))

    @staticmethod
    def level(ctx, name, m, levels, xml):
        short, long_ = (m[1] - m[0]) / levels, (m[3] - m[2]) / levels
        ctx.top("bytes_a_level_costs_more_around_a_long_text", int(long_ - short))
        if long_ - short > P38.PAY[1] / 10:
            ctx.violate("peak memory grows with depth times size", family=name, bytes=m, got="%d bytes for each further level around a text of %d characters, %d around one of %d" % (
                long_, P38.PAY[1], short, P38.PAY[0]), xml=xml())

    @staticmethod
    def holed(r, top):
        g = Gen(r, focus={"mtable": 0.3})
        for _ in range(50):
            t = g.tree(r.choice([1, 2, 2, 3]))
            spots = [(n, i) for n in t.walk() for i, k in enumerate(n.kids) if k.tag != "mprescripts"]
            if spots and t.size() <= top and sum(len(n.text) for n in t.walk()) < 300:
                par, at = r.choice(spots)
                return t, par, at
        return None, None, None

    @staticmethod
    def place(ctx, r):
        t, par, at = P38.holed(r, 40)
        if t is None:
            return
        tag = r.choice(["mrow", "mrow", "mstyle", "mfenced", "msqrt", "mtext", "mtd", "maction"])
        kids = [plain(k) for k in (N("mi", text="x"), N("mo", text="+"), N("mn", text="12"), N("mfrac", [N("mi", text="a"), N("mi", text="b")]))]
        kid = r.choice(kids)
        par.kids[at] = N("mi", text="HOLE")
        frame = plain(N("math", [t]))
        if tag == "mtext":
            kid = r.choice(["ab ", "\u03b1", "a%"])

        def f(n):
            return frame.replace("<mi>HOLE</mi>", "<%s>%s</%s>" % (tag, kid * n, tag))
        if "<mi>HOLE</mi>" not in frame:
            return
        ctx.count("random_places_widened")
        P38.wide(ctx, "place", f(1), f, 250, 16)

    @staticmethod
    def context(ctx, r):
        t, par, at = P38.holed(r, 16)
        if t is None:
            return
        par.kids[at] = hole = N("mi", text="x")
        levels = next(d for n, d in P31.depths(t) if n is hole)
        d = max(4, min(24, 60 // levels))
        m = []
        for pay in P38.PAY:
            for k in (d // 2, d):
                out = N("mi", text="x" * pay)
                for _ in range(k):
                    par.kids[at] = out
                    out = t.clone()
                par.kids[at] = hole
                m.append(P38.peak(ctx, plain(N("math", [out])))[0])
        ctx.count("random_contexts_nested")
        ctx.saw("context " + plain(t))
        P38.level(ctx, plain(t), m, d - d // 2, lambda: plain(t)[:1500])
