"""The system under test: the code of the current /repo working tree, through
its public entry point only."""
import os
import sys

REPO = os.environ.get("RV_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG_DIR = os.path.join(SRC, "mathml_to_latex")

sys.dont_write_bytecode = True
for _p in (REPO, SRC):
    if _p in sys.path:
        sys.path.remove(_p)
    sys.path.insert(0, _p)

import importlib  # noqa: E402

try:
    _mod = importlib.import_module("mathml_to_latex.converter")
except ImportError:
    _mod = importlib.import_module("src.mathml_to_latex.converter")

if not os.path.realpath(_mod.__file__).startswith(os.path.realpath(REPO) + os.sep):
    raise SystemExit("harness error: imported %s, not the code of %s" % (_mod.__file__, REPO))

MathMLToLaTeX = _mod.MathMLToLaTeX


class Outcome(tuple):
    """('ok', latex) or ('err', exception type name, message)"""
    __slots__ = ()

    @property
    def ok(self):
        return self[0] == "ok"

    @property
    def text(self):
        return self[1] if self.ok else None

    @property
    def error(self):
        return None if self.ok else self[1]

    def show(self):
        return self[1] if self.ok else "%s: %s" % (self[1], self[2])


import signal  # noqa: E402

CPU_LIMIT = 20.0      # seconds of CPU; a conversion here needs milliseconds
_guard = [False]


class NoAnswer(BaseException):
    pass


def _fire(*_):
    raise NoAnswer()


def guard():
    """From now on a conversion that burns CPU_LIMIT seconds of this process's CPU
    time is given up (main thread only)."""
    signal.signal(signal.SIGVTALRM, _fire)
    _guard[0] = True


def outcome(call):
    try:
        return ("ok", call())
    except Exception as e:
        return ("err", type(e).__name__, str(e))


_box = [None]


def blackbox(shared):
    """From now on the text of the last conversion is left in shared memory, for the
    case that the interpreter dies in it."""
    _box[0] = shared


def _note(xml):
    m = _box[0]
    try:
        b = xml.encode("utf-8", "surrogatepass")[:len(m) - 8]
        m[0:8 + len(b)] = len(b).to_bytes(8, "little") + b
    except (AttributeError, ValueError):
        pass


def last(shared):
    n = int.from_bytes(shared[:8], "little")
    return shared[8:8 + n].decode("utf-8", "surrogatepass") if n and n <= len(shared) - 8 else None


def convert(xml):
    if _box[0] is not None:
        _note(xml)
    if _guard[0]:
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        try:
            r = MathMLToLaTeX.convert(xml)
        finally:
            if _guard[0]:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except NoAnswer:
        return Outcome(("err", "NoAnswer", "no answer within %d s of CPU time" % CPU_LIMIT))
    except Exception as e:
        return Outcome(("err", type(e).__name__, str(e)))
    if not isinstance(r, str):
        return Outcome(("err", "NotAString", type(r).__name__))
    return Outcome(("ok", r))
