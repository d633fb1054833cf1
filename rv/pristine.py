"""The reference for histories and schedules: what a process that has never
converted anything answers. A helper process is forked before the first
conversion; for every question it forks once more, converts, and reports."""
import os
import pickle
import signal
import struct


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<I", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _recv(fd):
    def exact(n):
        out = b""
        while len(out) < n:
            p = os.read(fd, n - len(out))
            if not p:
                raise EOFError
            out += p
        return out
    return pickle.loads(exact(struct.unpack("<I", exact(4))[0]))


class Pristine:
    def __init__(self):
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(b)
            os.close(c)
            try:
                self._serve(a, d)
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.w, self.r = b, c
        self.known = {}
        self.asked = 0

    @staticmethod
    def _serve(rd, wr):
        from . import sut
        while True:
            try:
                xml = _recv(rd)
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    signal.alarm(120)
                    docs = xml if isinstance(xml, list) else [xml]
                    for d in docs:
                        o = sut.convert(d)
                    _send(wr, tuple(o))
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)

    def ask(self, xml):
        r = self.known.get(xml)
        if r is None:
            self.asked += 1
            _send(self.w, xml)
            r = self.known[xml] = _recv(self.r)
        return r

    def after(self, docs):
        """the outcome of the last of these documents, converted one after another"""
        _send(self.w, list(docs))
        return _recv(self.r)

    def close(self):
        os.close(self.w)
        os.close(self.r)
        os.waitpid(self.pid, 0)


def in_child(fn, patience):
    """Runs fn() in a forked child: (True, result), or (False, why)."""
    import select
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            signal.signal(signal.SIGVTALRM, signal.SIG_IGN)
            try:
                _send(wr, (True, fn()))
            except BaseException as e:
                import traceback
                _send(wr, (None, traceback.format_exc()))
        finally:
            os._exit(0)
    os.close(wr)
    try:
        ready, _, _ = select.select([rd], [], [], patience)
        if not ready:
            return False, "no answer within %d s" % patience
        try:
            ok, res = _recv(rd)
        except EOFError:
            return False, "the process died"
        if ok is None:
            raise RuntimeError(res)
        return ok, res
    finally:
        os.close(rd)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
