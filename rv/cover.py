"""Reach, not verdict: which lines and branches of the library the workload has
driven (sys.monitoring; each location is switched off after its first sighting)."""
import os
import sys

from . import sut

TOOL = 3
mon = sys.monitoring


class Cover:
    def __init__(self):
        self.seen = set()
        self.new = 0
        self.on = False
        self.root = os.path.realpath(sut.PKG_DIR) + os.sep
        self.mine = {}

    def _is_mine(self, code):
        f = code.co_filename
        m = self.mine.get(f)
        if m is None:
            m = self.mine[f] = os.path.realpath(f).startswith(self.root)
        return m

    def _line(self, code, line):
        if self._is_mine(code):
            k = (code.co_filename, line)
            if k not in self.seen:
                self.seen.add(k)
                self.new += 1
        return mon.DISABLE

    def _branch(self, code, off, dest):
        if not self._is_mine(code):
            return mon.DISABLE
        k = (code.co_filename, code.co_firstlineno, off, dest)
        if k not in self.seen:
            self.seen.add(k)
            self.new += 1
            self.cnt[(code, off)] = self.cnt.get((code, off), 0) + 1
        if self.cnt.get((code, off), 0) >= 2:
            return mon.DISABLE

    def start(self):
        self.cnt = {}
        mon.use_tool_id(TOOL, "rv-cover")
        mon.register_callback(TOOL, mon.events.LINE, self._line)
        mon.register_callback(TOOL, mon.events.BRANCH, self._branch)
        mon.set_events(TOOL, mon.events.LINE | mon.events.BRANCH)
        self.on = True

    def stop(self):
        if self.on:
            mon.set_events(TOOL, 0)
            mon.free_tool_id(TOOL)
            self.on = False

    def take_new(self):
        n, self.new = self.new, 0
        return n

    def lines(self):
        return {(os.path.relpath(k[0], sut.PKG_DIR), k[1]) for k in self.seen if len(k) == 2}


def code_lines():
    """(file, line) of every executable line inside functions of the library."""
    out = set()
    for d, _, fs in os.walk(sut.PKG_DIR):
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(d, f)
                try:
                    top = compile(open(p, encoding="utf-8").read(), p, "exec")
                except SyntaxError:
                    continue
                stack = [c for c in top.co_consts if hasattr(c, "co_code")]
                while stack:
                    c = stack.pop()
                    stack.extend(x for x in c.co_consts if hasattr(x, "co_code"))
                    if not c.co_flags & 0x1:      # class bodies run at import
                        continue
                    for _, _, line in c.co_lines():
                        if line and line != c.co_firstlineno:
                            out.add((os.path.relpath(p, sut.PKG_DIR), line))
    return out
