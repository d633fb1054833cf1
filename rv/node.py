"""Logical MathML documents, and their many XML spellings."""
import re

TOKENS = ("mi", "mo", "mn", "mtext", "ms", "mspace", "mglyph")


class N:
    """An element: either children (kids) or text."""
    __slots__ = ("tag", "attrs", "kids", "text")

    def __init__(self, tag, kids=(), text="", attrs=None):
        self.tag = tag
        self.kids = list(kids)
        self.text = text
        self.attrs = dict(attrs or {})

    def clone(self):
        return N(self.tag, [k.clone() for k in self.kids], self.text, self.attrs)

    def walk(self):
        stack = [self]
        while stack:
            n = stack.pop()
            yield n
            stack.extend(reversed(n.kids))

    def size(self):
        return sum(1 for _ in self.walk())

    def depth(self):
        best = 0
        stack = [(self, 1)]
        while stack:
            n, d = stack.pop()
            if d > best:
                best = d
            for k in n.kids:
                stack.append((k, d + 1))
        return best

    def tags(self):
        return {n.tag for n in self.walk()}

    def __repr__(self):
        return plain(self)


def esc_text(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace("\r", "&#13;")


def esc_attr(s, q='"'):
    s = s.replace("&", "&amp;").replace("<", "&lt;").replace("\n", "&#10;").replace("\t", "&#9;").replace("\r", "&#13;")
    return s.replace(q, "&quot;" if q == '"' else "&apos;")


def plain(root):
    """The plainest spelling. Iterative, so that depth is not bounded by ours."""
    out = []
    stack = [root]
    while stack:
        n = stack.pop()
        if isinstance(n, str):
            out.append(n)
            continue
        a = "".join(' %s="%s"' % (k, esc_attr(v)) for k, v in n.attrs.items())
        if not n.kids and n.text == "":
            out.append("<%s%s></%s>" % (n.tag, a, n.tag))
            continue
        out.append("<%s%s>" % (n.tag, a))
        stack.append("</%s>" % n.tag)
        if n.kids:
            stack.extend(reversed(n.kids))
        else:
            stack.append(esc_text(n.text))
    return "".join(out)


_COMMENTS = ["<!---->", "<!-- x -->", "<!-- <mi>NO</mi> -->", "<!-- & < > \" ' -->", "<!--mml:a -->", "<!--\n-->",
             "<!-- &nosuch; -->", "<!-- - - ]]> -->"]
_PIS = ["<?pi?>", "<?pi data <mi>NO</mi> ?>", "<?x y=\"mml:\"?>"]


class Spelling:
    """Serialises a logical tree with random spelling choices that XML says mean
    the same. `on` is the set of variations allowed."""
    ALL = frozenset(["quote", "space", "order", "charref", "cdata", "comment", "pi", "selfclose", "indent",
                     "entity", "tagspace", "eol", "tokenpad"])

    def __init__(self, rng, on=None, entities=None):
        self.r = rng
        self.on = Spelling.ALL if on is None else frozenset(on)
        self.entities = entities or {}
        self.count = {}

    def did(self, what):
        self.count[what] = self.count.get(what, 0) + 1

    def maybe(self, what, p):
        if what in self.on and self.r.random() < p:
            self.did(what)
            return True
        return False

    def _ws(self):
        return self.r.choice([" ", "  ", "\n", "\n  ", "\t", "\r\n", "\r"] if "eol" in self.on else [" ", "  ", "\t", "\n"])

    def chars(self, s, attr=None):
        out = []
        for ch in s:
            if self.maybe("charref", 0.12) or ch == "\r":
                f = self.r.choice(["&#%d;", "&#x%x;", "&#x%X;", "&#0%d;", "&#x0%x;"])
                out.append(f % ord(ch))
            elif ch in self.entities and self.maybe("entity", 0.5):
                out.append("&%s;" % self.entities[ch])
            elif ch == "&":
                out.append("&amp;")
            elif ch == "<":
                out.append("&lt;")
            elif ch == ">" and attr is None:
                out.append("&gt;")
            elif ch == ">":
                out.append(self.r.choice([">", "&gt;"]))
            elif attr and ch == attr:
                out.append("&quot;" if ch == '"' else "&apos;")
            elif attr and ch in "\n\t":
                out.append("&#%d;" % ord(ch))
            else:
                out.append(ch)
        return "".join(out)

    def burst(self, spaced=True):
        """many nodes that mean nothing, in a row"""
        kinds = [k for k in ("comment", "pi") if k in self.on]
        if not kinds or self.r.random() >= self.bursts:
            return ""
        n = self.r.choice([5, 8, 9, 10, 16, 17, 20, 21, 25, 32, 33, 50, 64, 65, 100, 101, 129, 257])
        self.did("burst of meaningless nodes")
        k = self.r.choice(kinds)
        sep = self.r.choice(["", "", " ", "\n"]) if spaced and "indent" in self.on else ""
        return sep.join(self.r.choice(_COMMENTS if k == "comment" else _PIS) for _ in range(n))

    bursts = 0.0

    def textspell(self, s, pad=True):
        parts = []
        if self.maybe("comment", 0.05):
            parts.append(self.r.choice(_COMMENTS))
        i = 0
        while i < len(s):
            j = len(s) if self.r.random() < 0.6 else self.r.randint(i + 1, len(s))
            piece = s[i:j]
            if "]]>" not in piece and "\r" not in piece and self.maybe("cdata", 0.12):
                parts.append("<![CDATA[%s]]>" % piece)
            else:
                parts.append(self.chars(piece))
            if j < len(s) or self.r.random() < 0.1:
                if self.bursts:
                    parts.append(self.burst(False))
                if self.maybe("comment", 0.08):
                    parts.append(self.r.choice(_COMMENTS))
                if self.maybe("pi", 0.05):
                    parts.append(self.r.choice(_PIS))
            i = j
        if pad and self.maybe("tokenpad", 0.1):
            parts.insert(0, self._ws())
        if pad and self.maybe("tokenpad", 0.1):
            parts.append(self._ws())
        return "".join(parts)

    def attrs(self, attrs):
        items = list(attrs.items())
        if len(items) > 1 and self.maybe("order", 0.5):
            self.r.shuffle(items)
        out = []
        for k, v in items:
            q = "'" if self.maybe("quote", 0.4) else '"'
            eq = "="
            if self.maybe("tagspace", 0.15):
                eq = self.r.choice([" =", "= ", " = ", "\n=\n"])
            sp = self._ws() if self.maybe("tagspace", 0.2) else " "
            out.append("%s%s%s%s%s%s" % (sp, k, eq, q, self.chars(v, q), q))
        return "".join(out)

    def between(self):
        out = ""
        if self.maybe("indent", 0.25):
            out += self._ws()
        if self.maybe("comment", 0.04):
            out += self.r.choice(_COMMENTS)
        if self.maybe("pi", 0.03):
            out += self.r.choice(_PIS)
        if self.bursts:
            out += self.burst()
        return out

    def element(self, root):
        out = []
        stack = [root]
        while stack:
            n = stack.pop()
            if isinstance(n, str):
                out.append(n)
                continue
            tail = self._ws() if self.maybe("tagspace", 0.1) else ""
            if not n.kids and n.text == "":
                if self.maybe("selfclose", 0.5):
                    out.append("<%s%s%s/>" % (n.tag, self.attrs(n.attrs), tail))
                else:
                    out.append("<%s%s%s></%s>" % (n.tag, self.attrs(n.attrs), tail, n.tag))
                continue
            out.append("<%s%s%s>" % (n.tag, self.attrs(n.attrs), tail))
            tail2 = self._ws() if self.maybe("tagspace", 0.05) else ""
            stack.append("</%s%s>" % (n.tag, tail2))
            if n.kids:
                stack.append(self.between())
                for k in reversed(n.kids):
                    stack.append(k)
                    stack.append(self.between())
            else:
                # inner padding of text that itself starts or ends with white space is
                # still trimmed, so padding never changes the meaning
                stack.append(self.textspell(n.text))
        return "".join(out)


def parse_plain(xml):
    """XML text -> N (used by replays and seeds only; mixed text is dropped
    like the element-content model says)."""
    import xml.etree.ElementTree as ET

    def conv(e):
        kids = [conv(k) for k in e]
        return N(re.sub(r"^\{.*\}", "", e.tag), kids, "" if kids else (e.text or ""), dict(e.attrib))
    return conv(ET.fromstring(xml))
