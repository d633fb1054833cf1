"""Executable specification: logical document -> LaTeX, or the arity error.
Written from the property statements; it shares no code with the library."""
import re

from .lexicon import collapse, escape_raw, token


class Arity(Exception):
    def __init__(self, tag, want, got, how="exactly"):
        Exception.__init__(self, tag, want, got, how)
        self.tag, self.want, self.got, self.how = tag, want, got, how

    def message(self):
        return "%s tag must have %s %d children. It's actually %d" % (self.tag, self.how, self.want, self.got)


MI_VARIANT = {
    "bold": "\\mathbf{%s}", "italic": "\\mathit{%s}", "bold-italic": "\\mathbf{\\mathit{%s}}",
    "double-struck": "\\mathbb{%s}", "bold-fraktur": "\\mathbf{\\mathfrak{%s}}", "script": "\\mathcal{%s}",
    "bold-script": "\\mathbf{\\mathcal{%s}}", "fraktur": "\\mathfrak{%s}", "sans-serif": "\\mathsf{%s}",
    "bold-sans-serif": "\\mathbf{\\mathsf{%s}}", "sans-serif-italic": "\\mathsf{\\mathit{%s}}",
    "sans-serif-bold-italic": "\\mathbf{\\mathsf{\\mathit{%s}}}", "monospace": "\\mathtt{%s}",
}
TEXT_VARIANT = {
    "bold": "\\textbf{%s}", "italic": "\\textit{%s}", "bold-italic": "\\textbf{\\textit{%s}}",
    "double-struck": "\\mathbb{%s}", "monospace": "\\mathtt{%s}", "fraktur": "\\mathfrak{%s}",
    "bold-fraktur": "\\mathfrak{%s}",
}
ENCLOSE = {
    "actuarial": "\\overline{\\left.%s\\right|}", "radical": "\\sqrt{%s}", "box": "\\boxed{%s}",
    "roundedbox": "\\boxed{%s}", "circle": "\\boxed{%s}", "left": "\\left|%s", "right": "%s\\right|",
    "top": "\\overline{%s}", "bottom": "\\underline{%s}", "updiagonalstrike": "\\cancel{%s}",
    "downdiagonalstrike": "\\bcancel{%s}", "updiagonalarrow": "\\cancelto{}{%s}",
    "verticalstrike": "\\hcancel{%s}", "horizontalstrike": "\\hcancel{%s}",
    "madruwb": "\\underline{%s\\right|}", "phasorangle": "{\\angle \\underline{%s}}",
}
LONGDIV = "\\overline{\\left.\\right)%s}"
ACCENTS = ("\\hat", "\\bar", "\\underbrace", "\\overbrace", "\\overline", "\\underline")
MATRIX = {("(", ")"): "pmatrix", ("[", "]"): "bmatrix", ("{", "}"): "Bmatrix", ("|", "|"): "vmatrix",
          ("||", "||"): "Vmatrix"}
INVISIBLE = ("mphantom", "annotation", "annotation-xml")
NOT_TRANSPARENT = frozenset("""mi mo mn mtext msqrt mfenced mfrac mroot menclose merror mphantom annotation
annotation-xml msup msub msubsup mmultiscripts munderover mtable mtr mover munder""".split())
FIXED_ARITY = {"mfrac": 2, "mroot": 2, "msup": 2, "msub": 2, "mover": 2, "munder": 2, "msubsup": 3, "munderover": 3}


def attr(n, name, default=""):
    v = n.attrs.get(name)
    if v is None:
        return default
    return "" if v == name else v


def fill(template, s):
    a, b = template.split("%s")
    return a + s + b


def parens(s):
    return "\\left(" + s + "\\right)"


def parens_if_long(s):
    return parens(s) if len(s) > 1 else s


def has_table(n):
    return any(d.tag == "mtable" for d in n.walk())


def mi(text, variant=""):
    s = token("mi", text)
    t = MI_VARIANT.get(variant)
    return fill(t, s) if t else s


def mtext(text, variant):
    s = re.sub(r"\s", " ", text.strip())
    segs = []
    for ch in s:
        plain = ch == " " or (ch.isascii() and ch.isalnum())
        if plain and segs and segs[-1][0]:
            segs[-1][1] += ch
        else:
            segs.append([plain, ch])
    out = ""
    prev = None
    for plain, t in segs:
        piece = fill(TEXT_VARIANT.get(variant, "\\text{%s}"), t) if plain else mi(t)
        if prev is not None and re.search(r"\\[a-zA-Z]+$", prev) and piece[:1].isalpha():
            out += " "
        out += piece
        prev = piece
    return out


def seen_through(n):
    while len(n.kids) == 1 and n.tag not in NOT_TRANSPARENT:
        n = n.kids[0]
    return n


class Model:
    def document(self, roots):
        out = [self.formula(r) for r in roots]
        return " ".join(o for o in out if o)

    def formula(self, n):
        return collapse(self.join(n, False))

    def join(self, n, t, sep=" "):
        return sep.join(self.r(k, t) for k in n.kids)

    def base(self, n, t):
        s = self.r(n, t)
        if not s.strip():
            return "{}"
        return parens_if_long(s) if len(seen_through(n).kids) > 1 else s

    def r(self, n, t):
        tag = n.tag
        k = n.kids
        want = FIXED_ARITY.get(tag)
        if want is not None and len(k) != want:
            raise Arity(tag, want, len(k))
        if tag == "mi":
            return mi("" if k else n.text, attr(n, "mathvariant"))
        if tag == "mo":
            return token("mo", "" if k else n.text)
        if tag == "mn":
            return token("mn", "" if k else n.text)
        if tag == "mtext":
            return mtext("" if k else n.text, attr(n, "mathvariant"))
        if tag in INVISIBLE:
            return ""
        if tag == "math":
            return collapse(self.join(n, t))
        if tag == "msqrt":
            return "\\sqrt{" + self.join(n, t) + "}"
        if tag == "mroot":
            body = self.r(k[0], t)
            idx = self.r(k[1], t)
            return "\\sqrt[" + ("{" + idx + "}" if "]" in idx else idx) + "]{" + body + "}"
        if tag == "mfrac":
            a, b = self.r(k[0], t), self.r(k[1], t)
            if attr(n, "bevelled") == "true":
                return parens_if_long(a) + "/" + parens_if_long(b)
            return "\\frac{" + a + "}{" + b + "}"
        if tag == "msup":
            return self.base(k[0], t) + "^{" + self.r(k[1], t) + "}"
        if tag == "msub":
            return self.base(k[0], t) + "_{" + self.r(k[1], t) + "}"
        if tag in ("msubsup", "munderover"):
            b, lo = self.base(k[0], t), self.r(k[1], t)
            return b + "_{" + lo + "}^{" + self.r(k[2], t) + "}"
        if tag in ("mover", "munder"):
            body, acc = self.r(k[0], t), self.r(k[1], t)
            if acc in ACCENTS:
                return acc + "{" + body + "}"
            return ("\\overset{" if tag == "mover" else "\\underset{") + acc + "}{" + body + "}"
        if tag == "mmultiscripts":
            return self.multi(n, t)
        if tag == "mfenced":
            return self.fenced(n, t)
        if tag == "mtable":
            s = self.join(n, True, " \\\\\n")
            return "\\begin{matrix}" + s + "\\end{matrix}" if t else s
        if tag == "mtr":
            return self.join(n, t, " & ")
        if tag == "maction":
            if attr(n, "actiontype") in ("toggle", ""):
                return self.join(n, t, " \\Longrightarrow ")
            if not k:
                raise Arity("maction", 1, 0, "at least")
            return self.r(k[0], t)
        if tag == "menclose":
            return fill(ENCLOSE.get(attr(n, "notation", "longdiv"), LONGDIV), self.join(n, t))
        if tag == "merror":
            return "\\color{red}{" + self.join(n, t) + "}"
        return self.join(n, t)

    def multi(self, n, t):
        k = n.kids
        if len(k) < 3:
            raise Arity("mmultiscripts", 3, len(k), "at least")
        rest = k[1:]
        cut = next((i for i, c in enumerate(rest) if c.tag == "mprescripts"), None)
        post, pre = (rest, []) if cut is None else (rest[:cut], rest[cut + 1:])

        def pairs(cs):
            s = [self.r(c, t) for c in cs]
            if len(s) % 2:
                s.append("")
            return ["_{%s}^{%s}" % (s[i], s[i + 1]) for i in range(0, len(s), 2)]
        b = self.base(k[0], t)
        if len(seen_through(k[0]).kids) <= 1 and re.search(r"\s", b):
            b = parens(b)
        return "".join("\\" + p for p in pairs(pre)) + b + "{}".join(pairs(post))

    def fenced(self, n, t):
        o, c = attr(n, "open"), attr(n, "close")
        parts = [self.r(x, t) for x in n.kids]
        if any(has_table(x) for x in n.kids):
            env = MATRIX.get((o, c)) or ("matrix" if o != c else "bmatrix")
            s = "\\begin{%s}\n%s\n\\end{%s}" % (env, " ".join(parts), env)
            return "\\left%s%s\\right%s" % (o, s, c) if env == "matrix" else s
        seps = [escape_raw(ch) for ch in attr(n, "separators") if not ch.isspace()] or [","]
        s = ""
        for i, p in enumerate(parts):
            s += p
            if i < len(parts) - 1:
                sep = seps[min(i, len(seps) - 1)]
                s += " " + sep if sep.isalpha() and re.search(r"\\[a-zA-Z]+$", p) else sep
        return "\\left%s%s\\right%s" % (o or "(", s, c or ")")


def expect(roots):
    """roots: the outermost math elements, in order."""
    return Model().document(roots)
