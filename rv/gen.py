"""Seeded generators of logical MathML documents."""
import time

from .harvest import NAMES, NEW_WORDS, WORDS, cased, embed, length, size, unused_attribute
from .lexicon import LEX, xml_char
from .node import N

FENCES = ["(", ")", "[", "]", "{", "}", "|", "||", "<", ">", "", "\u27e8", "\u27e9", "\u2308", "/", ".", "\\{", "\\|",
          "a", "\u2016", "((", "]]"]
SEPS = [",", ";", "", "|", ",;", ";,|", "  ", ", ", "#", "%&", "_^", "~", "\\", "ab", " ; | ", "\u00a0", "separators",
        "+-*/", "{", "},", "$", ",,,;", "\u2063", ".", "::"]
NOTATIONS = ["longdiv", "actuarial", "radical", "box", "roundedbox", "circle", "left", "right", "top", "bottom",
             "updiagonalstrike", "downdiagonalstrike", "updiagonalarrow", "verticalstrike", "horizontalstrike", "madruwb",
             "phasorangle", "", "notation", "box circle", "BOX", "unknown", " top", "updiagonal", "leftright"]
VARIANTS = ["normal", "bold", "italic", "bold-italic", "double-struck", "bold-fraktur", "script", "bold-script", "fraktur",
            "sans-serif", "bold-sans-serif", "sans-serif-italic", "sans-serif-bold-italic", "monospace", "", "mathvariant",
            "Bold", "BOLD", " bold", "bold italic", "initial", "tailed", "looped", "stretched", "nosuch"]
ACTIONS = ["toggle", "statusline", "tooltip", "input", "highlight", "", "actiontype", "Toggle", "nosuch"]
TRANSPARENT = ["mrow", "mstyle", "mpadded", "semantics", "mtd", "unknown", "xyz", "m", "MROW", "none", "maligngroup", "mrowx",
               "mprescripts-x", "mlabeledtr", "mstack", "ms2"]
IRRELEVANT = [("class", "a b"), ("id", "x1"), ("style", "color: red"), ("display", "block"), ("xml:lang", "en"),
              ("href", "http://e.x/?a=1&b=2"), ("data-x", "<\">"), ("width", "0"), ("height", "1em"), ("mathcolor", "red"),
              ("linethickness", "0"), ("stretchy", "false"), ("form", "prefix"), ("fence", "true"), ("separator", "true"),
              ("accent", "true"), ("rowspan", "2"), ("columnalign", "left right"), ("dir", "rtl"), ("displaystyle", "true"),
              ("selection", "2"), ("subscriptshift", "3pt"), ("alttext", "x^2 & y"), ("encoding", "TeX"), ("mathsize", "big"),
              ("other", "other"), ("Open", "["), ("Close", "]"), ("OPEN", "<"), ("bevelledx", "true"), ("notationx", "top"),
              ("separator", ";"), ("mathvariants", "bold"), ("actiontypes", "toggle"), ("innerTable", "innerTable")]
MEANINGFUL = {"mfenced": ("open", "close", "separators"), "menclose": ("notation",), "mi": ("mathvariant",),
              "mtext": ("mathvariant",), "mfrac": ("bevelled",), "maction": ("actiontype",)}
GREEK = "\u03b1\u03b2\u03b3\u03b4\u03c0\u03c6\u0393\u0394\u03a9"
PUNCT = "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"
OTHER = "\u0416\u05d0\u4e2d\u3042\u20ac\u00a3\u00e9\u00f1\u1e69\u212b\ud7a3\uf8ff\U0001f600\U0001d400\U0001d6fc\u2009\u200b\u00a0\u0301\u0338"
SYMS = "\u2211\u222b\u221e\u2264\u2260\u2192\u21d2\u2208\u2205\u00b1\u00d7\u00f7\u2212\u2032\u2026\u22ef\u2061\u2062\u2063\u2064\u00af\u203e\u23de\u23df\u005f\u02c6\u02d9\u2245"
ACCENT_MO = ["^", "\u02c6", "\u00af", "_", "\u203e", "\u23de", "\u23df", "\u0332", "\u0305", "~", "\u2192", "\u02d9", "-", "\u02dc"]
WORDY = ["x", "y", "z", "a", "b", "n", "i", "sin", "cos", "lim", "log", "max", "ABC", "foo", "Re", "alpha", "e", "pi", "dx", "mod",
         "if", "and", "or", "det", "arg", "exp", "inf", "sup", "gcd", "min", "begin", "frac", "math"]
NUMS = ["1,000,000,000,000,000,000,000,000,000,000,000.0", "3.14159265358979323846264338327950288419716939937510", "1e400", "1'000", "1.000.000,00", "0b101", "1_000",
        "12:30", "1 1/2", "-1.5E-10", "123456789012345678901234567890", "0.1000", "1e5", "00.50", "1/3", "12%", "\u221e", "NaN", "1.", ".5",
        "0", "1", "2", "3", "10", "42", "3.14", "1,000", "1.5e10", "007", "\u00bd", "\u2155", "-1", "+7", "0x1F", "1 000", "\u0663",
        "\uff11", "\u00b2", "\u2082", "12345678901234567890", "1/2", ".5", "5.", "\u2169", "%", "100%", "$5", "#1"]
KEYS = {k: list(v) for k, v in LEX.items()}
# values that careless parsing, formatting or arithmetic trips over
ODD = ["&", "&x", "&#40;", "&#x28;", "&lt;", "&lparen;", "&amp;", "<", "<mi>x</mi>", "<!--", "]]>", "-1", "0", "00", "1", "+1", "2", "1.5", "1e999", "-0", "inf", "nan", "0x10", "1_000", "\u00b2", "\u0663", "\u2460", "9" * 30, "0" + "1" * 4400, "7" * 5000, "%s", "%d", "%", "{}", "{0}", "{0.__class__}",
       "{name}", "$1", "\\1", "\\g<0>", "[", "(", "*", "+", "?", "a|b", "(?", "[a-", "{2}", "\\", "\\d", "^$", ".", "None", "True", "null", "undefined", "self", "__class__", "__init__",
       "a=b", "a;b", "a:b", "#", "#innerTable", "//", "/*", "'", "''", "\"", "`", ",", ",,", "\u0130", "\u00df", "\u017f", "\u212a", "\ufb01", "\u01c5", "a\u0301", "\u200d", "\U0001f468\u200d\U0001f469", "x" * 1000]
ALLKEYS = sorted(set(KEYS["mi"]) | set(KEYS["mo"]) | set(KEYS["mn"]))


class Gen:
    """focus: {tag: weight} raises the share of those elements."""
    WEIGHTS = {"mrow": 8, "mfrac": 4, "msqrt": 3, "mroot": 3, "msup": 5, "msub": 4, "msubsup": 3, "munderover": 3, "mover": 3,
               "munder": 3, "mmultiscripts": 2, "mfenced": 5, "mtable": 2, "menclose": 3, "merror": 1, "mphantom": 1,
               "maction": 2, "math": 0.6, "annot": 0.6, "wrap": 4, "stray": 0.5}

    def __init__(self, rng, focus=None, only=None, markers=False, sane=False, tokens=None, texts=None):
        self.r = rng
        w = dict(self.WEIGHTS)
        if only is not None:
            w = {k: v for k, v in w.items() if k in only}
        if focus:
            for k, v in focus.items():
                w[k] = w.get(k, 1) * v
        self.kinds = [k for k, v in w.items() if v > 0]
        self.w = [w[k] for k in self.kinds]
        self.markers = markers
        self.nmark = 0
        self.sane = sane
        self.tokens = tokens

    # ---- tokens
    def marker(self):
        self.nmark += 1
        return "Q%dq" % self.nmark

    def text(self):
        r = self.r
        if NEW_WORDS and r.random() < 0.1:
            return r.choice([str, str, lambda w: embed(r, [w]), lambda w: cased(r, w)])(r.choice(NEW_WORDS))
        p = r.random()
        if p < 0.3:
            return r.choice(WORDY)
        if p < 0.42:
            return r.choice(NUMS)
        if p < 0.52:
            return r.choice(SYMS)
        if p < 0.6:
            return r.choice(GREEK)
        if p < 0.66:
            return r.choice(PUNCT)
        if p < 0.72:
            return r.choice(OTHER)
        if p < 0.8:
            return r.choice(ALLKEYS)
        if p < 0.86 and WORDS:
            return r.choice(WORDS)
        if p < 0.87:
            return r.choice(ODD)
        if p < 0.9:
            return self.char()
        if p < 0.93:
            return ""
        return self.longtext()

    def char(self):
        r = self.r
        while True:
            p = r.random()
            cp = r.randrange(0x20, 0x250) if p < 0.3 else r.randrange(0x2000, 0x2C00) if p < 0.6 else \
                r.randrange(0x1D400, 0x1D800) if p < 0.75 else r.randrange(0x20, 0x10000) if p < 0.9 else r.randrange(0x10000, 0x110000)
            if xml_char(cp):
                return chr(cp)

    def longtext(self):
        r = self.r
        n = r.choice([2, 2, 3, 3, 4, 5, 8, 13, 30, 80]) if r.random() < 0.97 else length(r, 300)
        if n > 1500:
            return r.choice([r.choice("aZ0\u4e2d-"), r.choice(WORDY) + " ", r.choice(SYMS)]) * n
        out = []
        for _ in range(n):
            p = r.random()
            out.append(r.choice("abcXYZ0189") if p < 0.45 else r.choice(PUNCT) if p < 0.6 else r.choice(" \t\n\u00a0 ") if p < 0.72
                       else r.choice(GREEK + SYMS) if p < 0.85 else self.char() if p < 0.93 else r.choice(WORDY))
        return "".join(out)

    def token(self):
        r = self.r
        if self.markers:
            return N(r.choice(["mi", "mi", "mn", "mo", "mtext"]), text=self.marker())
        if self.tokens:
            return self.tokens(self)
        p = r.random()
        if p < 0.42:
            n = N("mi", text=self.text() if r.random() < 0.6 else r.choice(WORDY))
            if r.random() < 0.2:
                n.attrs["mathvariant"] = self.value(VARIANTS)
        elif p < 0.66:
            n = N("mo", text=self.text() if r.random() < 0.5 else r.choice("+-=<>(),|*/" + SYMS))
        elif p < 0.85:
            n = N("mn", text=r.choice(NUMS) if r.random() < 0.7 else self.text())
        elif p < 0.97:
            n = N("mtext", text=self.text() if r.random() < 0.5 else self.longtext())
            if r.random() < 0.3:
                n.attrs["mathvariant"] = self.value(VARIANTS)
        else:
            n = N(r.choice(["ms", "mspace", "mglyph", "none", "mrow", "maligngroup", "mprescripts"]),
                  text=r.choice(["", "", "x"]))
        return n

    def value(self, pool):
        r = self.r
        if NEW_WORDS and r.random() < 0.1:
            return r.choice([str, str, lambda w: embed(r, [w]), lambda w: cased(r, w)])(r.choice(NEW_WORDS))
        p = r.random()
        return r.choice(WORDS) if WORDS and p < 0.05 else embed(r) if p < 0.08 else cased(r, r.choice(pool)) if p < 0.12 else embed(r, pool) if p < 0.14 else \
            " ".join(r.sample(pool, min(len(pool), r.choice([2, 2, 3, 4])))) if p < 0.16 else r.choice(ODD) if p < 0.175 else r.choice(pool)

    # ---- elements
    def many(self, depth, lo=0, hi=4, p_big=0.02):
        r = self.r
        n = r.randint(lo, hi)
        if r.random() < p_big:
            n = max(lo, size(r, 129))
            return [self.token() for _ in range(n)]
        return [self.tree(depth - 1) for _ in range(n)]

    def tree(self, depth):
        r = self.r
        if depth <= 0 or r.random() < 0.25:
            n = self.token()
        else:
            n = getattr(self, "k_" + r.choices(self.kinds, self.w)[0], None)
            n = n(depth) if n else self.token()
        if not self.markers and r.random() < (0.15 if n.kids else 0.06):
            self.junk(n)
        return n

    def junk(self, n):
        r = self.r
        for _ in range(r.choice([1, 1, 1, 2, 4])):
            k, v = r.choice(IRRELEVANT) if r.random() < 0.3 else unused_attribute(r)
            if k not in MEANINGFUL.get(n.tag, ()) and not k.startswith("xmlns"):
                n.attrs.setdefault(k, v)

    def fixed(self, tag, n, depth):
        return N(tag, [self.tree(depth - 1) for _ in range(n)])

    def k_mrow(self, d):
        return N("mrow", self.many(d, 0, 4))

    def k_wrap(self, d):
        r = self.r
        tag = r.choice(TRANSPARENT) if r.random() < 0.93 or not NAMES else r.choice(NAMES)
        from .model import NOT_TRANSPARENT
        if tag in NOT_TRANSPARENT or tag in ("maction", "math", "mprescripts"):
            tag = "mrow"
        return N(tag, [self.tree(d - 1)] if r.random() < 0.7 else self.many(d, 0, 3))

    def k_mfrac(self, d):
        n = self.fixed("mfrac", 2, d)
        if self.r.random() < 0.35:
            n.attrs["bevelled"] = self.value(["true", "true", "true", "false", "", "bevelled", "1", "True", "TRUE", "yes"])
        return n

    def k_msqrt(self, d):
        return N("msqrt", self.many(d, 0, 3))

    def k_mroot(self, d):
        return self.fixed("mroot", 2, d)

    def k_msup(self, d):
        return self.fixed("msup", 2, d)

    def k_msub(self, d):
        return self.fixed("msub", 2, d)

    def k_msubsup(self, d):
        return self.fixed("msubsup", 3, d)

    def k_munderover(self, d):
        return self.fixed("munderover", 3, d)

    def _uo(self, tag, d):
        n = self.fixed(tag, 2, d)
        if not self.markers and self.r.random() < 0.5:
            n.kids[1] = N("mo", text=self.r.choice(ACCENT_MO))
        return n

    def k_mover(self, d):
        return self._uo("mover", d)

    def k_munder(self, d):
        return self._uo("munder", d)

    def k_mmultiscripts(self, d):
        r = self.r
        kids = [self.tree(d - 1)]
        post = r.choice([0, 1, 2, 2, 2, 4, 4, 6, 3, 5]) if r.random() < 0.97 else size(r, 40)
        pre = r.choice([-1, -1, 0, 1, 2, 2, 2, 4, 4, 6, 3]) if r.random() < 0.97 else size(r, 40)
        if post + pre < 2:
            post += 2

        def s():
            return N("none") if r.random() < 0.25 else self.tree(d - 2)
        kids += [s() for _ in range(post)]
        if pre >= 0:
            kids.append(N("mprescripts"))
            kids += [s() for _ in range(pre)]
            if r.random() < 0.02:
                kids.append(N("mprescripts"))
        return N("mmultiscripts", kids)

    def k_mfenced(self, d):
        r = self.r
        n = N("mfenced", self.many(d, 0, 5, 0.04))
        if r.random() < 0.6:
            n.attrs["open"] = self.value(FENCES)
        if r.random() < 0.6:
            n.attrs["close"] = self.value(FENCES)
        if r.random() < 0.15:
            o, c = r.choice(["()", "[]", "{}", "||", ("||", "||"), "<>", ("", "")])
            n.attrs.update(open=o, close=c)
        if r.random() < 0.5:
            n.attrs["separators"] = self.value(SEPS)
        if r.random() < 0.2:
            n.kids[:] = [self.k_mtable(d - 1)]
            if r.random() < 0.2:
                n.kids = [N("mrow", n.kids)]
            if r.random() < 0.15:
                n.kids.insert(r.randint(0, 1), self.tree(d - 1))
        return n

    def k_mtable(self, d):
        r = self.r
        rows = r.choice([0, 1, 1, 2, 2, 3, 4]) if r.random() < 0.97 else size(r, 40)
        cols = r.choice([0, 1, 2, 2, 3, 4]) if r.random() < 0.97 else size(r, 40)
        out = []
        for _ in range(rows):
            c = cols if r.random() < 0.85 else r.randint(0, 4)
            cells = []
            for _ in range(c):
                if rows * cols > 30:
                    cells.append(N("mtd", [self.token()]))
                elif r.random() < 0.9:
                    cells.append(N("mtd", self.many(d - 1, 0, 2, 0)))
                else:
                    cells.append(self.tree(d - 2))
            p = r.random()
            out.append(N("mtr" if p < 0.93 else "mlabeledtr", cells) if p < 0.97 else self.tree(d - 2))
        return N("mtable", out)

    def k_menclose(self, d):
        n = N("menclose", self.many(d, 0, 3))
        if self.r.random() < 0.9:
            n.attrs["notation"] = self.value(NOTATIONS)
        return n

    def k_merror(self, d):
        return N("merror", self.many(d, 0, 3))

    def k_mphantom(self, d):
        return N("mphantom", self.many(d, 0, 3))

    def k_annot(self, d):
        r = self.r
        a = N("annotation", text=r.choice(["x^2", "\\frac{1}{2}", "", "LaTeX & co"])) if r.random() < 0.6 else \
            N("annotation-xml", self.many(d, 0, 2))
        return N("semantics", [self.tree(d - 1), a])

    def k_maction(self, d):
        r = self.r
        n = N("maction", self.many(d, 1, 3))
        if r.random() < 0.75:
            n.attrs["actiontype"] = self.value(ACTIONS)
        return n

    def k_math(self, d):
        return N("math", self.many(d, 0, 3))

    def k_stray(self, d):
        r = self.r
        p = r.random()
        if p < 0.4:
            return N("mtr", self.many(d, 0, 3))
        if p < 0.7:
            return N("mtd", self.many(d, 0, 3))
        if p < 0.85:
            return N("mi", [self.tree(d - 1)])
        return N(r.choice(["mo", "mn", "mtext"]), [self.tree(d - 1)])

    def formula(self, depth=None, top=None):
        r = self.r
        d = r.choice([1, 2, 2, 3, 3, 3, 4, 4, 5, 6]) if depth is None else depth
        return N("math", [self.tree(d) for _ in range(top or r.choice([1, 1, 1, 2, 2, 3, 4]))])


def shrink(root, failing, budget=600):
    """Greedy structural shrinking of a list of formula roots (or one)."""
    best = root
    tries = 0
    progress = True
    end = time.monotonic() + 30
    while progress and tries < budget:
        progress = False
        for cand in _smaller(best):
            tries += 1
            if tries > budget or time.monotonic() > end:
                tries = budget
                break
            try:
                bad = failing(cand)
            except RecursionError:
                bad = False
            if bad:
                best = cand
                progress = True
                break
    return best


def _smaller(root):
    nodes = list(_paths(root))
    # hoist a descendant to the top
    for path in nodes:
        if len(path) > 1 and root.tag == "math":
            n = _get(root, path)
            yield N("math", [n.clone()], attrs={})
    for path in sorted(nodes, key=len):
        n = _get(root, path)
        if len(n.kids) > 3:
            half = len(n.kids) // 2
            for part in (n.kids[:half], n.kids[half:]):
                yield _with(root, path, N(n.tag, part, n.text, n.attrs))
        for i in range(len(n.kids)):
            yield _with(root, path, N(n.tag, n.kids[:i] + n.kids[i + 1:], n.text, n.attrs))
        if path:
            for k in n.kids:
                yield _with(root, path, k)
            if n.kids:
                yield _with(root, path, N("mi", text="x"))
        for a in list(n.attrs):
            m = N(n.tag, n.kids, n.text, n.attrs)
            del m.attrs[a]
            yield _with(root, path, m)
        if len(n.text) > 1:
            for t in (n.text[:len(n.text) // 2], n.text[len(n.text) // 2:], n.text[1:], n.text[:-1]):
                yield _with(root, path, N(n.tag, n.kids, t, n.attrs))


def _paths(root):
    stack = [()]
    while stack:
        p = stack.pop()
        yield p
        n = _get(root, p)
        for i in range(len(n.kids)):
            stack.append(p + (i,))


def _get(root, path):
    for i in path:
        root = root.kids[i]
    return root


def _with(root, path, new):
    if not path:
        return new.clone()
    out = root.clone()
    n = _get(out, path[:-1])
    n.kids[path[-1]] = new.clone()
    return out
