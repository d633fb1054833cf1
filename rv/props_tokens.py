"""P13 - P18: what the text of tokens means."""
import re
import unicodedata

from . import sut
from .diff import expected, judge, toks
from .gen import ALLKEYS, Gen, VARIANTS, shrink
from .harvest import WORDS, length, size
from .latex import tokens, unbalanced
from .lexicon import ESCAPES, LEX, collapse, escape, token, xml_char
from .model import MI_VARIANT, TEXT_VARIANT, fill
from .node import N, Spelling, esc_text, plain

A_LEX = "rv/lexicon.json is the reviewed dictionary: what the library's tables say after the repairs recorded in known_findings.jsonl"
A_PUBLIC = "only the public conversion entry point is observed"
KINDS = ("mi", "mo", "mn")


def in_root(kind, t):
    return "<math><msqrt><%s>%s</%s></msqrt></math>" % (kind, esc_text(t), kind)


def want_root(kind, t):
    return collapse("\\sqrt{" + token(kind, t) + "}")


# ---------------------------------------------------------------- P13
CONTEXTS = {
    "alone": lambda k: N("math", [k]),
    "in a row": lambda k: N("math", [N("mi", text="x"), k, N("mn", text="2")]),
    "twice": lambda k: N("math", [k, k.clone()]),
    "base": lambda k: N("math", [N("msup", [k, N("mn", text="2")])]),
    "base of both": lambda k: N("math", [N("munderover", [k, N("mi", text="i"), N("mi", text="n")])]),
    "script": lambda k: N("math", [N("msub", [N("mi", text="x"), k])]),
    "multiscript base": lambda k: N("math", [N("mmultiscripts", [k, N("mn", text="1"), N("none")])]),
    "numerator": lambda k: N("math", [N("mfrac", [k, N("mn", text="2")])]),
    "slanted": lambda k: N("math", [N("mfrac", [k, k.clone()], attrs={"bevelled": "true"})]),
    "over": lambda k: N("math", [N("mover", [N("mi", text="x"), k])]),
    "under": lambda k: N("math", [N("munder", [N("mi", text="x"), k])]),
    "fence": lambda k: N("math", [N("mfenced", [k, k.clone()], attrs={"open": "[", "close": ")"})]),
    "cell": lambda k: N("math", [N("mfenced", [N("mtable", [N("mtr", [N("mtd", [k]), N("mtd", [k.clone()])])])], attrs={"open": "[", "close": "]"})]),
    "error": lambda k: N("math", [N("merror", [k])]),
    "index": lambda k: N("math", [N("mroot", [N("mi", text="x"), k])]),
    "deep": lambda k: N("math", [N("mrow", [N("mstyle", [N("mrow", [N("mpadded", [k])])])])]),
}


class P13:
    pid = "P13"
    rule = ("every character of Unicode that XML admits (thorough) or of the Basic Multilingual Plane, the mathematical and emoji planes and a "
            "sample of the rest (quick), in each of mi, mo and mn; every recorded key, and every key now in the library's tables, beside other characters and in sixteen "
            "contexts. Each output is compared with the recorded dictionary. Non-trivial: every distinct (token kind, text) pair.")
    assumptions = [A_LEX, A_PUBLIC]
    need = {"characters_checked": 150000, "dictionary_entries_in_context": 10000, "symbols_beside_another": 40000}

    @staticmethod
    def exhaustive(tier):
        return tier == "thorough"

    @staticmethod
    def batch(ctx, kind, texts):
        """one document of many formulas; a differing one is bisected"""
        o = sut.convert("<r>" + "".join(in_root(kind, t) for t in texts) + "</r>")
        ctx.evaluations += 1
        want = " ".join(want_root(kind, t) for t in texts)
        if o.ok and o.text == want:
            return
        if len(texts) == 1:
            small = sut.convert(in_root(kind, texts[0]))
            ctx.violate("a symbol does not come out as recorded", xml=in_root(kind, texts[0]), expected=want, got=small.show(),
                        character=" ".join("U+%04X" % ord(c) for c in texts[0]))
            return
        h = len(texts) // 2
        before = len(ctx.violations)
        for part in (texts[:h], texts[h:]):
            if not ctx.full():
                P13.batch(ctx, kind, part)
        if len(ctx.violations) == before and len(texts) <= 4:
            ctx.violate("symbols come out differently together", xml="<r>" + "".join(in_root(kind, t) for t in texts) + "</r>",
                        expected=want, got=o.show())

    @staticmethod
    def shard(ctx):
        r = ctx.rng
        cps = [c for c in range(0x20, 0x110000) if xml_char(c) and not chr(c).isspace()]
        if ctx.quick:
            cps = [c for c in cps if c < 0x10000 or 0x1D000 <= c < 0x1FC00 or r.random() < 0.003]
        mine = [c for i, c in enumerate(cps[ctx.shard * 64 // 64:]) if (c >> 8) % ctx.shards == ctx.shard or
                (ctx.quick and c >= 0x10000 and not 0x1D000 <= c < 0x1FC00)]
        for kind in KINDS:
            for i in range(0, len(mine), 400):
                part = [chr(c) for c in mine[i:i + 400]]
                P13.batch(ctx, kind, part)
                ctx.count("characters_checked", len(part))
                for t in part:
                    ctx.saw(kind + t)
                if ctx.full():
                    return
        P13.neighbours(ctx)
        if ctx.full():
            return
        # every key, in every context
        keys = sorted(set(ALLKEYS) | table_keys() | {w for w in WORDS if w.strip() == w})
        n = 0
        for i, key in enumerate(keys):
            if i % ctx.shards != ctx.shard or not key.strip() or not all(xml_char(ord(c)) for c in key):
                continue
            names = sorted(CONTEXTS)
            for kind in KINDS:
                if kind != "mn" and key not in LEX[kind] and r.random() < 0.5 and ctx.quick:
                    continue
                for name in (names if not ctx.quick else r.sample(names, 4)):
                    t = CONTEXTS[name](N(kind, text=key))
                    ctx.count("dictionary_entries_in_context")
                    ctx.saw(kind + key)
                    n += 1
                    judge(ctx, t, plain(t) if r.random() < 0.7 else Spelling(r).element(t), lambda x: True, "a symbol depends on where it stands: " + name)
                    if ctx.shard == 0 and n in (50, 500, 1500):
                        ctx.sample(xml=plain(t), latex=sut.convert(plain(t)).show())
                    if ctx.full():
                        return


AROUND = ["\ufe0e", "\ufe0f", "\u0301", "\u0338", "\u20d2", "\u200d", "\u200b", "\u2061", "\u2032", "'", "x", "1", " x", "2 ", "*", ".", "-", "=", ";", "\u00ad", "\u0332", "\U0001f3fd", "\u03b1", "\u2192", "\u2009x"]


def _neighbours(ctx):
    """every character of the dictionary beside another one: together they have no entry, unless the dictionary says so"""
    r = ctx.rng
    keys = [k for i, k in enumerate(sorted(set(ALLKEYS) | table_keys())) if i % ctx.shards == ctx.shard and k.strip() and all(xml_char(ord(c)) for c in k)]
    for kind in KINDS:
        texts = []
        for k in keys:
            more = AROUND + [k, r.choice(ALLKEYS)] if len(k) == 1 else r.sample(AROUND, 3)
            for c in (more if not ctx.quick else r.sample(more, min(len(more), 12))):
                texts.append(k + c)
                if c[0] not in "\ufe0e\ufe0f" or not ctx.quick:
                    texts.append(c + k)
            if len(k) > 1:
                texts += [k[:-1], k[1:], k.upper(), k.lower(), k.swapcase()]
        texts = [t for t in texts if t.strip()]
        for i in range(0, len(texts), 300):
            part = texts[i:i + 300]
            P13.batch(ctx, kind, part)
            ctx.count("symbols_beside_another", len(part))
            for t in part:
                ctx.saw(kind + t)
            if ctx.full():
                return


P13.neighbours = staticmethod(_neighbours)


def table_keys():
    """keys of the library's present tables (reach only: they are inputs, not verdicts)"""
    import sys
    out = set()
    for name, mod in list(sys.modules.items()):
        if "mathml_to_latex" in name and mod is not None:
            for v in list(vars(mod).values()):
                if isinstance(v, dict) and len(v) > 5:
                    out.update(k for k in v if isinstance(k, str))
    return out


# ---------------------------------------------------------------- P14
GREEK = {}
for _n in ("ALPHA BETA GAMMA DELTA EPSILON ZETA ETA THETA IOTA KAPPA LAMDA MU NU XI OMICRON PI RHO SIGMA TAU UPSILON PHI CHI PSI "
           "OMEGA").split():
    GREEK[unicodedata.lookup("GREEK SMALL LETTER " + _n)] = _n.lower().replace("lamda", "lambda")
    GREEK[unicodedata.lookup("GREEK CAPITAL LETTER " + _n)] = _n.capitalize().replace("Lamda", "Lambda")
LOOKALIKE = dict(zip("\u0391\u0392\u0395\u0396\u0397\u0399\u039a\u039c\u039d\u039f\u03a1\u03a4\u03a7", "ABEZHIKMNOPTX"))
# pinned by the repository's tests, or curled arrows whose direction is a matter of taste
PINNED = {"\u039d", "\u03f4", "\u1f31", "\u1fe1", "\U0001d786"} | set(
    "\u21b6\u21b7\u21ba\u21bb\u27f2\u27f3\u2932\u2934\u2935\u2938\u2939\u293a\u293b\u293c\u293d\u293e\u293f\u2940\u2941\u297b")
COMMANDS = re.compile(r"\\[a-zA-Z]+")


def bare(o):
    o = re.sub(r"\\(i|j)(?![a-zA-Z])", r"\1", o).replace("\\imath", "i").replace("\\jmath", "j")
    return "".join(c for c in COMMANDS.sub("", o) if c.isalnum())


def identity(ch, out):
    """what is wrong with out as the LaTeX of ch, by the Unicode database alone"""
    if ch in PINNED or out == ch:
        return None
    d = unicodedata.normalize("NFKD", ch)
    base = "".join(c for c in d if not unicodedata.combining(c))
    name = unicodedata.name(ch, "")
    if len(base) == 1 and base != ch and base.isascii() and base.isalnum():
        if bare(out) != base:
            return "its letter or digit is %s, the LaTeX has %s" % (base, bare(out) or "none")
        want = {"ACUTE": "acute", "GRAVE": "grave", "CIRCUMFLEX": "hat", "CARON": "check", "BREVE": "breve", "TILDE": "tilde",
                "DIAERESIS": "ddot"}
        m = re.match(r"LATIN (?:SMALL|CAPITAL) LETTER [A-Z] WITH ([A-Z]+)$", name)
        if m and m.group(1) in want:
            cmds = [c[1:] for c in COMMANDS.findall(out) if c not in ("\\i", "\\j")]
            accents = set(want.values()) & set(cmds)
            if accents and accents != {want[m.group(1)]}:
                return "its accent is %s, the LaTeX has %s" % (m.group(1), sorted(accents))
    elif len(base) == 1 and base in GREEK and base != ch:
        if not re.search(r"\\(var)?%s(?![a-zA-Z])" % GREEK[base], out) and not bare(out) == LOOKALIKE.get(base):
            return "it is a %s, the LaTeX is not" % GREEK[base]
    elif "\u2044" in d and len(d) > 2:
        if re.findall(r"\d+", out) != [str(int(x)) for x in re.findall(r"\d+", d)]:
            return "it is the fraction %s, the LaTeX has %s" % (d, re.findall(r"\d+", out))
    elif ch in GREEK and (COMMANDS.search(out)):
        if not re.search(r"\\(var)?%s(?![a-zA-Z])" % GREEK[ch], out) and bare(out) not in (LOOKALIKE.get(ch), ch):
            return "it is a %s, the LaTeX is not" % GREEK[ch]
    if "ARROW" in name and "TRIANGLE" not in name:
        words = re.findall(r"[A-Z]+", name)
        dirs = {w for w in ("left", "right", "up", "down") if w.upper() in words or w.upper() + "WARDS" in words}
        got = {w for w in ("left", "right", "up", "down") if re.search(w, " ".join(COMMANDS.findall(out)).lower())}
        if got and got != dirs and dirs:
            return "it points %s, the LaTeX %s" % (sorted(dirs), sorted(got))
    return None


class P14:
    pid = "P14"
    rule = ("every character whose letter, digit, value, accent or direction the Unicode database fixes, and that does not come out verbatim, "
            "as mi, mo and mn, plain and inside other elements; the LaTeX is compared with the database, not with a dictionary. "
            "Non-trivial: a character that the library translates and the database determines.")
    assumptions = ["unicodedata of the installed Python", "exceptions pinned by the repository's own tests are listed in PINNED", A_PUBLIC]
    need = {"identities_checked": 1500}

    @staticmethod
    def shard(ctx):
        r = ctx.rng
        cand = []
        for cp in range(0xA0, 0x20000):
            if cp % ctx.shards != ctx.shard or not xml_char(cp):
                continue
            ch = chr(cp)
            if unicodedata.decomposition(ch) or ch in GREEK or "ARROW" in unicodedata.name(ch, ""):
                cand.append(ch)
        wraps = [lambda x: x, lambda x: "<mrow>%s</mrow>" % x, lambda x: "<msqrt>%s</msqrt>" % x, lambda x: "<mrow><mstyle>%s</mstyle></mrow>" % x]
        for ch in cand:
            if ch.isspace():
                continue
            for kind in KINDS:
                for i, w in enumerate(wraps if not ctx.quick else [wraps[0], wraps[2]]):
                    xml = "<math>%s</math>" % w("<%s>%s</%s>" % (kind, ch, kind))
                    o = sut.convert(xml)
                    ctx.evaluations += 1
                    ctx.count("candidates_converted")
                    if not o.ok:
                        ctx.violate("a symbol cannot be converted", xml=xml, got=o.show())
                        continue
                    out = o.text
                    if w is wraps[2] and out.startswith("\\sqrt{"):
                        out = out[6:-1]
                    if out == ch:
                        continue
                    ctx.count("identities_checked")
                    ctx.saw(kind + ch)
                    if ctx.shard == 0 and r.random() < 0.01:
                        ctx.sample(xml=xml, latex=o.text, name=unicodedata.name(ch, ""))
                    bad = identity(ch, out)
                    if bad:
                        ctx.violate("a symbol lost its identity", xml=xml, character="U+%04X %s" % (ord(ch), unicodedata.name(ch, "")),
                                    got=o.text, expected=bad)
                        if ctx.full():
                            return


# ---------------------------------------------------------------- P15
class P15:
    pid = "P15"
    rule = ("identifiers of every kind of text (random strings, dictionary keys, words and constants of the library) crossed with known and "
            "unknown mathvariant values and contexts, against the specification; and a monitor that compares the styled output with the "
            "unstyled one. Non-trivial: distinct (text, variant) pairs.")
    assumptions = [A_PUBLIC, A_LEX]
    need = {"styled_identifiers": 5000, "known_variants": 2000}

    @staticmethod
    def shard(ctx):
        r = ctx.rng
        g = Gen(r)
        known = sorted(MI_VARIANT)
        other = [v for v in VARIANTS if v not in MI_VARIANT] + ["tailed", "bold-sans", "bolditalic", "BOLD", "sans_serif", "normal"] + WORDS
        for i in range(ctx.n(24000, 300000)):
            v = r.choice(known) if r.random() < 0.6 else r.choice(other)
            p = r.random()
            text = r.choice(ALLKEYS) if p < 0.3 else g.text() if p < 0.8 else r.choice("abcxyzABC0123") if p < 0.9 else r.choice(WORDS)
            n = N("mi", text=text, attrs={"mathvariant": v})
            if r.random() < 0.2:
                n.attrs = dict([("class", "q"), ("mathvariant", v), ("mathsize", "big")])
            ctx.count("styled_identifiers")
            if v in MI_VARIANT:
                ctx.count("known_variants")
                ctx.count("variant " + v)
            ctx.saw(v + "\0" + text)
            t = CONTEXTS[r.choice(sorted(CONTEXTS))](n) if r.random() < 0.5 else N("math", [n])
            if not judge(ctx, t, plain(t) if r.random() < 0.7 else Spelling(r).element(t), lambda x: True, "a styled identifier comes out wrong"):
                pass
            # relation of the styled to the unstyled output
            a = sut.convert("<math><msqrt>%s</msqrt></math>" % plain(n).replace("<math>", ""))
            b = sut.convert("<math><msqrt>%s</msqrt></math>" % plain(N("mi", text=text)))
            ctx.evaluations += 2
            if a.ok and b.ok:
                inner = b.text[len("\\sqrt{"):-1]
                s = fill(MI_VARIANT[v], inner) if v in MI_VARIANT else inner
                # white space at the ends of the inner LaTeX is trimmed by the line, not by the variant
                if tokens_of(a.text) != tokens_of("\\sqrt{" + s + "}"):
                    ctx.violate("the variant does not enclose the identifier's LaTeX", xml=plain(N("math", [N("msqrt", [n])])), got=a.text,
                                expected="\\sqrt{" + s + "}")
            if ctx.shard == 0 and i % 500 == 3:
                ctx.sample(xml=plain(t), latex=sut.convert(plain(t)).show())
            if ctx.full():
                return


def tokens_of(s):
    return [x for x in tokens(s) if not x.isspace()]


CATEGORIES = {}


def category(r):
    """a character of a random Unicode category, so that small categories count as much as large ones"""
    if not CATEGORIES:
        for cp in range(0x20, 0x110000):
            if xml_char(cp):
                c = unicodedata.category(chr(cp))
                if c in ("Cn", "Co") and cp % 97:
                    continue
                CATEGORIES.setdefault(c, []).append(chr(cp))
        for i, ch in enumerate(LEX["mi"]):
            if len(ch) == 1:
                CATEGORIES.setdefault("key", []).append(ch)
        CATEGORIES["digit"] = [c for c in CATEGORIES["Nd"] + CATEGORIES["No"] if c.isdigit()]
        CATEGORIES["upper"] = [c for c in CATEGORIES["Lu"] + CATEGORIES["Nl"] + CATEGORIES["So"] if c.isupper()]
        CATEGORIES["compat"] = [c for k in ("Ll", "Lu", "No", "So", "Lm") for c in CATEGORIES[k] if unicodedata.normalize("NFKC", c) != c]
        CATEGORIES["joins"] = list("\u200d\ufe0f\u0301\u0338\u20d7\u200c\u00ad\u2060\u202e\ufeff")
    return r.choice(CATEGORIES[r.choice(sorted(CATEGORIES))])


# ---------------------------------------------------------------- P16
class P16:
    pid = "P16"
    rule = ("texts over letters, digits, spaces, punctuation, symbols and other scripts, with every variant, in every context, against the "
            "specification; and a monitor that collects the contents of the text commands and compares them with the words of the text. "
            "Non-trivial: distinct texts with at least two classes of characters.")
    assumptions = [A_PUBLIC, A_LEX]
    need = {"texts_converted": 5000, "word_lists_compared": 2000}
    POOL = ("abcXYZmnpq", "0123456789", "   \t\n", ".,;:!?-'\"()[]/+*=<>|@`", "#$%&_{}^~\\", "\u03b1\u03b2\u03c0\u2211\u2264\u2192",
            "\u00e9\u00f1\u0416\u4e2d\u3042\u00df\u212b", "\U0001d400\U0001f600", "\u00a0\u2009\u2003\u200b")

    @staticmethod
    def text(r):
        w = [r.choice([0, 1, 2, 4]) for _ in P16.POOL]
        w[0] += 1
        n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12, 20, 40]) if r.random() < 0.98 else r.choice([100, 255, 256, 257, 1000])
        any_ = r.choice([0, 0, 0.2, 0.5])
        return "".join(category(r) if r.random() < any_ else r.choice(r.choices(P16.POOL, w)[0]) for _ in range(n))

    @staticmethod
    def shard(ctx):
        r = ctx.rng
        for i in range(ctx.n(24000, 320000)):
            text = P16.text(r) if r.random() < 0.93 else r.choice(WORDS) + " " + r.choice(WORDS)
            v = r.choice(sorted(TEXT_VARIANT)) if r.random() < 0.4 else r.choice(VARIANTS + WORDS) if r.random() < 0.3 else None
            n = N("mtext", text=text, attrs={} if v is None else {"mathvariant": v})
            ctx.count("texts_converted")
            classes = sum(any(c in p for c in text) for p in P16.POOL)
            if classes >= 2:
                ctx.saw((v or "") + "\0" + text)
            t = CONTEXTS[r.choice(sorted(CONTEXTS))](n) if r.random() < 0.4 else N("math", [n])
            judge(ctx, t, plain(t) if r.random() < 0.7 else Spelling(r).element(t), lambda x: True, "text comes out wrong")
            # independent of the specification: the words
            if v not in TEXT_VARIANT or v == "bold":
                cmd = "\\textbf{" if v == "bold" else "\\text{"
                o = sut.convert(plain(N("math", [n])))
                ctx.evaluations += 1
                trimmed = re.sub(r"\s+", " ", text.strip())
                want = [w for w in re.findall(r"[A-Za-z0-9 ]+", trimmed)]
                got = re.findall(re.escape(cmd) + r"([A-Za-z0-9 ]*)\}", o.text) if o.ok else None
                # words the identifiers of other characters put into \text{} themselves
                if o.ok and not any(re.search(r"\\text", x) for c in text for x in (token("mi", c),)):
                    ctx.count("word_lists_compared")
                    if got is None or [" ".join(w.split()) for w in got] != [" ".join(w.split()) for w in want] or \
                            [(w[:1] == " ", w[-1:] == " ") for w in got] != [(w[:1] == " ", w[-1:] == " ") for w in want]:
                        ctx.violate("words or spaces of a text are lost", xml=plain(N("math", [n])), got=o.show(), expected=repr(want))
            if ctx.shard == 0 and i % 500 == 3:
                ctx.sample(xml=plain(t), latex=sut.convert(plain(t)).show())
            if ctx.full():
                return


# ---------------------------------------------------------------- P17
UNESC = {"\\#": "#", "\\$": "$", "\\%": "%", "\\&": "&", "\\_": "_", "\\{": "{", "\\}": "}", "\\sim": "~", "\\backslash": "\\"}
SPECIAL = "#$%&_{}^~\\"


def decode(latex):
    """what the text looked like before escaping: LaTeX -> characters, spaces dropped"""
    out = []
    ts = [x for x in tokens(latex) if not x.isspace()]
    i = 0
    while i < len(ts):
        t = ts[i]
        if t == "\\hat" and ts[i + 1:i + 3] == ["{", "}"]:
            out.append("^")
            i += 3
            continue
        if t in UNESC:
            out.append(UNESC[t])
        elif t.startswith("\\") or t in SPECIAL:
            return None
        else:
            out.append(t)
        i += 1
    return "".join(out)


class P17:
    pid = "P17"
    rule = ("strings mixing LaTeX's special characters with letters, digits and commands, none of them a dictionary entry, as mi, mo, mn and "
            "as fence separators, in every context; the monitor undoes the escapes and must get the text back, and the surrounding "
            "LaTeX must be what it is around a harmless marker. Non-trivial: texts with at least one special character.")
    assumptions = [A_PUBLIC, "text that is an entry of the dictionary is translated instead, and not tested here"]
    need = {"hostile_texts": 4000, "contexts_compared": 2000, "separators_decoded": 500}
    PIECES = ["\\frac", "\\end{matrix}", "\\begin{x}", "}", "{", "{}", "}{", "$", "$$", "%", "% comment", "#1", "&", "\\\\", "\\", "^", "_",
              "^{2}", "_{", "~", "\\input", "\\left(", "\\right)", "x", "y", "12", "a b", "+", "=", "(", ")", "[", "]", "/", ".", ";", "\\ ", "\\%",
              "\\{", "^^", "__", "&&", "##", "\\alpha", "\\text{", "%%", "\\newcommand", "''", "-", "|", "@", "!"]

    @staticmethod
    def text(r):
        p = r.random()
        if p < 0.01:
            pool = r.choice([r.choice(SPECIAL), SPECIAL, SPECIAL + "ab1 "])
            return "".join(r.choice(pool) for _ in range(min(length(r, 600), 3000)))
        if p < 0.35:
            return "".join(r.choice(P17.PIECES) for _ in range(r.choice([1, 2, 2, 3, 4, 6, 10])))
        if p < 0.7:
            return "".join(r.choice(SPECIAL + "abc12 ") for _ in range(r.choice([1, 2, 2, 3, 3, 4, 6, 10, 40])))
        if p < 0.8:
            return r.choice(WORDS) + r.choice(SPECIAL)
        return "".join(r.choice("abxyzAB019") for _ in range(r.choice([0, 1, 3, 20]))) + r.choice(SPECIAL) + \
            "".join(r.choice("abxyzAB019\u0416\u4e2d") for _ in range(r.choice([0, 1, 3, 20])))

    @staticmethod
    def shard(ctx):
        r = ctx.rng
        for i in range(ctx.n(24000, 320000)):
            kind = r.choice(KINDS)
            text = P17.text(r)
            v = collapse(text)
            if not v or v in LEX["mi"] or v in LEX["mo"] or v in LEX["mn"]:
                continue
            o = sut.convert(plain(N("math", [N(kind, text=text)])))
            ctx.evaluations += 1
            ctx.count("hostile_texts")
            if any(c in SPECIAL for c in v):
                ctx.saw(kind + v)
            back = decode(o.text) if o.ok else None
            if back != "".join(v.split()):
                def bad(x):
                    w = collapse(x)
                    if not w or any(w in LEX[k] for k in KINDS):
                        return False
                    q = sut.convert(plain(N("math", [N(kind, text=x)])))
                    return not q.ok or decode(q.text) != "".join(w.split())
                s = text
                for _ in range(200):
                    for j in range(len(s)):
                        if bad(s[:j] + s[j + 1:]):
                            s = s[:j] + s[j + 1:]
                            break
                    else:
                        break
                q = sut.convert(plain(N("math", [N(kind, text=s)])))
                ctx.violate("the text of a token acts as LaTeX, or is not shown", xml=plain(N("math", [N(kind, text=s)])), got=q.show(),
                            expected="an escaped form of " + collapse(s))
            name = r.choice(sorted(CONTEXTS))
            f = CONTEXTS[name]
            m = sut.convert(plain(f(N(kind, text="Q1q"))))
            h = sut.convert(plain(f(N(kind, text=text))))
            ctx.evaluations += 2
            ctx.count("contexts_compared")
            if name != "slanted" and not (name == "index" and "]" in text) and m.ok and (not h.ok or tokens_of(h.text) != tokens_of(m.text.replace("Q1q", " " + o.text + " "))) and o.ok:
                alt = tokens_of(m.text.replace("Q1q", " \\left(" + o.text + "\\right) "))
                if not (name == "multiscript base" and h.ok and tokens_of(h.text) == alt):
                    ctx.violate("the text of a token changed the LaTeX around it", xml=plain(f(N(kind, text=text))), got=h.show(),
                                expected=m.text.replace("Q1q", o.text))
            if h.ok and unbalanced(h.text):
                ctx.violate("the text of a token unbalanced the LaTeX", xml=plain(f(N(kind, text=text))), got=h.show(), expected=unbalanced(h.text))
            # separators
            if r.random() < 0.2:
                n = r.randint(1, 6) if r.random() < 0.97 else max(1, size(r, 200))
                seps = [r.choice(SPECIAL + ";:!-") for _ in range(n)]
                t = N("math", [N("mfenced", [N("mi", text="x") for _ in range(n + 1)], attrs={"separators": "".join(seps)})])
                o = sut.convert(plain(t))
                ctx.evaluations += 1
                ctx.count("separators_decoded")
                inner = o.text[len("\\left("):-len("\\right)")] if o.ok else ""
                if decode(inner) != "x" + "".join(s + "x" for s in seps):
                    ctx.violate("a separator acts as LaTeX, or is not shown", xml=plain(t), got=o.show(), expected="x".join(seps))
            if ctx.shard == 0 and i % 500 == 3:
                ctx.sample(xml=plain(f(N(kind, text=text))), latex=h.show())
            if ctx.full():
                return


def number(r):
    """what people write in numbers, and what a helpful rewriting would touch"""
    d = "".join(r.choice("0123456789") for _ in range(r.choice([1, 1, 1, 2, 3, 3, 4, 6, 9, 15, 16, 17, 20, 30])))
    z = "0" * r.choice([0, 0, 0, 1, 2, 3, 6])
    point = r.choice(["", "", ".", ".", ",", ",", "'", "\u2019", " ", "\u00b7", "/", ":", "..", "\u066b"])
    frac = "" if not point and r.random() < 0.8 else "".join(r.choice("00123456789") for _ in range(r.choice([0, 1, 1, 2, 2, 3, 3, 6, 12]))) + "0" * r.choice([0, 0, 1, 2, 4])
    exp = r.choice(["", "", "", "", "", "e10", "E-5", "e+07", "e0", "x10", " 000", ",000", ".000", " 000 000", "i", "L", "px", "em", "deg", "th", "st"])
    return r.choice(["", "", "", "-", "+", "--", "- ", "0x", "0b", "=", "\u2212", "<", "."]) + r.choice([z + d, d, d, "0", "1", "00"]) + point + frac + exp


# ---------------------------------------------------------------- P18
class P18:
    pid = "P18"
    rule = ("token texts outside the dictionary (numbers, names, words of many scripts, up to thousands of characters), split at random into "
            "character data, references, CDATA sections, comments and processing instructions; the output must be the text with white space "
            "collapsed. Non-trivial: texts in at least two pieces, or of 64 characters or more.")
    assumptions = [A_PUBLIC, A_LEX]
    need = {"texts_compared": 6000, "texts_in_pieces": 3000, "long_texts": 100}

    @staticmethod
    def text(r):
        p = r.random()
        if p < 0.2:
            return number(r)
        if p < 0.25:
            return "".join(category(r) if r.random() < 0.5 else r.choice("ab12 ") for _ in range(r.choice([1, 2, 3, 5, 9])))
        if p < 0.3:
            return number(r) + r.choice(WORDS) if r.random() < 0.5 else r.choice(WORDS) + number(r)
        if p < 0.4:
            k, c = r.choice(ALLKEYS), r.choice(AROUND)
            return r.choice([k + c, c + k, k + k, k + c + k, c + k + c])
        pools = ["abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", "0123456789.,", "\u0430\u0431\u0432\u0416", "\u4e2d\u6587\u5b57",
                 "\u05d0\u05d1", "+-*/=<>()[]|!?.,;:'\"@", " \t\n\r ", "\u3042\u304b", "\uac00\ud7a3", "\U0001f600\U00020000"]
        use = r.sample(pools, r.randint(1, 4))
        if r.random() < 0.4:
            use.append(pools[6])
        n = r.choice([1, 2, 3, 4, 5, 7, 9, 12, 16, 24]) if r.random() < 0.95 else r.choice([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 5000])
        return "".join(r.choice(r.choice(use)) for _ in range(n))

    @staticmethod
    def pieces(r, s, ctx):
        """the text in random pieces, which XML says are one text"""
        out = []
        i = 0
        n = 0
        while i < len(s):
            j = min(len(s), i + r.choice([1, 1, 2, 3, 5, 8, 100, 10000]))
            p = s[i:j]
            q = r.random()
            if q < 0.3 and "]]>" not in p and "\r" not in p:
                out.append("<![CDATA[" + p + "]]>")
                ctx.count("cdata_sections")
            elif q < 0.45:
                out.append("".join("&#%d;" % ord(c) if r.random() < 0.5 else "&#x%X;" % ord(c) for c in p))
                ctx.count("character_references", len(p))
            else:
                out.append(esc_text(p))
            n += 1
            i = j
            if r.random() < 0.02:
                out.append(r.choice(["<!--c-->", "<?p d?>", "<![CDATA[]]>"]) * r.choice([7, 8, 10, 16, 20, 32, 33, 64, 100, 129]))
                ctx.count("bursts_inside")
                n += 1
            if r.random() < 0.3:
                out.append(r.choice(["<!--c-->", "<!-- <mi>x</mi> -->", "<?p d?>", "<!---->", "<![CDATA[]]>", "<!-- 1 2 -->"]))
                ctx.count("comments_and_instructions_inside")
                n += 1
        if r.random() < 0.1:
            out.insert(0, r.choice(["<!--c-->", "<?p?>", " <!-- x --> "]))
            n += 1
        return "".join(out), n

    @staticmethod
    def shard(ctx):
        r = ctx.rng
        for i in range(ctx.n(30000, 400000)):
            kind = r.choice(KINDS)
            text = P18.text(r)
            v = collapse(text)
            if not v or any(v in LEX[k] for k in KINDS) or any(c in SPECIAL for c in v):
                continue
            x, n = P18.pieces(r, text, ctx)
            wrap = r.choice(["%s", "%s", "<mrow>%s</mrow>", "<msqrt>%s</msqrt>", "<mi>q</mi>%s", "%s<mi>q</mi>", "<mfrac>%s<mi>q</mi></mfrac>",
                             "<mfenced>%s</mfenced>"])
            out = {"%s": "%s", "<mrow>%s</mrow>": "%s", "<msqrt>%s</msqrt>": "\\sqrt{%s}", "<mi>q</mi>%s": "q %s", "%s<mi>q</mi>": "%s q",
                   "<mfrac>%s<mi>q</mi></mfrac>": "\\frac{%s}{q}", "<mfenced>%s</mfenced>": "\\left(%s\\right)"}[wrap]
            xml = "<math>" + wrap % ("<%s>%s</%s>" % (kind, x, kind)) + "</math>"
            o = sut.convert(xml)
            ctx.evaluations += 1
            ctx.count("texts_compared")
            if n > 1:
                ctx.count("texts_in_pieces")
            if len(text) >= 64:
                ctx.count("long_texts")
            ctx.top("longest_text", len(text))
            if n > 1 or len(text) >= 64:
                ctx.saw(xml)
            if ctx.shard == 0 and i % 500 == 3:
                ctx.sample(xml=xml, latex=o.show())
            if tuple(o) != ("ok", out % v):
                ctx.violate("the text of a token is not used as it is", xml=xml, got=o.show(), expected=out % v)
                if ctx.full():
                    return
        for n in [2 ** k for k in range(6, 17 if ctx.quick else 21)]:
            for kind in KINDS:
                t = "".join(r.choice("abcdefgh 123") for _ in range(n + ctx.shard))
                v = collapse(t)
                o = sut.convert("<math><%s>%s</%s></math>" % (kind, t, kind))
                ctx.evaluations += 1
                ctx.count("texts_compared")
                ctx.count("long_texts")
                ctx.top("longest_text", len(t))
                if v and tuple(o) != ("ok", v):
                    ctx.violate("a long text is not used as it is", xml="<math><%s>%s</%s></math>" % (kind, t, kind), got=o.show()[:300], expected=v[:300])
                    return
