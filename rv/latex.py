"""A small reader of the LaTeX the library emits, and structural monitors over
it. It knows LaTeX, not the library."""
import re

ARITY = {"frac": 2, "sqrt": 1, "overline": 1, "underline": 1, "boxed": 1, "cancel": 1, "bcancel": 1, "xcancel": 1,
         "hcancel": 1, "cancelto": 2, "overset": 2, "underset": 2, "stackrel": 2, "color": 2, "text": 1, "textbf": 1,
         "textit": 1, "textrm": 1, "mathbf": 1, "mathit": 1, "mathbb": 1, "mathfrak": 1, "mathcal": 1, "mathsf": 1,
         "mathtt": 1, "mathrm": 1, "mathscr": 1, "hat": 1, "bar": 1, "underbrace": 1, "overbrace": 1, "acute": 1, "grave": 1,
         "tilde": 1, "ddot": 1, "dot": 1, "check": 1, "breve": 1, "vec": 1, "widehat": 1, "widetilde": 1,
         "overrightarrow": 1, "overleftarrow": 1, "pmb": 1, "boldsymbol": 1, "operatorname": 1}
TOK = re.compile(r"Q\d+q|\\[a-zA-Z]+|\\(?:.|$)|\s+|.", re.S)


class Bad(Exception):
    pass


def tokens(s):
    return TOK.findall(s)


class Reader:
    def __init__(self, s):
        self.t = [x for x in tokens(s) if not x.isspace()]
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        if self.i >= len(self.t):
            raise Bad("unexpected end")
        self.i += 1
        return self.t[self.i - 1]

    def expect(self, x):
        got = self.next()
        if got != x:
            raise Bad("expected %s, got %s" % (x, got))

    def all(self):
        items = self.items(())
        if self.peek() is not None:
            raise Bad("stray %s" % self.peek())
        return items

    def group(self):
        self.expect("{")
        items = self.items(("}",))
        self.expect("}")
        return items

    def arg(self):
        if self.peek() != "{":
            raise Bad("argument of a command is not a group but %s" % self.peek())
        return self.group()

    def items(self, stop):
        out = []
        while True:
            p = self.peek()
            if p is None or p in stop:
                return out
            if p in ("}", "\\right", "\\end", "&", "\\\\"):
                if p in ("&", "\\\\"):
                    raise Bad("alignment outside an environment")
                raise Bad("unbalanced %s" % p)
            if p in ("^", "_"):
                self.next()
                arg = self.arg()
                base = out.pop() if out else None
                if base is None:
                    raise Bad("script without a base")
                if base[0] == "s":
                    _, b, sub, sup = base
                else:
                    b, sub, sup = base, None, None
                if p == "^":
                    if sup is not None:
                        raise Bad("double superscript")
                    sup = arg
                else:
                    if sub is not None or sup is not None:
                        raise Bad("double or late subscript")
                    sub = arg
                out.append(("s", b, sub, sup))
                continue
            if p == "/":
                self.next()
                if not out:
                    raise Bad("/ without a numerator")
                num = out.pop()
                den = self.items1(stop)
                out.append(("bev", num, den))
                continue
            out.append(self.item())

    def items1(self, stop):
        """one item together with its scripts"""
        p = self.peek()
        if p is None or p in stop:
            raise Bad("/ without a denominator")
        it = self.item()
        sub = sup = None
        while self.peek() in ("^", "_"):
            q = self.next()
            a = self.arg()
            if q == "^":
                if sup is not None:
                    raise Bad("double superscript")
                sup = a
            else:
                if sub is not None:
                    raise Bad("double subscript")
                sub = a
        return it if sub is None and sup is None else ("s", it, sub, sup)

    def item(self):
        p = self.next()
        if p == "{":
            self.i -= 1
            return ("g", self.group())
        if p == "\\left":
            o = self.next()
            items = self.items(("\\right",))
            self.expect("\\right")
            return ("f", o, self.next(), items)
        if p == "\\begin":
            env = "".join(x[1] for x in self.group())
            rows = [[[]]]
            while True:
                rows[-1][-1].extend(self.items(("&", "\\\\", "\\end")))
                q = self.next()
                if q == "&":
                    rows[-1].append([])
                elif q == "\\\\":
                    rows.append([[]])
                else:
                    break
            end = "".join(x[1] for x in self.group())
            if end != env:
                raise Bad("\\begin{%s} closed by \\end{%s}" % (env, end))
            return ("e", env, rows)
        if p == "\\_":
            sub = self.arg()
            self.expect("^")
            return ("p", sub, self.arg())
        if p[0] == "\\" and p[1:] in ARITY:
            name = p[1:]
            opt = None
            if name == "sqrt" and self.peek() == "[":
                self.next()
                opt = self.items(("]",))
                self.expect("]")
            return ("c", name, opt, [self.arg() for _ in range(ARITY[name])])
        return ("a", p)


def read(s):
    return Reader(s).all()


def ungroup(it):
    """A group, or growing parentheses, is its content; anything else is itself."""
    if it[0] == "g":
        return it[1]
    if it[0] == "f" and it[1] == "(" and it[2] == ")":
        return it[3]
    return [it]


def norm(items):
    out = []
    for it in items:
        k = it[0]
        if k == "a":
            out.append(it)
        elif k == "g" or (k == "f" and it[1] == "(" and it[2] == ")"):
            out.extend(norm(ungroup(it)))
        elif k == "f":
            out.append(("f", it[1], it[2], norm(it[3])))
        elif k == "c":
            out.append(("c", it[1], None if it[2] is None else norm(it[2]), [norm(a) for a in it[3]]))
        elif k == "e":
            out.append(("e", it[1], [[norm(c) for c in r] for r in it[2]]))
        elif k == "p":
            out.append(("p", norm(it[1]), norm(it[2])))
        elif k == "s":
            out.append(("s", norm(ungroup(it[1])), None if it[2] is None else norm(it[2]),
                        None if it[3] is None else norm(it[3])))
        elif k == "bev":
            out.append(("bev", norm(ungroup(it[1])), norm(ungroup(it[2]))))
    return out


# ---- what a tree of marker tokens means
def meaning(n, t=False):
    from .model import MATRIX, attr, has_table
    tag, k = n.tag, n.kids

    def join(kids, t=t):
        return [i for c in kids for i in meaning(c, t)]
    if tag in ("mi", "mo", "mn"):
        return [("a", n.text)]
    if tag == "mtext":
        return [("c", "text", None, [[("a", n.text)]])]
    if tag in ("mphantom", "annotation", "annotation-xml"):
        return []
    if tag == "mfrac":
        if attr(n, "bevelled") == "true":
            return [("bev", meaning(k[0], t), meaning(k[1], t))]
        return [("c", "frac", None, [meaning(k[0], t), meaning(k[1], t)])]
    if tag == "msqrt":
        return [("c", "sqrt", None, [join(k)])]
    if tag == "mroot":
        return [("c", "sqrt", meaning(k[1], t), [meaning(k[0], t)])]
    if tag == "msup":
        return [("s", meaning(k[0], t), None, meaning(k[1], t))]
    if tag == "msub":
        return [("s", meaning(k[0], t), meaning(k[1], t), None)]
    if tag in ("msubsup", "munderover"):
        return [("s", meaning(k[0], t), meaning(k[1], t), meaning(k[2], t))]
    if tag in ("mover", "munder"):
        return [("c", "overset" if tag == "mover" else "underset", None, [meaning(k[1], t), meaning(k[0], t)])]
    if tag == "merror":
        return [("c", "color", None, [[("a", c) for c in "red"], join(k)])]
    if tag == "menclose":
        c = join(k)
        kind = attr(n, "notation", "longdiv")
        one = {"radical": "sqrt", "box": "boxed", "roundedbox": "boxed", "circle": "boxed", "top": "overline",
               "bottom": "underline", "updiagonalstrike": "cancel", "downdiagonalstrike": "bcancel",
               "verticalstrike": "hcancel", "horizontalstrike": "hcancel"}.get(kind)
        if one:
            return [("c", one, None, [c])]
        if kind == "updiagonalarrow":
            return [("c", "cancelto", None, [[], c])]
        if kind == "actuarial":
            return [("c", "overline", None, [[("f", ".", "|", c)]])]
        return [("c", "overline", None, [[("f", ".", ")", [])] + c])]
    if tag == "maction":
        if attr(n, "actiontype") in ("toggle", ""):
            out = []
            for i, c in enumerate(k):
                if i:
                    out.append(("a", "\\Longrightarrow"))
                out += meaning(c, t)
            return out
        return meaning(k[0], t)
    if tag == "mfenced":
        o, c = attr(n, "open"), attr(n, "close")
        if any(has_table(x) for x in k):
            env = MATRIX.get((o, c)) or ("matrix" if o != c else "bmatrix")
            tbl = _only_table(k)
            rows = [[join(r.kids, True) for r in row.kids] or [[]] for row in tbl.kids]
            if t:
                rows = [[meaning(tbl, True)]]
            e = ("e", env, rows)
            return [("f", o, c, [e])] if env == "matrix" else [e]
        seps = [ch for ch in attr(n, "separators") if not ch.isspace()] or [","]
        out = []
        for i, x in enumerate(k):
            if i:
                out.append(("a", seps[min(i - 1, len(seps) - 1)]))
            out += meaning(x, t)
        return [("f", o or "(", c or ")", out)]
    if tag == "mtable":
        return [("e", "matrix", [[join(c.kids, True) for c in row.kids] or [[]] for row in k] or [[[]]])]
    if tag == "mmultiscripts":
        rest = k[1:]
        cut = next((i for i, c in enumerate(rest) if c.tag == "mprescripts"), None)
        post, pre = (rest, []) if cut is None else (rest[:cut], rest[cut + 1:])

        def pairs(cs):
            s = [meaning(c, t) for c in cs]
            if len(s) % 2:
                s.append([])
            return [(s[i], s[i + 1]) for i in range(0, len(s), 2)]
        out = [("p", a, b) for a, b in pairs(pre)]
        b = meaning(k[0], t)
        ps = pairs(post)
        if not ps:
            return out + b
        for i, (a, z) in enumerate(ps):
            out.append(("s", b if i == 0 else [], a, z))
        return out
    return join(k)


def _only_table(kids):
    n = kids[0]
    while n.tag != "mtable":
        n = n.kids[0]
    return n


# ---- well-formedness of any output
def unbalanced(s):
    """None, or what is wrong with the nesting of groups, environments and
    growing delimiters."""
    stack = []
    ts = [x for x in tokens(s) if not x.isspace()]
    i = 0
    while i < len(ts):
        t = ts[i]
        if t == "{":
            stack.append("{")
        elif t == "}":
            if not stack or stack.pop() != "{":
                return "} at token %d" % i
        elif t == "\\left":
            if i + 1 >= len(ts) or ts[i + 1] in ("{", "}", "\\left", "\\right"):
                return "\\left without a delimiter"
            stack.append("\\left")
            i += 1
        elif t == "\\right":
            if not stack or stack.pop() != "\\left":
                return "\\right at token %d" % i
            if i + 1 >= len(ts) or ts[i + 1] in ("{", "}", "\\left", "\\right"):
                return "\\right without a delimiter"
            i += 1
        elif t in ("\\begin", "\\end"):
            j = i + 1
            name = ""
            if j < len(ts) and ts[j] == "{":
                j += 1
                while j < len(ts) and ts[j] != "}":
                    name += ts[j]
                    j += 1
            if t == "\\begin":
                stack.append("env " + name)
            elif not stack or stack.pop() != "env " + name:
                return "\\end{%s} at token %d" % (name, i)
            i = j
        elif t == "\\sqrt" and i + 1 < len(ts) and ts[i + 1] == "[":
            # the index ends with the first ] outside of braces
            j, depth = i + 2, 0
            while j < len(ts) and (depth or ts[j] != "]"):
                depth += (ts[j] == "{") - (ts[j] == "}")
                j += 1
            if j + 1 >= len(ts) or ts[j + 1] != "{":
                return "\\sqrt whose index ends early"
        elif t in ("^", "_"):
            if i + 1 >= len(ts) or ts[i + 1] != "{":
                return "%s without a group" % t
        elif t in ("%", "#", "$", "~"):
            return "raw %s" % t
        elif t == "&":
            if not any(x.startswith("env ") for x in stack):
                return "& outside an environment"
        elif t == "\\":
            return "a lone backslash"
        i += 1
    return "unclosed %s" % stack[-1] if stack else None
