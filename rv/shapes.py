"""Families of documents that grow in one dimension: used for the size
boundaries, the work monitors and the depth monitors."""
from .node import N


def mi(t="x"):
    return N("mi", text=t)


def wide(tok):
    """name -> fn(n) giving a formula with n items at one place. tok() makes a leaf."""
    def L(n):
        return [tok() for _ in range(n)]

    def doc(*k):
        return N("math", list(k))
    return {
        "math": lambda n: N("math", L(n)),
        "mrow": lambda n: doc(N("mrow", L(n))),
        "unknown": lambda n: doc(N("qrow", L(n))),
        "msqrt": lambda n: doc(N("msqrt", L(n))),
        "menclose": lambda n: doc(N("menclose", L(n), attrs={"notation": "box"})),
        "merror": lambda n: doc(N("merror", L(n))),
        "mfenced": lambda n: doc(N("mfenced", L(n), attrs={"open": "[", "close": "]", "separators": ";,"})),
        "mfenced-seps": lambda n: doc(N("mfenced", L(max(2, n // 2)), attrs={"separators": ";,!:" * (n // 4) + ";" * (n % 4)})),
        "toggle": lambda n: doc(N("maction", L(n), attrs={"actiontype": "toggle"})),
        "action": lambda n: doc(N("maction", L(n + 1), attrs={"actiontype": "tooltip"})),
        "phantom": lambda n: doc(tok(), N("mphantom", L(n)), tok()),
        "rows": lambda n: doc(N("mfenced", [N("mtable", [N("mtr", [N("mtd", [tok()])]) for _ in range(n)])],
                                attrs={"open": "[", "close": "]"})),
        "cols": lambda n: doc(N("mfenced", [N("mtable", [N("mtr", [N("mtd", [tok()]) for _ in range(n)]) for _ in range(2)])],
                                attrs={"open": "(", "close": ")"})),
        "cell": lambda n: doc(N("mfenced", [N("mtable", [N("mtr", [N("mtd", L(n)), N("mtd", L(1))])])],
                                attrs={"open": "|", "close": "|"})),
        "inner-tables": lambda n: doc(N("mfenced", [N("mtable", [N("mtr", [
            N("mtd", [N("mtable", [N("mtr", [N("mtd", [tok()])])])]) for _ in range(min(n, 60))])])],
            attrs={"open": "{", "close": ""})),
        "postscripts": lambda n: doc(N("mmultiscripts", [tok()] + L(max(2, n)))),
        "prescripts": lambda n: doc(N("mmultiscripts", [tok(), tok(), N("mprescripts")] + L(n))),
        "both-scripts": lambda n: doc(N("mmultiscripts", [tok()] + L(n) + [N("mprescripts")] + L(n + 2))),
        "sup-base": lambda n: doc(N("msup", [N("mrow", L(n)), tok()])),
        "sub-script": lambda n: doc(N("msub", [tok(), N("mrow", L(n))])),
        "subsup-base": lambda n: doc(N("msubsup", [N("mrow", L(n)), tok(), tok()])),
        "underover-base": lambda n: doc(N("munderover", [N("mrow", L(n)), tok(), tok()])),
        "numerator": lambda n: doc(N("mfrac", [N("mrow", L(n)), tok()])),
        "denominator": lambda n: doc(N("mfrac", [tok(), N("mrow", L(n))])),
        "bevelled": lambda n: doc(N("mfrac", [N("mrow", L(n)), N("mrow", L(n // 2))], attrs={"bevelled": "true"})),
        "root-index": lambda n: doc(N("mroot", [tok(), N("mrow", L(n))])),
        "radicand": lambda n: doc(N("mroot", [N("mrow", L(n)), tok()])),
        "over-base": lambda n: doc(N("mover", [N("mrow", L(n)), tok()])),
        "over-annotation": lambda n: doc(N("mover", [tok(), N("mrow", L(n))])),
        "under-base": lambda n: doc(N("munder", [N("mrow", L(n)), tok()])),
        "fractions": lambda n: doc(*[N("mfrac", [tok(), tok()]) for _ in range(n)]),
        "powers": lambda n: doc(*[N("msup", [tok(), tok()]) for _ in range(n)]),
        "fences": lambda n: doc(*[N("mfenced", [tok(), tok()]) for _ in range(n)]),
        "attributes": lambda n: doc(N("mrow", [tok()], attrs={"data-%d" % i: "v" for i in range(n)})),
    }


def spelt():
    """name -> fn(n) giving a document, as text, with n items of what is not an element of a formula"""
    mi, m = "<mi>x</mi>", "<math><mi>x</mi></math>"

    def around(a, item, b):
        return lambda n: a + item * n + b

    def counted(a, item, b):
        return lambda n: a + "".join(item % i for i in range(n)) + b
    return {
        "s-formulas": around("<d>", m, "</d>"), "s-formulas apart": around("<d>", "<p>t<b>" + m + "</b></p>", "</d>"),
        "s-formulas in a formula": around("<math>", m, "</math>"), "s-formulas with formulas": around("<d>", "<math>" + m + "<mo>+</mo></math>", "</d>"),
        "s-empty formulas": around("<d>", "<math/>", "</d>"), "s-markup before": around("<d>", "<p>t</p>", m + "</d>"), "s-markup after": around("<d>" + m, "t<br/>", "</d>"),
        "s-other formula tokens": around("<d>" + m, mi, m + "</d>"),
        "s-comments": around("<math>", "<!--c-->" + mi, "</math>"), "s-comments in a token": around("<math><mi>", "a<!--c-->", "</mi></math>"),
        "s-comments before": around("", "<!--c-->", m), "s-comments after": around(m, "<!--c-->", ""),
        "s-sections in a token": around("<math><mi>", "<![CDATA[a]]>b", "</mi></math>"), "s-sections": around("<math>", "<mi><![CDATA[a]]></mi>", "</math>"),
        "s-instructions": around("<math>", "<?p q?>" + mi, "</math>"), "s-instructions in a token": around("<math><mn>", "1<?p q?>", "</mn></math>"),
        "s-blanks": around("<math>", " \n\t", mi + "</math>"), "s-blanks between": around("<math>", "\n  " + mi, "</math>"), "s-line ends": around("<math><mtext>", "a\r\n", "</mtext></math>"),
        "s-references": around("<math><mi>", "&#x61;&lt;", "</mi></math>"), "s-entity": around("<!DOCTYPE math [<!ENTITY e 'q'>]><math><mi>", "&e;", "</mi></math>"),
        "s-valueless": around("<math>", "<mi a b= c>x</mi>", "</math>"), "s-valueless in one tag": counted("<math><mi", " a%d", ">x</mi></math>"),
        "s-valueless once": around("<math>", "<mi a='b'>x</mi>", "<mi c>x</mi></math>"), "s-valueless first": around("<math><mi c>x</mi>", "<mi a='b'>x</mi>", "</math>"),
        "s-prefix": around("<mml:math>", "<mml:mi>x</mml:mi>", "</mml:math>"), "s-prefix of attributes": counted("<math><mi", " mml:a%d='b'", ">x</mi></math>"),
        "s-prefix once": around("<math>", mi, "<mml:mi>x</mml:mi></math>"), "s-namespaces": counted("<math><mi", " xmlns:a%d='b'", ">x</mi></math>"),
        "s-annotations": around("<math><semantics>" + mi, "<annotation>a</annotation>", "</semantics></math>"), "s-hidden": around("<math>", "<mphantom>" + mi + "</mphantom>", mi + "</math>"),
        "s-annotated": around("<math>", "<semantics>" + mi + "<annotation>a</annotation></semantics>", "</math>"), "s-nothing": around("<math>", "<mrow/>", "</math>"),
        "s-unknown names": counted("<math>", "<u%d/>", "</math>"),
        "s-different tokens": counted("<math>", "<mi>v%d</mi>", "</math>"), "s-different numbers": counted("<math>", "<mn>%d</mn>", "</math>"),
        "s-different words": counted("<math>", "<mtext>w%d z</mtext>", "</math>"), "s-different attributes": counted("<math>", "<mi class='c%d'>x</mi>", "</math>"),
        "s-different fences": counted("<math>", "<mfenced open='[' close=']' id='f%d'><mi>x</mi></mfenced>", "</math>"),
        "s-failing at the end": around("<math>", mi, "<mfrac/></math>"), "s-failing formula at the end": around("<d>", m, "<math><mfrac/></math></d>"),
        "s-broken at the end": around("<math>", mi, "</mat>"), "s-failing everywhere": around("<math>", "<mfrac/>", "</math>"),
        "s-broken everywhere": around("<math>", "<mi>&</mi>", "</math>"), "s-broken and valueless": around("<math>", "<mi a b=>x</mi>", "</mat>"),
        "s-operators": around("<math>", "<mo>+</mo><mo>&#x2211;</mo>", "</math>"), "s-invisible": around("<math>", "<mo>&#x2062;</mo>", "</math>"), "s-texts": around("<math>", "<mtext>a b</mtext>", "</math>"),
        "s-accents": around("<math>", "<mover>" + mi + "<mo>^</mo></mover>", "</math>"), "s-roots": around("<math>", "<mroot>" + mi + mi + "</mroot><msqrt>" + mi + "</msqrt>", "</math>"),
        "s-tables": around("<math>", "<mtable><mtr><mtd>" + mi + "</mtd></mtr></mtable>", "</math>"),
        "s-multiscripts": around("<math>", "<mmultiscripts>" + mi * 3 + "<mprescripts/>" + mi * 2 + "</mmultiscripts>", "</math>"),
        "s-underovers": around("<math>", "<munderover>" + mi * 3 + "</munderover><msubsup>" + mi * 3 + "</msubsup>", "</math>"),
        "s-enclosures": around("<math>", "<menclose notation='box'>" + mi + "</menclose><merror>" + mi + "</merror>", "</math>"), "s-actions": around("<math>", "<maction>" + mi + mi + "</maction>", "</math>"),
        "s-empty rows": around("<math><mtable>", "<mtr/>", "</mtable></math>"), "s-empty cells": around("<math><mtable><mtr>", "<mtd/>", "</mtr></mtable></math>"),
    }


ACCENTS = (("hat", "^"), ("bar", "\u00af"), ("low", "_"), ("brace", "\u23de"), ("under brace", "\u23df"), ("line", "\u203e"), ("arrow", "\u2192"), ("word", "sin"),
           ("nothing", ""))


def deep(tok):
    """name -> (fn(n), levels of elements per step)"""
    def chain(step):
        def make(n):
            t = tok()
            for _ in range(n):
                t = step(t)
            return N("math", [t])
        return make
    one = {
        "mrow": lambda t: N("mrow", [t]), "mstyle": lambda t: N("mstyle", [t]), "unknown": lambda t: N("qrow", [t]),
        "mrow-2": lambda t: N("mrow", [tok(), t]), "msqrt": lambda t: N("msqrt", [t]), "menclose": lambda t: N("menclose", [t]),
        "merror": lambda t: N("merror", [t]), "mfenced": lambda t: N("mfenced", [t]),
        "mfenced-2": lambda t: N("mfenced", [t, tok()], attrs={"open": "[", "close": "]"}),
        "num": lambda t: N("mfrac", [t, tok()]), "den": lambda t: N("mfrac", [tok(), t]),
        "bevelled": lambda t: N("mfrac", [t, tok()], attrs={"bevelled": "true"}),
        "radicand": lambda t: N("mroot", [t, tok()]), "index": lambda t: N("mroot", [tok(), t]),
        "sup-base": lambda t: N("msup", [t, tok()]), "sup": lambda t: N("msup", [tok(), t]),
        "sub-base": lambda t: N("msub", [t, tok()]), "sub": lambda t: N("msub", [tok(), t]),
        "subsup-base": lambda t: N("msubsup", [t, tok(), tok()]), "subsup-sup": lambda t: N("msubsup", [tok(), tok(), t]),
        "underover-base": lambda t: N("munderover", [t, tok(), tok()]),
        "underover-under": lambda t: N("munderover", [tok(), t, tok()]),
        "over-base": lambda t: N("mover", [t, tok()]), "over": lambda t: N("mover", [tok(), t]),
        "under-base": lambda t: N("munder", [t, tok()]), "under": lambda t: N("munder", [tok(), t]),
        "toggle": lambda t: N("maction", [t, tok()], attrs={"actiontype": "toggle"}),
        "action": lambda t: N("maction", [t, tok()], attrs={"actiontype": "tooltip"}),
        "math": lambda t: N("math", [t]), "semantics": lambda t: N("semantics", [t, N("annotation", text="a")]),
        "multi-base": lambda t: N("mmultiscripts", [t, tok(), tok()]),
        "multi-post": lambda t: N("mmultiscripts", [tok(), t, tok()]),
        "multi-pre": lambda t: N("mmultiscripts", [tok(), tok(), N("mprescripts"), t, tok()]),
        "phantom": lambda t: N("mphantom", [t]), "mtr": lambda t: N("mtr", [t]), "mtd": lambda t: N("mtd", [t]),
    }
    for name, ch in ACCENTS:
        one["over " + name] = lambda t, ch=ch: N("mover", [t, N("mo", text=ch)])
        one["under " + name] = lambda t, ch=ch: N("munder", [t, N("mo", text=ch)])
    one.update({
        "accent of accent": lambda t: N("mover", [tok(), N("mover", [t, N("mo", text="^")])]),
        "fenced-seps": lambda t: N("mfenced", [tok(), t, tok()], attrs={"open": "{", "close": "", "separators": ";|"}),
        "empty fences": lambda t: N("mfenced", [t], attrs={"open": "", "close": "", "separators": ""}),
        "bevelled-den": lambda t: N("mfrac", [tok(), t], attrs={"bevelled": "true"}),
        "sup-of-row": lambda t: N("msup", [N("mrow", [t, tok()]), N("none")]),
        "subsup-sub": lambda t: N("msubsup", [tok(), t, tok()]), "underover-over": lambda t: N("munderover", [tok(), tok(), t]),
        "pre-only": lambda t: N("mmultiscripts", [t, N("mprescripts"), tok(), tok()]),
        "both": lambda t: N("mmultiscripts", [t, tok(), tok(), N("mprescripts"), tok(), tok()]),
        "text after": lambda t: N("mrow", [t, N("mtext", text="a b")]), "styled after": lambda t: N("mrow", [t, N("mi", text="x", attrs={"mathvariant": "bold"})]),
        "phantom beside": lambda t: N("mrow", [N("mphantom", [tok()]), t]), "hidden copy": lambda t: N("semantics", [t, N("annotation-xml", [tok()])]),
        "no action": lambda t: N("maction", [t]), "empty action": lambda t: N("maction", [t], attrs={"actiontype": ""}),
        "identifier": lambda t: N("mi", [t]), "text element": lambda t: N("mtext", [t]), "labelled": lambda t: N("mlabeledtr", [t]),
        "with attributes": lambda t: N("mrow", [t], attrs={"open": "[", "notation": "box", "mathvariant": "bold", "id": "x"}),
    })
    for nota in ("actuarial", "radical", "box", "circle", "left", "top", "updiagonalstrike", "updiagonalarrow", "verticalstrike", "madruwb", "phasorangle", "none such"):
        one["enclosed in " + nota] = lambda t, nota=nota: N("menclose", [t], attrs={"notation": nota})
    three = {
        "mtable": lambda t: N("mtable", [N("mtr", [N("mtd", [t])])]),
        "piecewise": lambda t: N("mfenced", [N("mtable", [N("mtr", [N("mtd", [t]), N("mtd", [tok()])]), N("mtr", [N("mtd", [tok()])])])], attrs={"open": "{", "close": ""}),
        "fenced-matrix": lambda t: N("mfenced", [N("mtable", [N("mtr", [N("mtd", [t])])])], attrs={"open": "[", "close": "]"}),
    }
    one.update(three)
    return {k: (chain(v), LEVELS.get(k, 1)) for k, v in one.items()}


# levels of elements per step, where not one
LEVELS = {"mtable": 3, "fenced-matrix": 4, "piecewise": 4, "accent of accent": 2, "sup-of-row": 2}
