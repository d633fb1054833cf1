"""Records the symbol dictionary: runs every XML character, and every
multi-character key, through mi, mo and mn of the current tree. Used once, and
reviewed; the checks read only the recorded file."""
import ast
import json
import os
import sys
from concurrent.futures import ProcessPoolExecutor

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from rv import sut  # noqa: E402

ESC = {"#": "\\#", "$": "\\$", "%": "\\%", "&": "\\&", "_": "\\_", "{": "\\{", "}": "\\}",
       "^": "\\hat{}", "~": "\\sim ", "\\": "\\backslash "}


def esc(s):
    return "".join(ESC.get(c, c) for c in s).rstrip()


def xml_char(cp):
    return cp in (9, 10, 13) or 0x20 <= cp <= 0xD7FF or 0xE000 <= cp <= 0xFFFD or 0x10000 <= cp <= 0x10FFFF


def x(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace("\r", "&#13;")


def chunk(a):
    kind, texts = a
    out = {}
    xml = "<r>" + "".join("<math><mi>QQ</mi><msup><mn>7</mn><%s>%s</%s></msup></math>" % (kind, x(t), kind) for t in texts) + "</r>"
    got = sut.convert(xml).text.split("QQ")[1:]
    assert len(got) == len(texts)
    for t, g in zip(texts, got):
        v = " ".join(t.split())
        g = g.strip()
        assert g.startswith('7^{') and g.endswith('}')
        g = g[3:-1]
        if g != esc(v):
            out[v] = g
    return kind, out


def main():
    keys = set()
    tree = ast.parse(open(os.path.join(sut.PKG_DIR, "syntax.py"), encoding="utf-8").read())
    for d in ast.walk(tree):
        if isinstance(d, ast.Dict):
            for k in d.keys:
                if isinstance(k, ast.Constant) and isinstance(k.value, str) and len(k.value) > 1:
                    keys.add(k.value)
    texts = [chr(c) for c in range(0x110000) if xml_char(c)] + sorted(keys)
    jobs = [(kind, texts[i:i + 4000]) for kind in ("mi", "mo", "mn") for i in range(0, len(texts), 4000)]
    lex = {"mi": {}, "mo": {}, "mn": {}}
    with ProcessPoolExecutor(8) as ex:
        for kind, out in ex.map(chunk, jobs):
            lex[kind].update(out)
    lex = {k: dict(sorted(v.items())) for k, v in lex.items()}
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "rv", "lexicon.json"), "w", encoding="utf-8") as f:
        json.dump(lex, f, ensure_ascii=True, indent=0)
        f.write("\n")
    print({k: len(v) for k, v in lex.items()}, sum(len(k) > 1 for v in lex.values() for k in v))


main()
