"""The symbol dictionary of the library, as reviewed and recorded in lexicon.json:
for each of mi, mo and mn, the text of a token -> its LaTeX. Text that is not
listed has no entry, and comes out as it is (with LaTeX's specials escaped)."""
import json
import os

_HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(_HERE, "lexicon.json"), encoding="utf-8") as f:
    LEX = json.load(f)

ESCAPES = {"#": "\\#", "$": "\\$", "%": "\\%", "&": "\\&", "_": "\\_", "{": "\\{", "}": "\\}",
           "^": "\\hat{}", "~": "\\sim ", "\\": "\\backslash "}


def escape_raw(s):
    return "".join(ESCAPES.get(c, c) for c in s)


def escape(s):
    return escape_raw(s).rstrip()


def collapse(s):
    return " ".join(s.split())


def token(kind, text):
    v = collapse(text)
    got = LEX[kind].get(v)
    return escape(v) if got is None else got


def xml_char(cp):
    return (cp in (9, 10, 13) or 0x20 <= cp <= 0xD7FF or 0xE000 <= cp <= 0xFFFD or 0x10000 <= cp <= 0x10FFFF)
