"""Writes spec/uni.json: the non-ASCII characters the drivers use, with the
UTF-8 width, case mappings and display width that Unicode gives them."""
import json
import os
import unicodedata

# Characters beyond the basic plane: TLC's texts are made of 16-bit units, so
# they travel as characters of the private use area (see dv/core.py).
BEYOND = {"\ue000": "😀", "\ue001": "𐐀", "\ue002": "𐐨"}
BACK = {v: k for k, v in BEYOND.items()}
CHARS = "éüÄßñ§×Ωλж€→中文あ…√－　²٣😀𐐀𐐨àîöçåøêя’“”—°\ufffd"
# The frames lists, maps and widgets are drawn with.
CHARS += "┏━┳┓┃┣╋┫┗┻┛│╒═╤╕├─┼┤└┴┘┌┐╡╞╪┠┨"
while True:
    more = "".join(sorted({x for c in CHARS for x in c.lower() + c.upper() if ord(x) > 127} - set(CHARS)))
    if not more:
        break
    CHARS += more
out = {"width": [], "lower": [], "upper": [], "dw": [], "ws": [], "debug": [], "alpha": [], "numeric": [], "islower": [], "isupper": [],
       "order": [[chr(i), i] for i in range(128)] + [[c, ord(c)] for c in sorted(CHARS)]}
for c in CHARS:
    out["width"].append([c, len(c.encode())])
    out["lower"].append([c, c.lower()])
    out["upper"].append([c, c.upper()])
    out["dw"].append([c, 2 if unicodedata.east_asian_width(c) in "WF" else 1])
    if c.isspace():
        out["ws"].append(c)
    cat = unicodedata.category(c)
    for name, yes in (("alpha", c.isalpha()), ("numeric", cat in ("Nd", "Nl", "No")),
                      ("islower", c.islower()), ("isupper", c.isupper())):
        if yes:
            out[name].append(c)
SHORT = {0: "\\0", 9: "\\t", 10: "\\n", 13: "\\r", 34: "\\\"", 92: "\\\\"}
for c in [chr(i) for i in range(128)] + list(CHARS):
    if ord(c) in SHORT:
        out["debug"].append([c, SHORT[ord(c)]])
    elif c != " " and unicodedata.category(c) in ("Cc", "Cf", "Cs", "Co", "Cn", "Zl", "Zp", "Zs"):
        out["debug"].append([c, "\\u{%x}" % ord(c)])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "uni.json"), "w") as f:
    f.write(json.dumps(out, ensure_ascii=False).translate(str.maketrans(BACK)) + "\n")
