"""Writes spec/curves.json: values of the functions of analysis at sample points, as {"function argument argument": [value, decimals]}, arguments in 1/1024."""
import json
import math
import os

ONE = {"sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh, "asinh": math.asinh, "acosh": math.acosh, "atanh": math.atanh,
       "sinpi": lambda x: math.sin(math.pi * x), "cospi": lambda x: math.cos(math.pi * x), "tanpi": lambda x: math.tan(math.pi * x),
       "ln": math.log, "log2": math.log2, "log10": math.log10, "sqrt": math.sqrt, "cbrt": math.cbrt if hasattr(math, "cbrt") else lambda x: math.copysign(abs(x) ** (1 / 3), x),
       "sin": math.sin, "cos": math.cos, "tan": math.tan, "asin": math.asin, "acos": math.acos, "atan": math.atan}
TWO = {"log": lambda b, x: math.log(x) / math.log(b), "pow": lambda a, b: a ** b}
POINTS = [k * 128 for k in range(-32, 33)] + [k * 1024 for k in (5, 6, 7, 8, 9, 10, 12, 16, 25, 27, 64, 81, 100, 125, 128, 243, 256, 512, 625, 1000, -5, -8, -27, -100)] + [1, 100, 300, 3000]
out = {}


def put(name, args, f):
    try:
        v = f(*[a / 1024 for a in args])
        if isinstance(v, complex) or not math.isfinite(v) or abs(v) >= 10 ** 6:
            return
    except (ValueError, ZeroDivisionError, OverflowError):
        return
    whole = ("%.15f" % abs(v)).split(".")[0].lstrip("0")
    d = 9 - len(whole)
    out[" ".join(["math@" + name] + [str(a) for a in args])] = ["%.15f" % v, d]


for name, f in ONE.items():
    for p in POINTS:
        put(name, [p], f)
for name, f in TWO.items():
    for a in POINTS[::3]:
        for b in POINTS[::4]:
            if name == "pow" and a % 1024 == 0 and b % 1024 == 0:
                continue
            put(name, [a, b], f)
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "curves.json"), "w") as g:
    g.write("{" + ",\n".join("%s: %s" % (json.dumps(k), json.dumps(v)) for k, v in out.items()) + "}\n")
print(len(out))
