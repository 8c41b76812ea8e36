"""Constants of the code under test: where behaviour depends on a particular value, the
value is usually written in the source."""
import ast
import os

from . import base


def constants():
    ints, strs = set(), set()
    root = os.path.join(base.REPO, "pyudunits2")
    for d, _, fs in os.walk(root):
        if "tests" in d or "_antlr4_runtime" in d or d.endswith("parser"):
            continue
        for f in fs:
            if not f.endswith(".py") or f in ("_version.py", "compile.py"):
                continue
            try:
                with open(os.path.join(d, f), encoding="utf8") as fh:
                    tree = ast.parse(fh.read())
            except SyntaxError:
                continue
            docs = set()
            for n in ast.walk(tree):
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                    docs.add(id(n.value))
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and id(n) not in docs:
                    if isinstance(n.value, bool):
                        continue
                    if isinstance(n.value, int) and abs(n.value) < 10**9:
                        ints |= {n.value, n.value + 1, n.value - 1}
                    elif isinstance(n.value, str) and 0 < len(n.value) <= 12:
                        strs.add(n.value)
    return {"int": sorted(ints), "str": sorted(strs)}


NAMES = [("m", "s", "K", "km", "kg", "radian", "degC", "hour"), ("s", "m", "degC", "day", "radian", "K", "g", "mm"),
         ("K", "kg", "s", "m", "hour", "%", "km", "degF")]


def spread(text):
    """The cases of every kind that an expression of a countermodel suggests."""
    import re
    out = [("parse", text), ("total", text), ("print", text)]
    for names in NAMES:
        s = re.sub(r"(?<![A-Za-z])[a-hm](?![A-Za-z])", lambda m: names["abcdefghm".index(m.group()) % 8], text)
        out += [("parse", s), ("print", s), ("dims", ["std", s]), ("expand", ["std", s]), ("date", ["std", s]), ("resolve-string", ["std", s])]
        for o in (s, "m", "K", "s", f"1/({s})", f"2 ({s})", f"({s} @ 1)"):
            for a, b in ((s, o), (o, s)):
                out += [("convertible", ["std", a, b]), ("convert", ["std", a, b, [1.5, 0, -2]]), ("equal", ["std", a, b]), ("stable", ["std", a, b])]
        out.append(("roundtrip", ["std", s, s, s, [1.5, 0.25]]))
    return out


def hints(run, hints):
    """Inputs suggested by a failed obligation, of the kinds its property is checked by."""
    from . import checks
    own = KINDS_OF.get(run.prop, ())
    todo = []
    for kind, data in hints:
        if kind == "expr":
            todo += [(k, d) for k, d in spread(data) if k in own]
        elif kind in checks.KINDS:
            todo.append((kind, data))
    for kind, data in todo[:400]:
        checks.attempt(run, kind, data)


KINDS_OF = {"P01": ("parse",), "P02": ("parse",), "P03": ("total",), "P04": ("print",), "P05": ("dims",), "P06": ("convertible",), "P07": ("convert",),
            "P08": ("convert",), "P09": ("roundtrip",), "P10": ("expand",), "P11": ("resolve-string",), "P13": ("stable",), "P14": ("equal",), "P15": ("date",)}
