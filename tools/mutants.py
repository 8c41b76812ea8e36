"""Mutants of /repo: which of them survive its tests, and which of those the checks catch.

A development aid (no check runs it):  mutants.py list | tests [JOBS] | proofs [JOBS]
State is kept in /tmp/mut.
"""
import ast
import concurrent.futures as cf
import glob
import json
import os
import shutil
import subprocess
import sys

REPO = os.environ.get("MUT_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = "/tmp/mut"
PY = "/opt/venv/bin/python"


def files():
    out = []
    for p in glob.glob(REPO + "/pyudunits2/**/*.py", recursive=True):
        r = os.path.relpath(p, REPO)
        if "/tests/" in r or "/parser/" in r or "_version" in r or "expander" in r or "compile" in r or "antlr" in r.lower():
            continue
        out.append(r)
    return sorted(out)


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.lines, self.found = src, src.split("\n"), []
        self.offs = [0]
        for l in src.encode().split(b"\n"):
            self.offs.append(self.offs[-1] + len(l) + 1)
        self.b = src.encode()

    def span(self, n):
        return self.offs[n.lineno - 1] + n.col_offset, self.offs[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()

    def put(self, n, new, what):
        a, b = self.span(n)
        if self.b[a:b].decode() != new:
            self.found.append((a, b, new, what, n.lineno))

    def between(self, l, r, new, what):
        a, b = self.span(l)[1], self.span(r)[0]
        self.found.append((a, b, new, what, l.lineno))

    def visit_Compare(self, n):
        sw = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
        if len(n.ops) == 1:
            t = f"{self.text(n.left)} {sw[type(n.ops[0])]} {self.text(n.comparators[0])}"
            self.put(n, "(" + t + ")", "compare")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = " or " if isinstance(n.op, ast.And) else " and "
        self.put(n, "(" + op.join(f"({self.text(v)})" for v in n.values) + ")", "boolop")
        for i, v in enumerate(n.values):
            rest = [x for j, x in enumerate(n.values) if j != i]
            self.put(n, "(" + (" and " if op == " or " else " or ").join(f"({self.text(x)})" for x in rest) + ")", "drop operand")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub)):
            self.put(n, f"({self.text(n.operand)})", "unary")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        sw = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Pow: ["*"], ast.BitOr: ["&"], ast.Mod: []}
        for o in sw.get(type(n.op), []):
            self.put(n, f"({self.text(n.left)} {o} {self.text(n.right)})", "binop")
        if isinstance(n.op, (ast.Sub, ast.Div, ast.Pow)):
            self.put(n, f"({self.text(n.right)} {self.opname(n.op)} {self.text(n.left)})", "swap operands")
        self.generic_visit(n)

    def opname(self, o):
        return {ast.Sub: "-", ast.Div: "/", ast.Pow: "**"}[type(o)]

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.put(n, str(not v), "constant")
        elif isinstance(v, int):
            self.put(n, str(v + 1), "constant")
            if v != 0:
                self.put(n, str(v - 1), "constant")
        elif isinstance(v, str) and 0 < len(v) < 20 and self.text(n)[0] in "'\"":
            self.put(n, repr(v + "x"), "string")
            self.put(n, repr(""), "string")
        elif v is None:
            pass

    def visit_JoinedStr(self, n):
        return

    def visit_If(self, n):
        self.put(n.test, "True", "condition")
        self.put(n.test, "False", "condition")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.put(n.test, "True", "condition")
        self.put(n.test, "False", "condition")
        self.generic_visit(n)

    def visit_Return(self, n):
        if n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            self.put(n.value, "None", "return")
        self.generic_visit(n)

    def visit_Call(self, n):
        if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            a, b = self.span(n.args[0])[0], self.span(n.args[1])[1]
            self.found.append((a, b, f"{self.text(n.args[1])}, {self.text(n.args[0])}", "swap arguments", n.lineno))
        if len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Name) and n.func.id in ("abs", "int", "str", "sorted", "float", "set", "list", "dict", "tuple"):
            self.put(n, f"({self.text(n.args[0])})", "drop call")
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("strip", "lower", "visit", "rstrip", "lstrip", "copy", "inverted", "items") and len(n.args) <= 1 and not n.keywords:
            self.put(n, f"({self.text(n.func.value if not n.args else n.args[0])})", "drop call")
        for k in n.keywords:
            if k.arg and isinstance(k.value, (ast.Name, ast.Attribute)):
                self.put(k.value, "None", "keyword None")
        self.generic_visit(n)

    def body(self, stmts):
        for s in stmts:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete, ast.Assert, ast.Continue, ast.Break, ast.For, ast.If)):
                self.put(s, "pass", "delete statement")
            if isinstance(s, ast.Continue):
                self.put(s, "break", "continue")
            if isinstance(s, ast.Break):
                self.put(s, "continue", "break")
            if isinstance(s, ast.For) and isinstance(s.iter, (ast.Call, ast.Attribute, ast.Name)):
                self.put(s.iter, f"list({self.text(s.iter)})[1:]", "skip first")
                self.put(s.iter, f"list({self.text(s.iter)})[:1]", "only first")
                self.put(s.iter, f"list({self.text(s.iter)})[::-1]", "reverse")

    def generic_visit(self, n):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
                self.body(b)
        # annotations don't matter
        for name, v in ast.iter_fields(n):
            if name in ("annotation", "returns", "decorator_list"):
                continue
            for x in v if isinstance(v, list) else [v]:
                if isinstance(x, ast.AST):
                    self.visit(x)


def mutants():
    out = []
    for f in files():
        src = open(f"{REPO}/{f}", encoding="utf8").read()
        F = Finder(src)
        F.visit(ast.parse(src))
        seen = set()
        for a, b, new, what, line in F.found:
            if (a, b, new) in seen:
                continue
            seen.add((a, b, new))
            m = (F.b[:a] + new.encode() + F.b[b:]).decode()
            try:
                t = ast.parse(m)
            except SyntaxError:
                continue
            if ast.dump(t) == ast.dump(ast.parse(src)):
                continue
            out.append({"id": len(out), "file": f, "line": line, "what": what, "old": F.b[a:b].decode(), "new": new, "a": a, "b": b})
    return out


def worker_copy(w):
    d = f"{OUT}/w{w}"
    if not os.path.exists(d):
        subprocess.run(["cp", "-a", REPO, d], check=True)
    return d


class Mutant:
    def __init__(self, d, m):
        self.p, self.m = f"{d}/{m['file']}", m

    def __enter__(self):
        self.src = open(f"{REPO}/{self.m['file']}", "rb").read()
        with open(self.p, "wb") as fh:
            fh.write(self.src[:self.m["a"]] + self.m["new"].encode() + self.src[self.m["b"]:])

    def __exit__(self, *x):
        with open(self.p, "wb") as fh:
            fh.write(self.src)


def pool(jobs, todo, run, path):
    import queue
    q = queue.Queue()
    for i in range(jobs):
        q.put(worker_copy(i))
    done = json.load(open(path)) if os.path.exists(path) else {}

    def go(m):
        if str(m["id"]) in done:
            return m, done[str(m["id"])]
        d = q.get()
        try:
            with Mutant(d, m):
                return m, run(d, m)
        finally:
            q.put(d)
    with cf.ThreadPoolExecutor(jobs) as ex:
        for i, (m, r) in enumerate(ex.map(go, todo)):
            done[str(m["id"])] = r
            if i % 20 == 0:
                json.dump(done, open(path, "w"))
                print(i, len(todo), flush=True)
    json.dump(done, open(path, "w"))
    return done


def tests(d, m):
    env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1")
    try:
        p = subprocess.run([PY, "-B", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"], cwd=d, env=env, capture_output=True, text=True, timeout=60)
    except subprocess.TimeoutExpired:
        return "timeout"
    return "survived" if p.returncode == 0 else "killed"


def executed():
    """Which functions the proof of each contract executes, on the unchanged code."""
    path = f"{OUT}/contracts.json"
    if os.path.exists(path):
        return json.load(open(path))
    names = json.loads(subprocess.run([PY, "-B", "-c", """
import json, contracts
out = []
for i in range(1, 19):
    out += [n for n in contracts.names_for("P%02d" % i) if n not in out]
print(json.dumps(out))
"""], cwd=HERE, capture_output=True, text=True).stdout)

    def run(n):
        f = f"{OUT}/x{names.index(n)}.json"
        subprocess.run([PY, "-B", "-m", "dv.one", n, f, "300"], cwd=HERE, capture_output=True, env=dict(os.environ, VERIF_REPO=REPO))
        r = json.load(open(f))
        os.unlink(f)
        return n, sorted(set(r["executed"]) | {r["function"]})
    with cf.ThreadPoolExecutor(4) as ex:
        r = dict(ex.map(run, names))
    json.dump(r, open(path, "w"))
    return r


def qualname(m):
    """The function a mutant is in: module:Class.method, or module: at the top level."""
    src = open(f"{REPO}/{m['file']}", encoding="utf8").read()
    found = []

    def walk(n, q):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)) and c.lineno <= m["line"] <= c.end_lineno:
                if isinstance(c, ast.FunctionDef):
                    found.append(".".join(q + [c.name]))
                walk(c, q + [c.name])
                return
            if not isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                walk(c, q)
    walk(ast.parse(src), [])
    mod = m["file"][:-3].replace("/", ".").replace(".__init__", "")
    return mod, found


def relevant(m):
    mod, fs = qualname(m)
    out = []
    for n, ex in executed().items():
        if any(x.split(" ")[0] in {f"{mod}:{f}" for f in fs} or (not fs and x.startswith(mod + ":")) for x in ex):
            out.append(n)
    return out


def proofs(d, m):
    """The contracts which fail."""
    env = dict(os.environ, VERIF_REPO=d, PYTHONPATH=HERE)
    names = relevant(m)
    res = {"refuted": [], "undecided": [], "failed": []}
    for n in names:
        f = f"{d}.out"
        p = subprocess.run([PY, "-B", "-m", "dv.one", n, f, "120", "4000"], cwd=HERE, env=env, capture_output=True, text=True)
        try:
            r = json.load(open(f))
            os.unlink(f)
        except Exception:
            res["failed"].append(n)
            continue
        for k in ("refuted", "undecided"):
            res[k] += [o["name"] for o in r["obligations"] if o["status"] == k]
        if res["refuted"]:
            break
    return res


FILES = {"_grammar": "P01 P03 P02 P04 P15", "normaliser": "P15 P13", "split": "P08 P07 P14 P09", "substitute": "P10 P08 P07", "xml_parser": "P16",
         "__main__": "P17", "_expr/sympy": "P07 P08 P02 P14", "dimensionality": "P05 P06", "atoms": "P10 P11", "graph": "P04 P01 P10",
         "_unit.py": "P07 P08 P14 P06 P05 P15 P10 P09 P13", "_unit_system": "P11 P12 P13 P15", "_unit_reference": "P02 P10 P12"}
UNUSED = ("Expression.", "UnitDefinition", "__repr__", "_datetime", "_debug_tokens", "pop_exactly_one", "configure_parser", "basis_of", "conversion_expr", "expander")


def native(d, m):
    """The properties (of those the file is about) whose bounded check fails."""
    env = dict(os.environ, VERIF_REPO=d)
    mod, fs = qualname(m)
    if any(x in mod + ":" + ".".join(fs) for x in UNUSED):
        return ["unused"]
    for k, v in FILES.items():
        if k in m["file"]:
            break
    else:
        v = "P01 P07 P11"
    for p in v.split():
        f = f"{d}.nat.json"
        subprocess.run([PY, "-B", "-m", "native.worker", p, "1000", "10", f], cwd=HERE, env=env, capture_output=True, text=True)
        try:
            r = json.load(open(f))
            os.unlink(f)
            if r["failures"]:
                return [p]
        except Exception as e:
            return [p + "?"]
    return []


if __name__ == "__main__":
    os.makedirs(OUT, exist_ok=True)
    cmd = sys.argv[1]
    jobs = int(sys.argv[2]) if len(sys.argv) > 2 else 4
    ms = mutants()
    if cmd == "list":
        for m in ms:
            print(m["id"], m["file"], m["line"], m["what"], repr(m["old"][:60]), "->", repr(m["new"][:60]))
    elif cmd == "tests":
        r = pool(jobs, ms, tests, f"{OUT}/tests.json")
        print({k: list(r.values()).count(k) for k in set(r.values())})
    else:
        t = json.load(open(f"{OUT}/tests.json"))
        ms = [m for m in ms if t.get(str(m["id"])) == "survived"]
        if cmd == "proofs":
            executed()
            pool(jobs, ms, proofs, f"{OUT}/proofs.json")
        else:
            pr = json.load(open(f"{OUT}/proofs.json"))
            ms = [m for m in ms if not pr[str(m["id"])]["refuted"]]
            pool(jobs, ms, native, f"{OUT}/native.json")
