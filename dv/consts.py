"""Which collections outside of objects are constants: those which no code of the package may change.

A global (or class attribute, default argument, or captured) collection is read as the value it
has when the module has been imported.  That is what it is on every call only if nothing changes it,
which is decided by how its name is used throughout the package: any use which is not plainly a
read makes it a variable, and reading one is outside the verifier's reach.
"""
import ast
import collections
import enum
import os
import types

from .values import Unsupported

MUTABLE = (list, dict, set, bytearray, collections.deque)
READERS = {"get", "items", "keys", "values", "index", "count", "copy", "union", "intersection", "difference",
           "issubset", "issuperset", "isdisjoint", "symmetric_difference", "__contains__", "__getitem__", "__len__"}
FUNCTIONS = {"len", "sorted", "list", "tuple", "set", "frozenset", "dict", "any", "all", "enumerate", "iter", "sum",
             "min", "max", "zip", "map", "filter", "isinstance", "repr", "str", "bool", "reversed", "print", "type"}
_uses = {}


def uses(root):
    """name -> whether each of its uses is a read (False: it may be changed); and names declared global."""
    if root in _uses:
        return _uses[root]
    bad, glob, assigned = set(), set(), set()
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x not in ("tests", "__pycache__")]
        for f in fs:
            if f.endswith(".py"):
                with open(os.path.join(d, f), encoding="utf8") as fh:
                    scan(ast.parse(fh.read()), bad, glob, assigned)
    _uses[root] = bad, glob | assigned, assigned
    return _uses[root]


def scan(tree, bad, glob, assigned):
    parent = {c: n for n in ast.walk(tree) for c in ast.iter_child_nodes(n)}
    # Assignments to a name where it is created: at the top level of a module or of a class.
    toplevel = set()
    stack = [tree]
    while stack:
        n = stack.pop()
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                continue
            toplevel.add(c)
            stack.append(c)
    for n in ast.walk(tree):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        if isinstance(n, ast.Name):
            name, ctx = n.id, n.ctx
        elif isinstance(n, ast.Attribute):
            name, ctx = n.attr, n.ctx
        else:
            continue
        if isinstance(ctx, ast.Store):
            if isinstance(parent[n], ast.AugAssign):
                bad.add(name)
            if isinstance(n, ast.Attribute) and not (isinstance(n.value, ast.Name) and n.value.id == "self"):
                assigned.add(name)
            continue
        if isinstance(ctx, ast.Del):
            bad.add(name)
            continue
        if not read(n, parent):
            bad.add(name)


def read(n, parent):
    p = parent.get(n)
    if isinstance(p, ast.Subscript) and p.value is n:
        return isinstance(p.ctx, ast.Load)
    if isinstance(p, ast.Compare):
        return True
    if isinstance(p, ast.Attribute) and p.value is n:
        g = parent.get(p)
        return p.attr in READERS if isinstance(g, ast.Call) and g.func is p else False
    if isinstance(p, (ast.For, ast.AsyncFor, ast.comprehension)) and p.iter is n:
        return True
    if isinstance(p, ast.Call) and n in p.args and isinstance(p.func, ast.Name) and p.func.id in FUNCTIONS:
        return True
    if isinstance(p, ast.Call) and n in p.args and isinstance(p.func, ast.Attribute) and p.func.attr == "join":
        return True
    if isinstance(p, ast.Starred) or isinstance(p, ast.BinOp) or isinstance(p, ast.FormattedValue):
        return True
    if isinstance(p, (ast.If, ast.While, ast.IfExp)) and p.test is n or isinstance(p, (ast.UnaryOp,)):
        return True
    if isinstance(p, ast.Dict) and None in p.keys:
        return True
    return False


def immutable(v, depth=4):
    """Nothing to change in it, as far as a verified function is concerned."""
    if isinstance(v, (tuple, frozenset)) and depth:
        return all(immutable(x, depth - 1) for x in v)
    return not isinstance(v, MUTABLE)


def check(ip, v, name, where=None):
    """Raise Unsupported unless v, read by this name from outside of any object, is a constant."""
    if isinstance(v, (types.FunctionType, types.ModuleType, type)) and not isinstance(where, types.FunctionType):
        return v
    bad, assigned, _ = uses(root(ip))
    if where != "default" and name in assigned or isinstance(where, types.FunctionType):
        raise Unsupported(f"the variable {name}, which may be assigned by a function")
    if type(v).__name__ == "VList":
        return v  # Given by a contract.
    if isinstance(v, MUTABLE):
        if name in bad or not all(immutable(x) for x in (v.values() if isinstance(v, dict) else v)):
            raise Unsupported(f"the collection {name}, which may be changed")
        if isinstance(where, types.ModuleType) and not where.__name__.startswith(ip.package):
            raise Unsupported(f"the collection {name} of another package")
        return v
    m = type(v).__module__ or ""
    if (m == ip.package or m.startswith(ip.package + ".")) and not isinstance(v, (enum.Enum, BaseException)) and not frozen(v):
        raise Unsupported(f"the object {name}, which may be changed")
    return v


def root(ip):
    import sys
    m = sys.modules[ip.package]
    return list(m.__path__)[0] if hasattr(m, "__path__") else os.path.dirname(m.__file__)


def frozen(v):
    import dataclasses
    return dataclasses.is_dataclass(v) and type(v).__dataclass_params__.frozen and all(immutable(getattr(v, f.name, None)) for f in dataclasses.fields(v))
