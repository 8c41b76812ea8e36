"""Functions which the engine executes symbolically and CPython executes for real."""
import dataclasses
import functools
import itertools
import typing
from collections import defaultdict
from decimal import Decimal


def arith(a: int, b: int):
    c = a + b * 2
    if c > 10:
        c -= 3
    elif a == b:
        return -c
    return c * a - b


def floors(a: int, b: int):
    if b == 0:
        raise ZeroDivisionError("no")
    return (a // b, a % b) if b > 0 else (a, b)


def powers(a: int):
    return a ** 2, abs(a), -a, +a, max(a, 3), min(a, -1, 2)


def chain(a: int, b: int, c: int):
    if a < b <= c:
        return "in"
    return "out" if not (a == b or c != 0) else "zero"


def shortcut(a: int, b: int):
    return (a and b, a or b, (a or 7) and (b or 8), not a)


def excs(a: int):
    out = 0
    try:
        if a > 3:
            raise ValueError("big")
        if a < -3:
            raise KeyError("small")
        out = 1
    except ValueError:
        out = 2
    except LookupError as e:
        out = 3
        if a < -5:
            raise RuntimeError("x") from e
    else:
        out += 10
    finally:
        out += 100
    return out


def nested_finally(a: int):
    for i in range(4):
        try:
            if i == a:
                continue
            if i == a + 1:
                break
        finally:
            a += 0
    else:
        return "never broke", i
    return "broke", i


def loops(a: int):
    t = 0
    for i, x in enumerate([3, 1, 2]):
        if x == a:
            continue
        t += i * x
    for x, y in zip((1, 2, 3), (4, 5, 6)):
        t += x * y
        if t > 20 + a:
            break
    else:
        t = -t
    return t


def whiles(a: int):
    n = 0
    while n < 5:
        n += 2
        if n == a:
            break
    else:
        return "full", n
    return "broken", n


def strings(s: str, t: str):
    return s + "-" + t, s == t, f"<{s}|{t!s}>", "%s=%s" % (s, t), "{0}/{1}".format(s, t)


def prefixes(s: str):
    if s.startswith("ab"):
        return s[2:], "ab"
    if s.endswith(("y", "zz")):
        return s[:-1], s[-1]
    return s, None


def find(s: str):
    if "x" in s:
        return s.replace("x", "", 1) if not s else "has"
    return len(s)


def chars(s: str):
    if len(s) > 2:
        return s[0] + s[-1] + s[1:2]
    return ""


def optional(s: typing.Optional[str]):
    if s is None:
        return "none"
    if not s:
        return "empty"
    return "some " + s


def or_default(s: typing.Optional[str]):
    return (s or "d") + ("!" if s is not None else "?")


def num(a: int, d: Decimal):
    return a + d, d > a, d == a, -d


def isint(a: "num"):
    if isinstance(a, int):
        return "int"
    if isinstance(a, (Decimal, float)):
        return "dec"
    return "other"


def dicts(d: "dict", k: str):
    r = dict(d)
    r[k] = r.get(k, 0) + 1
    return r, k in d, d.get(k), d.get("a", -1)


def missing(d: "dict", k: str):
    try:
        return d[k] * 2
    except KeyError:
        return "missing"


def filtered(d: "dict"):
    return {k: v + 1 for k, v in d.items() if v != 0}


def inverted(d: "dict"):
    out = {}
    for k, v in d.items():
        out[k] = -v
    return out


def merged(d: "dict", e: "dict"):
    r = {}
    for k, v in d.items():
        r[k] = v
    for k, v in e.items():
        r[k] = r.get(k, 0) + v
    return {k: v for k, v in r.items() if v}


def updated(d: "dict", e: "dict"):
    r = d.copy()
    r.update(e)
    return r, d | e, {**e, **d}


def compared(d: "dict", e: "dict"):
    return d == e, not d, len(d) == 0, all(v > 0 for v in d.values()), any(k == "a" for k in d)


def sets(s: "set", t: "set"):
    return s | t, s & t, s - t, s <= t, "a" in s, s == t


def set_loop(s: "set", x: str):
    out = set()
    for y in s:
        if y != x:
            out.add(y)
    out |= {x}
    return out


def popped(d: "dict", k: str):
    d = dict(d)
    v = d.pop(k, None)
    d.setdefault("b", 5)
    return v, d


def deleted(d: "dict", k: str):
    d = dict(d)
    if k in d:
        del d[k]
    return d


def lone(d: "dict"):
    if len(d) == 1:
        [x] = d
        [(k, v)] = d.items()
        return x, k, v
    return None


def aliasing(a: int):
    x = [a]
    y = x
    y.append(2)
    z = list(x)
    z.append(3)
    t = (x, z)
    t[0].append(4)
    return x, z, len(y), y is x, z is x


def defaults(a: int, b: int = 3, *rest, c=4, **kw):
    return a, b, rest, c, sorted(kw)


def calls(a: int):
    return defaults(a), defaults(a, 1, 2, c=a), defaults(*[a, 9], **{"c": 1, "z": 2}), defaults(b=a, a=1)


def closures(a: int):
    n = a

    def add(x):
        nonlocal n
        n += x
        return n
    f = lambda x, y=a: x + y + n  # noqa: E731
    return add(1), add(2), f(1), f(1, 2)


def gen(n):
    for i in range(3):
        if i == n:
            return
        yield i
    yield 10


def gens(a: int):
    return list(gen(a)), sum(gen(a)), [x for x in gen(a) if x], tuple(i * a for i in (1, 2))


def first(a: int):
    return next((x for x in (1, 2, 3) if x > a), None), next(iter([5, a]))


class Base:
    kind = "base"

    def __init__(self, x):
        self.x = x
        self._y = None

    @property
    def y(self):
        if self._y is None:
            self._y = self.x + 1
        return self._y

    def hello(self):
        return f"{self.kind}:{self.name()}"

    def name(self):
        return "b"

    @classmethod
    def make(cls, x):
        return cls(x)

    @staticmethod
    def twice(x):
        return 2 * x

    def __eq__(self, other):
        if not isinstance(other, Base):
            return NotImplemented
        return self.x == other.x

    def __hash__(self):
        return 1

    def __getitem__(self, i):
        return self.x + i

    def __len__(self):
        return 0 if self.x == 0 else 2

    def __enter__(self):
        self.x += 100
        return self

    def __exit__(self, *a):
        self.x -= 50
        return self.x > 60


class Derived(Base):
    kind = "derived"

    def name(self):
        return "d" + super().name()


def classes(a: int):
    b, d = Base(a), Derived.make(a)
    return b.y, d.hello(), b.hello(), d.twice(a), b == d, b != d, b == 3, isinstance(d, Base), type(d) is Base, type(d).__name__, d[4], bool(b), getattr(d, "kind"), getattr(d, "zzz", "none"), hasattr(b, "x")


def contexts(a: int):
    try:
        with Base(a) as b:
            if a > 5:
                raise ValueError("x")
            b.x += 1
        return "out", b.x
    except ValueError:
        return "raised"


def super_attr(a: int):
    d = Derived(a)
    d.x = a + 1
    d.new = d.x
    del d.new
    try:
        return d.new
    except AttributeError:
        return "gone", d.x


@dataclasses.dataclass(frozen=True)
class Point:
    a: int
    b: str = "q"

    def shifted(self):
        return dataclasses.replace(self, a=self.a + 1)


def data(a: int, s: str):
    p = Point(a, s)
    q = Point(a=a)
    try:
        p.a = 3
    except dataclasses.FrozenInstanceError:
        frozen = True
    return p == q, p.shifted().a, q.b, frozen, [f.name for f in dataclasses.fields(p)]


def matching(a: int, s: str):
    match (a, s):
        case (1, x) if x != "":
            return "one", x
        case (2 | 3, "a" | "b"):
            return "two"
        case (n, "") as t:
            return n, len(t)
        case [_, *rest]:
            return rest
    return None


def match_class(a: int):
    p = Point(a, "z")
    match p:
        case Point(a=0):
            return "zero"
        case Point(x, b) if x > 3:
            return x, b
        case str():
            return "str"
        case _:
            return "other"


def default_dict(a: int):
    d = defaultdict(int)
    d["x"] += a
    d["y"] += 1
    d["x"] += 1
    return d["x"], d["y"], "z" in d, d["z"], "z" in d


def chained(a: int):
    return list(itertools.chain([a], (1, 2), [])), functools.reduce(lambda x, y: x * y + 1, [1, 2, a], 1), [*map(lambda x: x + a, [1, 2])], list(filter(None, [0, a, 1]))


def walrus(s: str):
    if (n := len(s)) > 2:
        return n
    return [y := n + 1, y * 2]


def ternary(a: int):
    return ("neg" if a < 0 else "zero" if a == 0 else "pos"), (1, 2)[a > 0], [a, *([1] if a else [])]


def comps(a: int):
    return [x * y for x in (1, 2) for y in (a, 3) if x != y], {x: x + a for x in range(3) if x != a}, {x % 2 for x in (1, 2, 3)}


def assertion(a: int):
    assert a != 2, "two"
    return a


def unpacking(a: int):
    (x, (y, z)), *w = (1, (a, 3)), 4, 5
    x, y = y, x
    return x, y, z, w


def augmented(a: int):
    d = {"k": [1]}
    d["k"] += [a]
    l = d["k"]
    l[0] = a
    l[-1] += 1
    return d, l[::-1], l[:1], sorted([3, 1, 2], reverse=True), list(reversed([1, 2]))


def globals_(a: int):
    global COUNT
    COUNT = a
    return COUNT + 1


COUNT = 0


def strict(a: int):
    if a is None:
        return "none"
    if a == 0:
        return a is None
    return None


def str_methods(a: int):
    return str(a) == str(a), repr("a'b"), "A".lower(), " x ".strip(), "a,b".split(","), "-".join(["1", "2"]), "ab".count("a"), "x".isalpha(), int("12") + a


def raising(a: int):
    for i in [1, 2, 3]:
        if i == a:
            raise IndexError(i)
    raise TypeError if a == 7 else ValueError("y")


def reraise(a: int):
    try:
        raising(a)
    except (IndexError, TypeError):
        if a == 2:
            raise
        return "caught"
