"""Bounded, native checks: the properties' run-time contracts evaluated on the real code.

Each pNN(run) generates inputs until the budget is used, compares the real code with the
specification (specparse, world) and records failures.  Each kind of input can be replayed
alone with replay(kind, data).
"""
import contextlib
import io
import math
import sys
import traceback
from decimal import Decimal
from fractions import Fraction

import mpmath

from . import base, fresh, gen, specparse, world
from .base import lift, norm, same

CHECKS = {}
KINDS = {}


def check(name):
    def d(f):
        CHECKS[name] = f
        return f
    return d


def kind(name):
    """A kind of case: f(data) -> None, or (expected, got) when the property fails."""
    def d(f):
        KINDS[name] = f
        return f
    return d


def attempt(run, k, data, key=None, nontrivial=True, limit=None):
    try:
        with base.limited(limit or (3 if k in ("resolve", "resolve-string", "xml", "expand", "dims") else 10)):
            r = KINDS[k](data)
    except (world.OutOfDomain, specparse.MayReject, MemoryError, RecursionError):
        return
    except base.TooLong:
        run.odd.append(f"{k}: too long: {data!r}"[:200])
        return
    except (AttributeError, TypeError, KeyError, IndexError, NameError, AssertionError) as e:
        # Never raised by the checks themselves (on the unchanged tree), nor
        # part of any interface of the real code.
        where = traceback.extract_tb(e.__traceback__)
        if not any(f.filename.startswith(base.REPO + "/") for f in where):
            if len(run.odd) < 20:
                run.odd.append(f"{k}: in the check: {type(e).__name__}: {e} at {where[-1].filename}:{where[-1].lineno}"[:300])
            return
        r = ("no internal error", f"{type(e).__name__}: {e} at {where[-1].filename}:{where[-1].lineno}")
    except Exception as e:
        if isinstance(e, (world.Unresolvable, specparse.Reject)):
            return
        if len(run.odd) < 20:
            run.odd.append(f"{k}: {type(e).__name__}: {e}"[:200])
        return
    run.case(key if key is not None else repr((k, data)), nontrivial)
    if r is not None:
        run.fail(k, data, *r)


def parse(s):
    from pyudunits2._grammar import parse
    return parse(s)


def parsed(s):
    """('ok', tree) | ('syntax',) | ('error', text) of the real parser."""
    try:
        g = parse(s)
    except SyntaxError:
        return ("syntax",)
    except RecursionError:
        raise world.OutOfDomain("nesting")
    except Exception as e:
        return ("error", f"{type(e).__name__}: {e}")
    try:
        t = lift(g)
    except base.Unexpected as e:
        return ("error", f"malformed expression: {e}")
    if t[0] == "date":
        t = ("empty",) if t[1] == "" else t
    return ("ok", t)


def expected(s):
    try:
        return specparse.parse(s)
    except specparse.Reject:
        return None


def expansion_of(u):
    """The expanded form of a unit; None if there is none.

    The string form of an expression with a shift is not always accepted again (see known_findings.txt, P04):
    then the expression itself is what counts."""
    try:
        t = expected(u.expanded())
        return lift(u._expanded_expr()) if t is None else t
    except Exception:
        return None


# ---------------------------------------------------------------- P01, P02, P03
@kind("parse")
def k_parse(s):
    e = expected(s)
    if e is None:
        return None
    g = parsed(s)
    if g[0] != "ok" or not same(e, g[1], text=False):
        return e, g


def strings(run, depth=4):
    rng = run.rng
    ids = gen.IDS + [x for x in run.mined["str"] if x.isidentifier() and len(x) < 12]
    while run.left():
        t = gen.tree(rng, rng.randrange(0, depth), ids, run.mined["int"])
        s = gen.render(rng, t)
        if s is not None and len(s) < 400:
            yield t, s


@check("P01")
def p01(run):
    for t, s in strings(run, 5):
        if run.rng.random() < 0.15:
            s = gen.mutate(run.rng, s, run.mined["str"]) if run.rng.random() < .9 else gen.lookalike(run.rng, s)
        if run.rng.random() < 0.1:
            s = run.rng.choice([" ", "  ", "\t", "\n", ""]) + s + run.rng.choice(["", " ", "\n "])
        attempt(run, "parse", s, s, len(s) > 3)


@kind("literal")
def k_literal(s):
    e = expected(s)
    if e is None:
        return None
    g = parsed(s)
    nums = lambda t: [t] if t[0] == "num" else [("exp", t[2])] + nums(t[1]) if t[0] == "pow" else [
        n for x in t[1:] if isinstance(x, tuple) for n in nums(x)]
    if g[0] != "ok":
        return e, g
    a, b = nums(e), nums(g[1])
    if len(a) != len(b):
        return e, g
    for x, y in zip(a, b):
        if x[1] != y[1] or type(x[1]) is not type(y[1]) or (x[0] == "num" and x[2] != y[2]):
            return x, y
        if isinstance(x[1], Decimal) and x[1].is_signed() != y[1].is_signed():
            return x, y


@kind("prefix-value")
def k_prefix(d):
    value, name = d
    w = world.World()
    w.add_prefix(name, value, ())
    w.add_unit(world.UnitDef("qq"))
    u = w.build().unit(name + "qq")
    t = expansion_of(u)
    if t is None or t[0] != "mul" or t[1][0] != "num" or Fraction(t[1][1]) != Fraction(Decimal(value)):
        return value, u.expanded()


@check("P02")
def p02(run):
    rng = run.rng
    while run.left():
        n = gen.number(rng, run.mined["int"])[2]
        k = rng.randrange(9)
        i = gen.int_text(rng, run.mined["int"])
        if k == 0:
            s = n
        elif k == 1:
            s = f"{n} m"
        elif k == 2:
            s = f"m*{n}"
        elif k == 3:
            s = f"m^{i}"
        elif k == 4:
            s = f"m{i}"
        elif k == 5:
            s = "m" + "".join(gen.SUPS[c] for c in i)
        elif k == 6:
            s = f"m @ {n}"
        elif k == 7:
            s = f"lg(re {n} m)/{n}"
        else:
            attempt(run, "prefix-value", [rng.choice([gen.number(rng)[2], "1e3", ".1", "10", "1E-24", "1e-6", "100", "0.5"]), "zq"])
            continue
        attempt(run, "literal", s, s, len(n) > 1)


@kind("total")
def k_total(s):
    e = expected(s)
    g = parsed(s)
    if g[0] == "error":
        return "an expression or a SyntaxError", g
    if e is None and g[0] == "ok":
        return "SyntaxError", g
    if e is not None and g[0] != "ok":
        return e, g


def outcome(s):
    try:
        return parsed(s)
    except world.OutOfDomain:
        return ("nesting",)


@kind("history")
def k_history(seq):
    """The outcome of the last string, after the earlier ones, is that of parsing it first."""
    first = {}
    for s in seq:
        o = outcome(s)
        e = expected(s)
        if e is not None and (o[0] != "ok" or not same(e, o[1])) or e is None and o[0] == "ok":
            return f"{s!r}: {e}", o
        if s in first and first[s] != o:
            return f"{s!r}: {first[s]}", o
        first.setdefault(s, o)
    if "  " + seq[-1] + "\t" != seq[-1] and outcome("  " + seq[-1] + "\t") != outcome(seq[-1]):
        return f"{seq[-1]!r} with surrounding space: {outcome(seq[-1])}", outcome("  " + seq[-1] + "\t")


@check("P03")
def p03(run):
    rng = run.rng
    seen = []
    while run.left():
        r = rng.random()
        if r < 0.5:
            s = gen.garbage(rng, run.mined["str"])
        elif r < 0.9:
            s = gen.render(rng, gen.tree(rng, rng.randrange(0, 4)))
            if s is None:
                continue
            s = gen.mutate(rng, s, run.mined["str"]) if rng.random() < .9 else gen.lookalike(rng, s)
        elif r < 0.93:
            s = "".join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(0, 0x500), rng.randrange(0x2000, 0x2400), rng.randrange(0x10FFFF) if rng.random() < .5 else 0x1d54d]))
                        for _ in range(rng.randrange(1, 8)))
            if any(0xD800 <= ord(c) < 0xE000 for c in s):
                continue
        elif r < 0.935:
            s = rng.choice(["", "m ", "m/", "m @ ", "(m @ 2) "]) + rng.choice(["1e", "-1.5E-", ".2e+", "3E", "1.e-"]) + rng.choice("123456789") + rng.choice("0123456789") * rng.choice([3, 6, 10, 18, 19, 25])
            attempt(run, "no-crash", s, s)
            continue
        elif r < 0.94:
            n = rng.choice([5000, 4400, 20])
            s = rng.choice(["m", "", "m^", "m @ "]) + "9" * n
            attempt(run, "no-crash", s, s[:6] + str(n))
            continue
        elif seen:
            seq = [rng.choice(seen) for _ in range(rng.randrange(2, 7))]
            attempt(run, "history", seq + [seq[0]])
            continue
        else:
            continue
        if len(s) < 300:
            seen.append(s)
            if len(seen) > 400:
                seen.pop(rng.randrange(len(seen)))
            attempt(run, "total", s, s, len(s) > 2)


@kind("no-crash")
def k_nocrash(s):
    g = parsed(s)
    if g[0] == "error":
        return "an expression or a SyntaxError", g


# ---------------------------------------------------------------- P04
@kind("print")
def k_print(s):
    try:
        g = parse(s)
    except SyntaxError:
        return None
    t = lift(g)
    p = str(g)
    r = parsed(p)
    if r[0] != "ok" and t != ("date", ""):
        return f"{p!r} parses (to {t})", r
    if t != ("date", "") and not same(norm(t), norm(r[1]), text=False, kinds=False):
        return norm(t), (p, norm(r[1]))
    from pyudunits2._grammar import normalize
    if negative_zero(t):
        return None
    if str(parse(p)) != p or normalize(s) != p or normalize(p) != p:
        return p, (str(parse(p)), normalize(s), normalize(p))


def negative_zero(t):
    """-0. is printed as -0, which is the integer 0."""
    if t[0] == "num":
        return isinstance(t[1], Decimal) and t[1] == 0 and t[1].is_signed()
    return any(negative_zero(x) for x in t[1:] if isinstance(x, tuple))


def shift_words_clash(t, after=False):
    """T, Z, UTC, ... printed after a shift are not identifiers to the lexer."""
    ids, seen = [], [False]
    def go(t):
        if t[0] == "id" and seen[0] and t[1] in gen.TIMEWORDS:
            ids.append(t)
        for x in t[1:]:
            if isinstance(x, tuple):
                go(x)
        if t[0] == "shift":
            seen[0] = True
    go(t)
    # An identifier which is spelled like a logarithm, before a bracket, or E
    # before an exponent, and dates before anything but a closing bracket.
    return bool(ids)


@check("P04")
def p04(run):
    for t, s in strings(run, 5):
        if shift_words_clash(t):
            continue
        if run.rng.random() < 0.2:
            s = gen.mutate(run.rng, s)
            try:
                e = expected(s)
            except specparse.MayReject:
                continue
            if e is None or shift_words_clash(e):
                continue
        attempt(run, "print", s, s, len(s) > 3)


# ---------------------------------------------------------------- worlds
_cache = {}


def standard():
    if "std" not in _cache:
        w = world.standard()
        _cache["std"] = (w, w.build())
    return _cache["std"]


def bundled():
    if "xml" not in _cache:
        from pyudunits2 import UnitSystem
        _cache["xml"] = (world.bundled(), UnitSystem.from_udunits2_xml())
    return _cache["xml"]


def get_world(spec):
    """spec: 'std', 'xml' or a serialised list of registrations."""
    if spec == "std":
        return standard()
    if spec == "xml":
        return bundled()
    w = thaw(spec)
    return w, w.build()


def freeze(w):
    out = []
    for e in w.log:
        if e[0] == "prefix":
            out.append(["prefix", e[1], e[2], list(e[3])])
        else:
            out.append(["unit", {k: (list(v) if isinstance(v, tuple) else v) for k, v in vars(e[1]).items()}, e[2]])
    return out


def thaw(spec):
    w = world.World()
    for e in spec:
        if e[0] == "prefix":
            w.add_prefix(e[1], e[2], tuple(e[3]))
        else:
            d = dict(e[1])
            d["alias_names"] = [tuple(x) for x in d["alias_names"]]
            w.add_unit(world.UnitDef(**d), replace=e[2])
    return w


STD_LINEAR = ["m", "s", "kg", "K", "g", "km", "mm", "kilometer", "hour", "min", "day", "N", "J", "W", "V", "Hz", "kHz", "inch", "ft",
              "L", "ml", "percent", "rad", "degree", "sr", "mrad", "µm", "metre", "dam", "dm", "MW", "A", "kW", "mN", "das", "cm", "secs",
              "meters", "kilonewton", "mW", "mK", "d", "pct", "decimeter", "h", "feet", "litres"]
STD_OFFSET = ["degC", "degF", "celsius", "°C", "fahrenheit", "°F", "rankine"]
STD_LOG = ["Bz", "Np", "oct", "pH"]


def unit_string(rng, ids, depth, logs=False, dates=False, mined=(), small=True):
    for _ in range(50):
        t = gen.tree(rng, depth, ids, (), dates, logs)
        t = shrink_numbers(rng, t, mined)
        s = gen.render(rng, t)
        if s is not None and len(s) < 120:
            return t, s
    return ("id", ids[0]), ids[0]


def shrink_numbers(rng, t, mined=()):
    """Replace literals by moderate ones."""
    k = t[0]
    if k == "num":
        s = rng.choice(["2", "3", "10", "5", "7", "1", "12", "100", "0.5", "1.8", "2.54", "1e3", "1e-3", ".25", "273.15", "-2", "459.67", "3.5e2"])
        if mined and rng.random() < 0.2:
            s = str(rng.choice(mined))
        return ("num", Decimal(s) if not s.lstrip("-").isdigit() else int(s), s)
    if k == "pow":
        e = rng.choice([-3, -2, -1, 1, 2, 2, 3, 4, 0])
        if mined and rng.random() < 0.2:
            e = rng.choice([m for m in mined if abs(m) < 9] or [2])
        return ("pow", shrink_numbers(rng, t[1], mined), e)
    return tuple(shrink_numbers(rng, x, mined) if isinstance(x, tuple) else x for x in t)


def words(w):
    return list(w.names) + list(w.symbols) + list(w.anames) + list(w.asymbols)


def any_ident(rng, w):
    x = rng.choice(words(w) or ["q"])
    r = rng.random()
    pre = list(w.pnames) + list(w.psymbols)
    if pre and r < 0.35:
        return rng.choice(pre) + x
    if r < 0.4:
        return rng.choice(pre or ["z"]) + rng.choice(pre or ["z"]) + x
    if r < 0.45:
        return x + rng.choice("abs")
    if r < 0.5:
        return respelled(rng, x)
    if pre and r < 0.53:
        return respelled(rng, rng.choice(pre) + x)
    return x


def respelled(rng, x):
    """Another word, which differs a little."""
    return rng.choice([x.upper(), x.lower(), x.capitalize(), x.swapcase(), x[:-1], x[1:], x + x[-1:], x + "s", x + "es", x.title()])


def worlds(run, bundled_share=0.1):
    """An endless mix of worlds: (spec, world, identifiers)."""
    rng = run.rng
    while run.left():
        r = rng.random()
        if r < 0.45:
            yield "std", standard()[0], STD_LINEAR
        elif r < 0.45 + bundled_share:
            w = bundled()[0]
            ids = [any_ident(rng, w) for _ in range(12)]
            yield "xml", w, [x for x in ids if expected(x) == ("id", x)] + ["m", "kg", "s"]
        else:
            w = world.random_world(rng, run.mined["str"])
            ids = [any_ident(rng, w) for _ in range(8)] + words(w)[:6] + list(w.names)[-1:]
            yield freeze(w), w, [x for x in ids if expected(x) == ("id", x)] or ["q"]


def real_unit(system, s):
    """('unit', u) | ('date', u) | ('unresolvable',) | ('refused', msg) | ('syntax',) | ('error', ..)"""
    from pyudunits2 import DateUnit, UnresolvableUnitException, Unit
    try:
        u = system.unit(s)
    except UnresolvableUnitException:
        return ("unresolvable",)
    except SyntaxError:
        return ("syntax",)
    except ValueError as e:
        return ("refused", str(e))
    except RecursionError:
        raise world.OutOfDomain("recursion")
    except Exception as e:
        return ("error", f"{type(e).__name__}: {e}")
    if isinstance(u, DateUnit):
        return ("date", u)
    if isinstance(u, Unit):
        return ("unit", u)
    return ("error", f"not a unit: {u!r}")


def ill_defined(w, u, depth=0):
    """Is the definition of the unit, or of a unit it uses, not a valid one?"""
    if u.definition is None:
        return False
    t = expected(u.definition)
    try:
        if t is None or depth > 40 or w.classify(t, top=False) == "refused":
            return True
    except (specparse.Reject, world.Unresolvable):
        return True
    def ids(t):
        return {t[1]} if t[0] == "id" else set().union(*[ids(x) for x in t[1:] if isinstance(x, tuple)], set())
    return any(ill_defined(w, v, depth + 1) for i in ids(t) for _, v in w.readings(i))


def resolvable(w, t, depth=0):
    if depth > 12:
        raise world.OutOfDomain("deep")
    if t[0] == "id":
        r = w.readings(t[1])
        if not r:
            return False
        oks = [u.definition is None or (expected(u.definition) is not None and resolvable(w, specparse.parse(u.definition), depth + 1)
                                        and w.classify(specparse.parse(u.definition), top=False) != "refused") for _, u in r]
        if len(set(oks)) > 1:
            raise world.OutOfDomain("several readings")
        if not oks[0]:
            raise world.OutOfDomain("definition does not resolve")
        return True
    return all([resolvable(w, x, depth) for x in t[1:] if isinstance(x, tuple)])


# ---------------------------------------------------------------- P05
@kind("dims")
def k_dims(d):
    spec, s = d
    w, S = get_world(spec)
    t = expected(s)
    if t is None:
        return None
    if not resolvable(w, t):
        return None
    if w.classify(t) == "refused":
        return None
    e = w.dims(t)
    u = real_unit(S, s)
    if u[0] not in ("unit", "date"):
        return e, u
    g = world.real_dims(u[1])
    if g != e or any(n == 0 for n in g.values()):
        return e, g
    if any(not isinstance(n, int) for n in g.values()):
        return "integer orders", g
    xs = [u[1]] if u[0] == "unit" else []
    if t[0] == "id":
        # Also the unit which is registered, or built, for the identifier.
        xs.append(S.unit_by_name_or_symbol(t[1]))
    for x in xs:
        if world.real_dims(x) != e:
            return e, world.real_dims(x)
        if not callable(getattr(x.dimensionality(), "inverted", None)):
            return "a Dimensionality", type(x.dimensionality()).__name__
        if x.is_dimensionless() != (not e):
            return f"is_dimensionless {not e}", x.is_dimensionless()
        if not (x.dimensionality() == e) or len(x.dimensionality()) != len(e):
            return e, x.dimensionality()
        if x.is_time_unit() != w.is_time(e):
            return f"is_time_unit {w.is_time(e)}", x.is_time_unit()
        inv = {str(b): n for b, n in x.dimensionality().inverted().items()}
        if inv != {b: -n for b, n in e.items()}:
            return "inverted", inv


@check("P05")
def p05(run):
    rng = run.rng
    for spec, w, ids in worlds(run):
        for _ in range(6):
            t, s = unit_string(rng, ids + (STD_OFFSET + STD_LOG if spec == "std" else []), rng.randrange(0, 4), logs=True, mined=run.mined["int"])
            attempt(run, "dims", [spec, s], (s, str(spec)[:200]), len(s) > 2)


# ---------------------------------------------------------------- P06
@kind("convertible")
def k_convertible(d):
    from pyudunits2 import Converter, IncompatibleUnitsError
    spec, a, b = d
    w, S = get_world(spec)
    ta, tb = expected(a), expected(b)
    if not ta or not tb or not (resolvable(w, ta) and resolvable(w, tb)):
        return None
    ka, kb = w.classify(ta), w.classify(tb)
    if "refused" in (ka, kb):
        return None
    ra, rb = real_unit(S, a), real_unit(S, b)
    if ra[0] != ka or rb[0] != kb:
        return (ka, kb), (ra, rb)
    A, B = ra[1], rb[1]
    da, db = w.dims(ta), w.dims(tb)
    e = ka == kb == "unit" and (da == db or da == {k: -n for k, n in db.items()})
    g = (A.is_convertible_to(B), B.is_convertible_to(A))
    if g != (e, e):
        return f"convertible: {e}", g
    if ka == "unit" and A.is_convertible_to(A) is not True:
        return "convertible to itself", A.is_convertible_to(A)
    if ka == "date" and A.is_convertible_to(A):
        return "a date unit is not convertible", True
    if ka == kb == "unit":
        # Units which are gone straight away: another one may take the place of one in memory.
        for _ in range(3):
            g = A.is_convertible_to(S.unit(b)), A.is_convertible_to(S.unit(a))
            if g != (e, True):
                return f"convertible to it and to itself, created again: {e, True}", g
    try:
        Converter(A, B)
        r = "a converter"
    except IncompatibleUnitsError:
        r = "IncompatibleUnitsError"
    except Exception as x:
        r = f"{type(x).__name__}: {x}"
    if not e:
        if r != "IncompatibleUnitsError":
            return "IncompatibleUnitsError", r
        return
    ma, mb = w.meaning(ta), w.meaning(tb)
    if ma.scale == 0 or mb.scale == 0:
        raise world.OutOfDomain("zero")
    big = lambda m: abs(m.scale) > 10 ** 40 or abs(m.scale) < Fraction(1, 10 ** 40)
    if any(c[0] == "log" for m in (ma, mb) for c in m.chain) or big(ma) or big(mb):
        raise world.OutOfDomain("log")
    if r != "a converter":
        return "a converter", r


@check("P06")
def p06(run):
    rng = run.rng
    for spec, w, ids in worlds(run, 0.05):
        pool = ids + (STD_OFFSET + STD_LOG if spec == "std" else [])
        for _ in range(6):
            t, a = unit_string(rng, pool, rng.randrange(0, 3), logs=rng.random() < .3, mined=run.mined["int"])
            r = rng.random()
            if r < 0.25:
                b = f"({a})^-1" if "@" not in a else a
            elif r < 0.4:
                b = f"{rng.choice(['3', '0.5', 'rad', '1'])} ({a})"
            elif r < 0.5:
                b = f"({a})^{rng.choice([2, 1, 0, -2])}"
            elif r < 0.6 and spec == "std":
                b = rng.choice(["days since 2000-01-01", "hours since 1990", "s @ 3", "min since 2000 +10"])
                if rng.random() < .5:
                    a = rng.choice(["days since 2000-01-01", "s", "hour", "s-1", "m"])
            else:
                t, b = unit_string(rng, pool, rng.randrange(0, 3), logs=rng.random() < .3)
            if rng.random() < .5:
                a, b = b, a
            attempt(run, "convertible", [spec, a, b], (a, b, str(spec)[:200]))


# ---------------------------------------------------------------- P07, P08, P09
def meaning_of(w, s):
    t = expected(s)
    if t is None or not resolvable(w, t) or w.classify(t) != "unit":
        raise world.OutOfDomain(s)
    m = w.meaning(t)
    if m.scale == 0 or abs(m.scale) > 10 ** 60 or abs(m.scale) < Fraction(1, 10 ** 60):
        raise world.OutOfDomain("scale")
    return m


def perturbed(rng, m):
    e = lambda x: x * (1 + Fraction(rng.randrange(-1000, 1001), 10 ** 15))
    return world.Meaning(m.dims, e(m.scale), [("shift", e(c[1])) if c[0] == "shift" else c for c in m.chain])


def expected_value(rng, a, b, v, f=world.convert):
    """(value, tolerance): conditioning is estimated by perturbing every constant."""
    lim = lambda x: abs(x) < mpmath.mpf(10) ** 120
    x = a.to_base(mpmath.mpf(v))
    if not lim(x) or (x != 0 and not lim(1 / x)):
        raise world.OutOfDomain("overflow")
    e = f(a, b, v)
    if not lim(e) or (e != 0 and abs(e) < mpmath.mpf(10) ** -120):
        raise world.OutOfDomain("overflow")
    spread = mpmath.mpf(0)
    for _ in range(6):
        vv = v * (1 + rng.uniform(-1, 1) * mpmath.mpf(10) ** -12)
        y = f(perturbed(rng, a), perturbed(rng, b), vv)
        spread = max(spread, abs(y - e))
    tol = abs(e) * mpmath.mpf(10) ** -9 + spread * 50 + mpmath.mpf(10) ** -200
    if spread * 50 > abs(e) * mpmath.mpf(10) ** -3 and e != 0 and spread * 50 > mpmath.mpf(10) ** -6:
        raise world.OutOfDomain("ill-conditioned")
    return e, tol


def chain_limits(m):
    """Not too deep, and the factors which the shifts outside of a logarithm stand for are doubles."""
    out = 0
    for c in m.chain:
        if c[0] == "shift":
            out += abs(c[1])
        elif out > 200:
            return False
    return sum(1 for c in m.chain if c[0] == "log") <= 2 and len(m.chain) <= 4


def arrays(rng, c, ma, mb, done):
    """Arrays of every kind and shape convert elementwise, again and again, and stay as they are."""
    import numpy as np
    logs = any(x[0] == "log" for m in (ma, mb) for x in m.chain)
    whole = [1, 2, 3, 15, 20, 40] if logs else [x for x in (1, 7, 250, 16777217, 33554433, 2 ** 31 - 1) + tuple(int(v) for v in done if v == int(v) and 0 < v < 2 ** 31)]
    whole = rng.sample(whole, 4)
    want = []
    for v in whole:
        try:
            want.append(expected_value(rng, ma, mb, v))
        except (world.OutOfDomain, ZeroDivisionError, ValueError):
            want = None
            break
    near = [(mpmath.mpf(e), abs(mpmath.mpf(e)) * mpmath.mpf(10) ** -9 + mpmath.mpf(10) ** -300) for e in (float(c.convert(float(v))) for v in done)]
    cases = [(np.array([float(v) for v in done]), near)]
    cases.append((np.array([[float(v)] for v in done] * 2), near * 2))
    some = rng.choices(range(len(done)), k=9)
    cases.append((np.array([float(done[i]) for i in some]), [near[i] for i in some]))
    if rng.random() < .2:
        some = (some * 1200)[:10007]
        cases.append((np.array([float(done[i]) for i in some]), [near[i] for i in some]))
    cases.append((np.array([float(v) for v in done])[:0], []))
    back = np.array([float(v) for v in done for _ in range(2)])[::-2]
    cases.append((back, near[::-1]))
    cases.append((np.array(float(done[0])), near[:1]))
    if want:
        cases += [(np.array(whole, dtype=t), want) for t in ("int64", "int32", "uint32", "float64")]
        cases.append((np.array(whole).reshape(2, 2), want))
        signed = [-v for v in whole]
        try:
            cases.append((np.array(signed), [expected_value(rng, ma, mb, v) for v in signed]))
        except (world.OutOfDomain, ZeroDivisionError, ValueError):
            pass
        if not logs:
            try:
                cases.append((np.array([1, 7, 120], dtype=rng.choice(["int8", "uint8", "int16", "uint64"])), [expected_value(rng, ma, mb, v) for v in (1, 7, 120)]))
            except (world.OutOfDomain, ZeroDivisionError, ValueError):
                pass
    for arr, exp in cases:
        keep = arr.copy()
        for _ in range(2):
            try:
                r = c.convert(arr)
                flat = [float(x) for x in np.asarray(r).ravel()]
                ok = np.shape(r) == np.shape(arr) and all(abs(mpmath.mpf(x) - e) <= t for x, (e, t) in zip(flat, exp, strict=True))
            except Exception as x:
                return "elementwise conversion of an array", f"{type(x).__name__}: {x}   (array {keep.tolist()} of {keep.dtype})"
            if not ok or not (arr == keep).all():
                return f"elementwise {[float(e) for e, t in exp[:20]]}", f"{r}   (array {keep.ravel()[:20].tolist()} of {keep.dtype} and shape {keep.shape}, now {arr.ravel()[:20].tolist()})"


@kind("convert")
def k_convert(d):
    import random
    from pyudunits2 import Converter
    spec, a, b, values = d
    w, S = get_world(spec)
    ma, mb = meaning_of(w, a), meaning_of(w, b)
    if not world.convertible(ma, mb) or not chain_limits(ma) or not chain_limits(mb):
        raise world.OutOfDomain("not convertible")
    if ma.dims != mb.dims and any(v == 0 for v in values):
        values = [v for v in values if v]
    A, B = real_unit(S, a), real_unit(S, b)
    if A[0] != "unit" or B[0] != "unit":
        return "units", (A, B)
    try:
        c = Converter(A[1], B[1])
    except Exception as x:
        return "a converter", f"{type(x).__name__}: {x}"
    syms = {str(x) for x in getattr(c.expression, "free_symbols", ())}
    if not syms <= {"value"}:
        return "only the value in the expression", str(c.expression)
    rng = random.Random(repr(d))
    done = []
    for v in values:
        try:
            e, tol = expected_value(rng, ma, mb, v)
        except (world.OutOfDomain, ZeroDivisionError, ValueError):
            continue
        try:
            g = c.convert(v)
            ok = abs(mpmath.mpf(float(g)) - e) <= tol
        except Exception as x:
            g, ok = f"{type(x).__name__}: {x}", False
        if not ok:
            return f"{v} -> {mpmath.nstr(e, 15)}", f"{g}   (expression {c.expression})"
        g2 = c.convert(v)
        if g2 != g:
            return f"the same result again: {g}", g2
        done.append(v)
    if len(done) < 1:
        raise world.OutOfDomain("no value in the domain")
    bad = arrays(rng, c, ma, mb, done)
    if bad:
        return bad
    if rng.random() < 0.25:
        # Units which are gone straight away: another one may take the place of one in memory.
        e = c.convert(done[0])
        for t, f in ((a, a), (b, a), (b, b), (b, a)):
            try:
                g = Converter(S.unit(f), S.unit(t)).convert(done[0])
            except Exception as x:
                if t == f:
                    continue
                g = f"{type(x).__name__}: {x}"
            if (t, f) == (b, a) and not (g == e or g != g and e != e):
                return f"{done[0]} -> {e} again, between units created again", g
    return None


def domain_values(rng, w, a, b):
    """Values which `a` has for moderate values of its base (nested logarithms and shifts leave few)."""
    try:
        ma = meaning_of(w, a)
        if not ma.chain:
            return []
        s = ma.scale.numerator / mpmath.mpf(ma.scale.denominator)
        out = []
        for x in rng.sample([0.3, 1.5, 2.0, 3.0, 7.5, 20.0, 1e3, 1e5, 1e20, 280.0], 4):
            try:
                y = float(ma.from_base(x * s))
            except (world.OutOfDomain, ZeroDivisionError, ValueError, OverflowError):
                continue
            if abs(y) < 1e6:
                out.append(round(y, 6))
        return out
    except (world.OutOfDomain, specparse.MayReject, ZeroDivisionError, OverflowError):
        return []


VALUES = [1.0, 2.5, -3.0, 10.0, 0.125, 300.0, 7, 0.0, 1e-3, -40.0]


def pick_values(rng, mined=()):
    v = rng.sample(VALUES, 3) + [round(rng.uniform(-5, 5), 3)]
    if mined and rng.random() < 0.5:
        v.append(rng.choice(mined))
    return [x for x in v if abs(x) < 1e6]


def linear_partner(rng, w, ids, a, ta):
    """A string convertible to a (directly or inversely)."""
    d = w.dims(ta)
    r = rng.random()
    by_dim = {}
    for x in ids:
        try:
            if resolvable(w, ("id", x)):
                xd = w.dims(("id", x))
                if len(xd) == 1:
                    (bb, n), = xd.items()
                    by_dim.setdefault(bb, []).append((x, n))
        except world.OutOfDomain:
            pass
    sign = rng.choice([1, 1, -1])
    parts = []
    for bb, n in d.items():
        c = [(x, k) for x, k in by_dim.get(bb, []) if n % k == 0]
        if not c or r < 0.2:
            parts = None
            break
        x, k = rng.choice(c)
        parts.append((x, sign * n // k))
    if parts is None:
        return f"({a})" if sign > 0 else f"1/({a})"
    rng.shuffle(parts)
    f = rng.choice(["", "", "2 ", "0.25 ", "1e3 ", "rad "]) if "rad" in ids else rng.choice(["", "3 ", "0.5 "])
    out = f + " ".join(f"{x}^{n}" for x, n in parts)
    return out.strip() or "1"


@check("P07")
def p07(run):
    rng = run.rng
    for spec, w, ids in worlds(run, 0.1):
        pool = [x for x in ids]
        for _ in range(4):
            t, a = unit_string(rng, pool, rng.choice([0, 1, 2, 2, 3]), mined=run.mined["int"])
            try:
                if has(t, "shift") or not resolvable(w, t):
                    continue
                b = linear_partner(rng, w, pool, a, t)
                ma = meaning_of(w, a)
                if ma.chain:
                    continue
            except (world.OutOfDomain, specparse.MayReject, ZeroDivisionError):
                continue
            attempt(run, "convert", [spec, a, b, pick_values(rng, run.mined["int"])], (a, b, str(spec)[:200]))


def has(t, k):
    return t[0] == k or any(has(x, k) for x in t[1:] if isinstance(x, tuple))


def transformed(rng, u, depth):
    """Nest shifts and logarithms over the linear unit string u."""
    s = u
    if depth > 2 and rng.random() < .1:
        f = rng.choice(["lg", "ln", "lb", "log"])
        return f"{f}(re {rng.choice(['lg', f, f])}(re {s if '@' not in s else '(' + s + ')'})) @ {rng.choice(['2', '3', '-1', '10', '0.5'])}"
    for _ in range(rng.randrange(0, depth + 1)):
        k = rng.random()
        if k < 0.5:
            s = f"({s}) @ {rng.choice(['1', '2', '273.15', '-3', '0.5', '10', '-0.5', '-17.78', '1e2', '-1e-2', '1.23456789', '0.3010299957'])}"
        else:
            s = f"{rng.choice(['lg', 'ln', 'lb', 'log'])}(re {s if '@' not in s else '(' + s + ')'})"
    return s


@kind("tractable")
def k_tractable(d):
    """A small unit is converted before memory or patience run out (the limit is a thousand times what it takes)."""
    from pyudunits2 import Converter
    a, b = d
    S = get_world("std")[1]
    A, B = S.unit(a), S.unit(b)
    try:
        with base.limited(30):
            c = Converter(A, B)
            c.convert(0.5)
    except base.TooLong:
        return "a converter", "no answer within 30 s"
    except MemoryError:
        return "a converter", "memory ran out"


def tractable(run):
    rng = run.rng
    x = lambda: f"{rng.choice(['', '-'])}{rng.randrange(1, 4)}.{rng.randrange(10 ** 9, 10 ** 10)}"
    f = lambda: rng.choice(["lg", "lb", "ln"])
    u = rng.choice(["m", "K", "kg m2 s-3", "2.718281828459 mm"])
    a = rng.choice([f"lg(re (({f()}(re {u})) @ 3)) @ {x()}", f"{f()}(re (({f()}(re ({u}) @ {x()})) @ {x()})) @ {x()}", f"lb(re (lg(re {u}) @ {x()})) @ {x()}"])
    attempt(run, "tractable", [a, u] if rng.random() < .8 else [u, a], limit=120)


@check("P08")
def p08(run):
    rng = run.rng
    tractable(run)
    for spec, w, ids in worlds(run, 0.05):
        for _ in range(4):
            pool = ids if spec != "std" else ids + STD_OFFSET * 3 + STD_LOG
            t, u = unit_string(rng, pool, rng.choice([0, 0, 1, 2]), mined=run.mined["int"])
            try:
                if not resolvable(w, t):
                    continue
                v = linear_partner(rng, w, ids, u, t)
                if spec == "std" and rng.random() < .3:
                    u, v = rng.choice(STD_OFFSET + ["K"]), rng.choice(STD_OFFSET + ["K", "mK", "2 degC", "degC (1)"])
            except (world.OutOfDomain, specparse.MayReject, ZeroDivisionError):
                continue
            a, b = transformed(rng, u, 3), transformed(rng, v, 2)
            if rng.random() < 0.25:
                a = rng.choice([f"2 ({a})", f"({a})/3", f"({a})^2", f"({a}) m", f"1/({a})"])
                b = b if rng.random() < .5 else f"({a})"
            if rng.random() < .5:
                a, b = b, a
            attempt(run, "convert", [spec, a, b, pick_values(rng, run.mined["int"]) + domain_values(rng, w, a, b)], (a, b, str(spec)[:200]))


@kind("roundtrip")
def k_roundtrip(d):
    import random
    from pyudunits2 import Converter
    spec, a, b, c, values = d
    w, S = get_world(spec)
    ms = [meaning_of(w, x) for x in (a, b, c)]
    if not all(world.convertible(ms[0], m) and chain_limits(m) for m in ms):
        raise world.OutOfDomain("not convertible")
    us = [real_unit(S, x) for x in (a, b, c)]
    if any(u[0] != "unit" for u in us):
        return "units", us
    A, B, C = (u[1] for u in us)
    rng = random.Random(repr(d))
    try:
        ab, ba, aa = Converter(A, B), Converter(B, A), Converter(A, A)
        bc, ac = Converter(B, C), Converter(A, C)
    except Exception as x:
        return "converters", f"{type(x).__name__}: {x}"
    n = 0
    done = []
    through = ms[0].dims == ms[1].dims == ms[2].dims
    for v in values:
        try:
            e, tol = expected_value(rng, ms[0], ms[1], v)
            back, tolb = expected_value(rng, ms[1], ms[0], float(e))
            f, tolf = expected_value(rng, ms[0], ms[2], v)
            f2, tolf2 = expected_value(rng, ms[1], ms[2], float(e))
        except (world.OutOfDomain, ZeroDivisionError, ValueError):
            continue
        if abs(back - v) > tolb + 1e-6 * abs(v):
            continue
        n += 1
        try:
            x = ab.convert(v)
            r = ba.convert(x)
            i = aa.convert(v)
            y, z = bc.convert(x), ac.convert(v)
        except Exception as err:
            return f"{v} converts", f"{type(err).__name__}: {err}"
        if not abs(r - v) <= max(tolb, abs(v) * 1e-8) * 20 + 1e-12:
            return f"{v} after converting to {b} and back", r
        if not abs(i - v) <= max(1e-8 * abs(v), 1e-9):
            return f"{v} unchanged by converting {a} to itself", i
        tolerances = (max(tolb, abs(v) * 1e-8) * 20 + 1e-12, max(1e-8 * abs(v), 1e-9), (tolf + tolf2) * 20 + 1e-9 * abs(float(f)) + 1e-12)
        if through and not abs(y - z) <= tolerances[2]:
            return f"{z} also through {b}", y
        done.append((float(v), tolerances))
    if not n:
        raise world.OutOfDomain("no value")
    import numpy as np
    done = rng.choices(done, k=rng.choice([1, 5, 9]))
    arr = np.array([v for v, _ in done])
    keep = arr.copy()
    try:
        x = ab.convert(arr)
        found = [(ba.convert(x), arr, "and back"), (aa.convert(arr), arr, "to itself")]
        if through:
            found.append((bc.convert(x), ac.convert(arr), f"through {b}"))
        for k, (g, e, what) in enumerate(found):
            if np.shape(g) != arr.shape or any(not abs(p - q) <= t[k] for p, q, (_, t) in zip(g, e, done)):
                return f"{keep.tolist()} {what}: {list(map(float, e))}", g
    except Exception as err:
        return f"{keep.tolist()} converts", f"{type(err).__name__}: {err}"
    if not (arr == keep).all():
        return f"{keep.tolist()} unchanged", arr


@check("P09")
def p09(run):
    rng = run.rng
    for spec, w, ids in worlds(run, 0.05):
        pool = ids if spec != "std" else ids + STD_OFFSET * 3
        t, u = unit_string(rng, pool, rng.choice([0, 0, 1, 2]), mined=run.mined["int"])
        try:
            if not resolvable(w, t):
                continue
            v, x = linear_partner(rng, w, ids, u, t), linear_partner(rng, w, ids, u, t)
        except (world.OutOfDomain, specparse.MayReject, ZeroDivisionError):
            continue
        d = rng.choice([0, 1, 2])
        a, b, c = transformed(rng, u, d), transformed(rng, v, d), transformed(rng, x, 1)
        attempt(run, "roundtrip", [spec, a, b, c, pick_values(rng, run.mined["int"]) + domain_values(rng, w, a, b)], (a, b, c, str(spec)[:200]))


# ---------------------------------------------------------------- P10, P11
def expansions(w, t, depth=0, cap=12):
    """All acceptable expanded trees of t."""
    if depth > 12:
        raise world.OutOfDomain("deep")
    k = t[0]
    if k in ("num", "date"):
        return [("num", t[1], None) if k == "num" else t]
    if k == "id":
        out = []
        for p, u in w.readings(t[1]):
            if u.definition is None:
                es = [("id", u.ref)]
            else:
                es = expansions(w, specparse.parse(u.definition), depth + 1)
            for e in es:
                out.append(e if p is None else ("mul", ("num", Decimal(p), None), e))
        if not out:
            raise world.Unresolvable(t[1])
        return out[:cap]
    if k == "pow":
        return [("pow", a, t[2]) for a in expansions(w, t[1], depth)]
    if k == "log":
        return [("log", t[1], a) for a in expansions(w, t[2], depth)]
    if k == "shift":
        return [("shift", a, expansions(w, t[2])[0]) for a in expansions(w, t[1], depth)]
    # An identifier has one reading throughout a unit; product over operands is
    # an over-approximation which is exact when readings are unique.
    return [(k, a, b) for a in expansions(w, t[1], depth) for b in expansions(w, t[2], depth)][:cap]


def value_same(a, b):
    """Equal trees; numbers by value (an integer-valued prefix may be printed either way)."""
    if a[0] == "num" or b[0] == "num":
        return a[0] == b[0] and a[1] == b[1]
    return a[0] == b[0] and len(a) == len(b) and all(
        value_same(x, y) if isinstance(x, tuple) else x == y for x, y in zip(a[1:], b[1:]))


@kind("expand")
def k_expand(d):
    spec, s = d
    w, S = get_world(spec)
    t = expected(s)
    if t is None or not resolvable(w, t) or w.classify(t) == "refused":
        return None
    es = [norm(e) for e in expansions(w, t)]
    u = real_unit(S, s)
    if u[0] not in ("unit", "date"):
        return es, u
    if u[0] == "date":
        es = [norm(e) for e in expansions(w, t[1])]
        u = ("unit", u[1].unit)
    x = u[1].expanded()
    g = expansion_of(u[1])
    if g is None or not any(value_same(e, norm(g)) for e in es):
        return es, x
    if u[1].expanded() != x:
        return x, u[1].expanded()


@check("P10")
def p10(run):
    rng = run.rng
    for spec, w, ids in worlds(run):
        pool = ids + (STD_OFFSET + STD_LOG if spec == "std" else [])
        for _ in range(6):
            t, s = unit_string(rng, pool, rng.randrange(0, 4), logs=True, mined=run.mined["int"])
            attempt(run, "expand", [spec, s], (s, str(spec)[:200]), len(s) > 2)


@kind("resolve")
def k_resolve(d):
    from pyudunits2 import UnresolvableUnitException
    spec, ident = d
    w, S = get_world(spec)
    if ident == "":
        raise world.OutOfDomain("empty")
    rs = w.readings(ident)
    try:
        u = S.unit_by_name_or_symbol(ident)
    except UnresolvableUnitException:
        if not rs:
            return None
        try:
            if all(resolvable(w, specparse.parse(u.definition)) for _, u in rs if u.definition):
                return rs, "UnresolvableUnitException"
        except (specparse.Reject, world.Unresolvable):
            pass
        return None
    except RecursionError:
        raise world.OutOfDomain("cyclic")
    except (SyntaxError, ValueError) as e:
        return None if any(ill_defined(w, x) for _, x in rs) else (rs, f"{type(e).__name__}: {e}")
    except Exception as e:
        return rs, f"{type(e).__name__}: {e}"
    if not rs:
        return "UnresolvableUnitException", u.expanded()
    es = [norm(e) for e in expansions(w, ("id", ident))]
    x = u.expanded()
    g = expansion_of(u)
    if not any(value_same(e, norm(g)) for e in es):
        return es, x
    if rs[0][0] is None and rs[0][1].definition is not None:
        n = getattr(u, "_names", None)
        if n is not None and n != world.real_names(rs[0][1]):
            return world.real_names(rs[0][1]), n
    if S.unit_by_name_or_symbol(ident).expanded() != x:
        return x, "another result when repeated"


@kind("resolve-string")
def k_resolve_string(d):
    spec, s = d
    w, S = get_world(spec)
    t = expected(s)
    if t is None or t == ("empty",):
        return None
    bad = []
    def ids(t):
        if t[0] == "id" and not w.readings(t[1]):
            bad.append(t[1])
        for x in t[1:]:
            if isinstance(x, tuple):
                ids(x)
    ids(t)
    u = real_unit(S, s)
    if bad:
        return None if u[0] in ("unresolvable", "refused", "syntax") else (f"unresolvable {bad}", u)
    try:
        if not resolvable(w, t):
            return None
    except world.OutOfDomain:
        return None
    if w.classify(t) == "refused":
        return None
    if u[0] not in ("unit", "date"):
        return "a unit", u
    return k_expand(d)


@kind("naming")
def k_naming(ops):
    """Look-ups between registrations: what every word means at that time (basis units and prefixes only)."""
    from pyudunits2 import UnitSystem, UnresolvableUnitException
    S, w = UnitSystem(), world.World()
    for n, op in enumerate(ops):
        if op[0] == "prefix":
            w.add_prefix(op[1], op[2], op[3])
            S.add_prefix(world.real_prefix(op[1], op[2], op[3]))
        elif op[0] == "unit":
            u = world.UnitDef(**op[1])
            if w.add_unit(u):
                S.add_unit(world.real_unit(S, u))
        else:
            x = op[1]
            es = [norm(e) for e in expansions(w, ("id", x))] if w.readings(x) else []
            for f in (S.unit_by_name_or_symbol, S.unit):
                try:
                    g = expansion_of(f(x))
                except UnresolvableUnitException:
                    g = None
                except Exception as e:
                    return f"operation {n}: {es}", f"{type(e).__name__}: {e}"
                if g is None and es or g is not None and not any(value_same(e, norm(g)) for e in es):
                    return f"operation {n}, {x!r}: {es}", g


def naming_ops(rng):
    letters = rng.choice(["ab", "abc", "abcd"])
    wd = lambda: "".join(rng.choice(letters) for _ in range(rng.choice([1, 1, 2, 2, 3, 4])))
    seen, ops, ps, us = [], [], [], []
    for _ in range(rng.randrange(2, 8)):
        if rng.random() < .35:
            op = ["prefix", wd(), rng.choice(["10", ".1", "1e3", "2"]), [wd() for _ in range(rng.randrange(0, 3))]]
            ps += [op[1], *op[3]]
        else:
            # Often a name which so far is read as prefixed.
            nm = lambda: rng.choice(ps) + rng.choice(us) if ps and us and rng.random() < .4 else wd()
            opt = lambda p: [nm()] if rng.random() < p else []
            names = {"name": (opt(.8) or [None])[0], "symbols": opt(.5) + opt(.2),
                     "alias_names": [[nm(), rng.choice([None, nm()])] for _ in opt(.4)], "alias_symbols": opt(.4)}
            if names["name"] is None and not names["symbols"]:
                names["name"] = nm()
            if names["name"] and rng.random() < .3:
                names["plural"] = nm()
            op = ["unit", names]
            us += [y for y in [names["name"], names.get("plural"), *names["symbols"], *names["alias_symbols"], *(z for a in names["alias_names"] for z in a)] if y]
        ops.append(op)
        for _ in range(rng.randrange(0, 5)):
            x = rng.choice(ps) + rng.choice(us) if ps and us and rng.random() < .6 else rng.choice([wd(), rng.choice(us or ps)])
            seen.append(x)
            ops.append(["look", x])
        ops += [["look", x] for x in dict.fromkeys(seen + us[-4:])]
    return ops


@check("P11")
def p11(run):
    rng = run.rng
    for spec, w, ids in worlds(run):
        ops = naming_ops(rng)
        attempt(run, "naming", ops, str(ops)[:400])
        for _ in range(10):
            i = any_ident(rng, w)
            if run.mined["str"] and rng.random() < .05:
                i = rng.choice(run.mined["str"])
            attempt(run, "resolve", [spec, i], (i, str(spec)[:300]))
        for _ in range(3):
            t, s = unit_string(rng, ids + [any_ident(rng, w)], rng.randrange(0, 3), logs=True)
            attempt(run, "resolve-string", [spec, s], (s, str(spec)[:300]))


# ---------------------------------------------------------------- P12, P13
@kind("register")
def k_register(d):
    """A history of registrations; afterwards (and after each refusal) every identifier means what it should."""
    from pyudunits2 import UnitSystem, UnresolvableUnitException
    pool, ops = d
    S = UnitSystem()
    w = world.World()
    def observe(S):
        out = {}
        for x in pool:
            try:
                out[x] = S.unit_by_name_or_symbol(x).expanded()
            except UnresolvableUnitException:
                out[x] = None
            except Exception as e:
                out[x] = type(e).__name__
        return out
    def spec(x):
        rs = w.readings(x)
        out = set()
        for p, u in rs:
            t = ("id", u.ref) if u.definition is None else expansions(w, specparse.parse(u.definition))[0]
            out.add(repr(vals(norm(t if p is None else ("mul", ("num", Decimal(p), None), t)))))
        return out or {None}
    def vals(t):
        return ("num", Fraction(t[1])) if t[0] == "num" else tuple(vals(x) if isinstance(x, tuple) else x for x in t)
    base_u = world.UnitDef("basisunit")
    w.add_unit(base_u)
    S.add_unit(world.real_unit(S, base_u))
    made = []
    for n, op in enumerate(ops):
        if op[0] == "prefix":
            w.add_prefix(op[1], op[2], op[3])
            S.add_prefix(world.real_prefix(*op[1:]))
        elif op[0] == "look":
            observe(S) if op[1] is None else real_unit(S, op[1])
            continue
        else:
            if op[0] == "again":
                # A unit which was registered, or refused, before.
                if not made:
                    continue
                u, r = made[op[1] % len(made)]
            else:
                dd = dict(op[1])
                dd["alias_names"] = [tuple(x) for x in dd["alias_names"]]
                u = world.UnitDef(**dd)
                r = world.real_unit(S, u)
                made.append((u, r))
            before = dict_state(S)
            acc = w.add_unit(u, replace=op[2])
            try:
                if op[2]:
                    S.add_unit(r, replace=True)
                else:
                    S.add_unit(r)
                g = True
            except ValueError:
                g = False
            except Exception as e:
                g = f"{type(e).__name__}: {e}"
            if g != acc:
                return f"step {n} {'accepted' if acc else 'refused'}", g
            if not acc and before is not None and dict_state(S) != before:
                return f"step {n}: nothing changed by a refused registration", "tables changed"
        got = observe(S)
        for x in pool:
            e = spec(x)
            g = got[x]
            if g is not None:
                t = expected(g)
                g = repr(vals(norm(t))) if t else g
            if g not in e:
                return f"after step {n}, {x!r} means {e}", g


def dict_state(S):
    try:
        return {k: {a: id(b) for a, b in v.items()} for k, v in vars(S).items() if isinstance(v, dict)}
    except Exception:
        return None


@check("P12")
def p12(run):
    rng = run.rng
    while run.left():
        letters = "abc" if rng.random() < .7 else "abcdef"
        wd = lambda: "".join(rng.choice(letters) for _ in range(rng.choice([1, 1, 2, 2, 3])))
        ops = []
        k = 2
        for _ in range(rng.randrange(1, 7)):
            r = rng.random()
            if r < 0.2:
                ops.append(["prefix", wd(), rng.choice(["10", ".1", "1e3"]), [wd() for _ in range(rng.randrange(0, 3))]])
            elif r < 0.3:
                ops.append(["look", rng.choice([None, wd()])])
            elif r < 0.38:
                ops.append(["again", rng.randrange(6), rng.random() < 0.3])
            else:
                name = wd() if rng.random() < .75 else None
                u = dict(name=name, plural=rng.choice([None, wd()]) if name else None,
                         symbols=[wd() for _ in range(rng.choice([0, 1, 1, 2]) if name else rng.randrange(1, 3))],
                         alias_names=[[wd(), rng.choice([None, wd()])] for _ in range(rng.choice([0, 0, 1, 2]))],
                         alias_symbols=[wd() for _ in range(rng.choice([0, 0, 1, 2]))],
                         definition=f"{k} basisunit", dimensionless=False, is_time=False)
                if rng.random() < 0.2:
                    u["definition"] = None
                    if not u["name"]:
                        u["symbols"] = u["symbols"] or [wd()]
                k += 1
                ops.append(["unit", u, rng.random() < 0.3])
        pool = sorted({x for o in ops if o[0] == "unit" for x in [o[1]["name"], o[1]["plural"]] + o[1]["symbols"] + o[1]["alias_symbols"] + [y for a in o[1]["alias_names"] for y in a] if x}
                      | {o[1] for o in ops if o[0] == "prefix"} | {wd() for _ in range(8)} | {"basisunit", "abasisunit"})
        if rng.random() < .3:
            pool = sorted({*pool, *(y for x in pool for y in [respelled(rng, x)] if y)})
        attempt(run, "register", [pool, ops], repr(ops))


def observation(S, op):
    from pyudunits2 import Converter
    try:
        if op[0] == "unit":
            u = S.unit(op[1])
            return f"{type(u).__name__} {u if not hasattr(u, 'reference_date') else u.unit} {u.expanded()}"
        if op[0] == "lookup":
            u = S.unit_by_name_or_symbol(op[1])
            return f"{u} {u.expanded()}"
        if op[0] == "dims":
            return str(sorted(world.real_dims(S.unit(op[1])).items()))
        if op[0] == "time":
            u = S.unit(op[1])
            return f"{u.is_dimensionless()} {u.is_time_unit()}"
        if op[0] == "convert":
            c = Converter(S.unit(op[1]), S.unit(op[2]))
            return f"{c.expression} {c.convert(2.5)}"
        if op[0] == "equal":
            a, b = S.unit(op[1]), S.unit(op[2])
            return f"{a == b} {b == a} {a.is_convertible_to(b)}"
    except RecursionError:
        return "RecursionError"
    except Exception as e:
        return type(e).__name__


def answer(spec, op):
    w = world.standard() if spec == "std" else thaw(spec)
    return observation(w.build(), op)


def mentioned(spec):
    """The identifiers of the definitions."""
    out = set()
    def ids(t):
        if t[0] == "id":
            out.add(t[1])
        for x in t[1:]:
            if isinstance(x, tuple):
                ids(x)
    for e in spec:
        if e[0] == "unit" and e[1]["definition"]:
            t = expected(e[1]["definition"])
            if t:
                ids(t)
    return out


def extended(spec, entry):
    """The registrations including another one which doesn't change what the definitions refer to, or None."""
    spec = freeze(world.standard()) if spec == "std" else spec
    a, b = thaw(spec), thaw(spec + [entry])
    if len(b.log) != len(a.log) + 1:
        return None
    see = lambda w, x: [(p, u.ref, u.definition) for p, u in w.readings(x)]
    for x in mentioned(spec):
        if see(a, x) and see(a, x) != see(b, x):
            return None
    return spec + [entry]


@kind("observe")
def k_observe(d):
    """Every operation of a sequence, on one or several unit systems, gives what it gives first, on a fresh
    system with the same registrations, in a process in which nothing has been used before."""
    spec, ops = d
    specs = list(spec["systems"]) if isinstance(spec, dict) else [spec]
    systems = [(world.standard() if x == "std" else thaw(x)).build() for x in specs]
    if fresh._server is None:
        fresh.start(answer)
    for n, op in enumerate(ops):
        i, o = (op[0], op[1:]) if isinstance(op[0], int) else (0, op)
        if o[0] == "add":
            more = extended(specs[i], o[1])
            if more is not None:
                specs[i] = more
                e = thaw([o[1]]).log[0]
                if e[0] == "prefix":
                    systems[i].add_prefix(world.real_prefix(*e[1:]))
                else:
                    systems[i].add_unit(world.real_unit(systems[i], e[1]), replace=e[2])
            continue
        g = observation(systems[i], o)
        # (Asking a fresh process about each of them would take too long.)
        e = fresh.ask(specs[i], o) if n >= len(ops) - 4 else answer(specs[i], o)
        if e is not None and g != e:
            return f"step {n} {op}: {e}", g


def twin(rng, spec):
    """Another system with (mostly) the same identifiers, which mean something else."""
    out = []
    for e in (freeze(world.standard()) if spec == "std" else spec):
        if e[0] == "prefix":
            e = ["prefix", e[1], rng.choice([e[2], e[2], "10", "3"]), e[3]]
        else:
            u = dict(e[1])
            r = rng.random()
            if u["definition"] is not None:
                if r < .4:
                    u["definition"] = f"{rng.randrange(2, 9)} ({u['definition']})"
                elif r < .5:
                    u["definition"] = f"({u['definition']})^{rng.choice([-1, 2])}"
            elif r < .3:
                u["dimensionless"] = not u["dimensionless"]
            elif r < .5:
                u["is_time"] = not u["is_time"] and not u["dimensionless"]
            e = ["unit", u, e[2]]
        out.append(e)
    return out


@kind("stable")
def k_stable(d):
    """A unit object's own observations do not change as it and others are used."""
    from pyudunits2 import Converter
    spec, a, b = d
    w, S = get_world(spec) if spec != "std" else (lambda w: (w, w.build()))(world.standard())
    A, B = real_unit(S, a), real_unit(S, b)
    if A[0] != "unit" or B[0] != "unit":
        return None
    A, B = A[1], B[1]
    see = lambda: [(str(x), x.expanded(), sorted(world.real_dims(x).items()), x.is_dimensionless(), x.is_time_unit()) for x in (A, B)]
    first = see()
    eq = A == B
    def conv():
        try:
            c = Converter(A, B)
            return str(c.expression)
        except Exception as e:
            return type(e).__name__
    c1 = conv()
    if see() != first:
        return first, see()
    if conv() != c1 or (A == B) != eq or see() != first:
        return (c1, eq, first), (conv(), A == B, see())


@check("P13")
def p13(run):
    rng = run.rng
    fresh.start(answer)
    for spec, w, ids in worlds(run, 0.0):
        pool = ids + (STD_OFFSET + STD_LOG if spec == "std" else [])
        pool = [p for p in pool if expected(p) == ("id", p)] or ["q"]
        small = rng.sample(pool, min(len(pool), 5))
        st = lambda: rng.choice([rng.choice(small), unit_string(rng, small, 1)[1], rng.choice(small) + "2", "%%", "nosuch", "(" + rng.choice(small)])
        ops = []
        for _ in range(rng.randrange(2, 7)):
            k = rng.choice(["unit", "lookup", "dims", "time", "convert", "equal"])
            ops.append([k, rng.choice(small)] if k == "lookup" else [k, st()] + ([st()] if k in ("convert", "equal") else []))
        ops += [rng.choice(ops)]
        r = rng.random()
        if r < .4:
            # The same texts in two systems, one after the other.
            k = rng.choice([0, 1])
            attempt(run, "observe", [{"systems": [spec, twin(rng, spec)]}, [[i, *op] for op in ops for i in (k, 1 - k)]])
        elif r < .7:
            # Registrations in between.
            full = freeze(world.standard()) if spec == "std" else list(spec)
            cut = rng.randrange(len(full)) if rng.random() < .7 else max(0, len(full) - 2)
            shared = rng.random() < .4
            if shared:
                # One more unit, which takes over names of another one.
                u = dict(rng.choice([e for e in full if e[0] == "unit" and (e[1]["definition"] or rng.random() < .1)] or [e for e in full if e[0] == "unit"])[1])
                theirs = [y for y in [u["name"], u["plural"], *u["symbols"]] if y]
                u["name"], u["plural"], u["symbols"] = "q" + (u["name"] or "q"), None, []
                u["definition"] = rng.choice([None, "5", f"3 ({u['definition']})" if u["definition"] else "2"])
                full.append(["unit", u, False])
                cut = rng.choice([cut, len(full) - 1])
            whole = [y for e in full if e[0] == "unit" for y in [e[1]["name"], e[1]["plural"], *e[1]["symbols"], *e[1]["alias_symbols"], *(z for n in e[1]["alias_names"] for z in n)] if y]
            late = [y for e in full[cut:] if e[0] == "unit" for y in [e[1]["name"], *e[1]["symbols"], *e[1]["alias_symbols"]] if y] or whole
            prefixes = [e for e in full if e[0] == "prefix"]
            if shared:
                late += theirs
                whole = late
            elif prefixes and whole and rng.random() < .35:
                # A prefix is declared again, with another value.
                e = rng.choice(prefixes)
                full.append(["prefix", e[1], rng.choice(["2", "1e3", ".5", e[2]]), list(e[3])])
                cut = len(full) - 1
                late = [x + rng.choice(whole) for x in [e[1], *e[3]]][:3]
                whole = late
            elif prefixes and whole:
                e = rng.choice(prefixes)
                whole = whole + [rng.choice([e[1], *e[3]]) + rng.choice(whole) for _ in range(2)]
            word = lambda: rng.choice(rng.choice([whole, whole, late, small]) or small)
            look = lambda: rng.choice([["lookup", word()], ["lookup", word()], ["unit", word()], ["dims", word()], ["unit", f"{word()} {word()}"], ["unit", f"{word()}2"], ["convert", word(), word()]])
            seq = [look() for _ in range(rng.randrange(0, 3))]
            for e in full[cut:cut + 3]:
                seq += [["add", e]] + [look() for _ in range(rng.randrange(0, 3))]
            attempt(run, "observe", [{"systems": [full[:cut]]}, seq + [look() for _ in range(3)] + [["lookup", rng.choice(late)]]])
        else:
            attempt(run, "observe", [spec, ops])
        attempt(run, "stable", [spec, st(), st()])


# ---------------------------------------------------------------- P14
@kind("equal")
def k_equal(d):
    spec, a, b = d
    w, S = get_world(spec)
    ma, mb = meaning_of(w, a), meaning_of(w, b)
    A, B = real_unit(S, a), real_unit(S, b)
    if A[0] != "unit" or B[0] != "unit":
        return "units", (A, B)
    A, B = A[1], B[1]
    try:
        g, h, r = A == B, B == A, A == A
        again = A == real_unit(S, a)[1]
        # Units which are gone straight away: another one may take the place of one in memory.
        for _ in range(2):
            t = A == S.unit(b), A == S.unit(a)
            if t != (g, True):
                return f"equal to it and to itself, created again: {g, True}", t
    except Exception as e:
        return "a comparison", f"{type(e).__name__}: {e}"
    if r is not True or again is not True:
        return "reflexive", (r, again)
    # The registered units themselves, however they are represented.
    ra, rb = looked_up(S, a), looked_up(S, b)
    for x, y, same in [(ra, B, g), (A, rb, g), (ra, rb, g), (ra, A, True), (rb, B, True)]:
        if x is not None and y is not None and ((x == y) is not same or (y == x) is not same or (x != y) is same):
            return f"{same}, for units looked up", f"{x!r}, {y!r}"
    if bool(g) != bool(h) or (A != B) == g:
        return f"symmetric ({g})", (h, A != B)
    if A == 3 or A == "m" or not (A != None):
        return "not equal to anything but a unit", "equal"
    dimless = w_dimless(w)
    close = lambda x, y: x == y or (y != 0 and abs(x / y - 1) < Fraction(1, 10 ** 9))
    same_chain = len(ma.chain) == len(mb.chain) and all(
        x[0] == y[0] and (close(x[1], y[1]) if x[0] == "shift" else x[1] == y[1]) for x, y in zip(ma.chain, mb.chain))
    if g:
        if ma.dims != mb.dims or not close(ma.scale, mb.scale) or not (same_chain or equivalent(ma, mb)):
            return f"unequal: {ma.dims, ma.scale, ma.chain} and {mb.dims, mb.scale, mb.chain}", True
    else:
        exact = spec_integers(w, a) and spec_integers(w, b)
        if ma.dims == mb.dims and ma.scale == mb.scale and ma.chain == mb.chain and exact and not uses_dimensionless(w, a, b):
            return "equal", False


def spelt(t):
    """Every number with a text."""
    return ("num", t[1], t[2] or str(t[1])) if t[0] == "num" else tuple(spelt(x) if isinstance(x, tuple) else x for x in t)


def looked_up(S, s):
    t = expected(s)
    if t is None or t[0] != "id":
        return None
    return S.unit_by_name_or_symbol(t[1])


def equivalent(a, b):
    try:
        return all(abs(a.to_base(mpmath.mpf(v)) - b.to_base(mpmath.mpf(v))) <= mpmath.mpf(10) ** -9 * (1 + abs(b.to_base(mpmath.mpf(v)))) for v in (0.5, 1, 2, 3.25))
    except Exception:
        return False


def w_dimless(w):
    return {u.ref for u in w.units if u.dimensionless}


def uses_dimensionless(w, *ss):
    dl = w_dimless(w)
    def go(t):
        return (t[0] == "id" and t[1] in dl) or any(go(x) for x in t[1:] if isinstance(x, tuple))
    return any(go(e) for s in ss for e in expansions(w, specparse.parse(s)))


def spec_integers(w, s):
    def go(t):
        if t[0] == "num":
            return isinstance(t[1], int)
        return all(go(x) for x in t[1:] if isinstance(x, tuple))
    return all(go(e) for e in expansions(w, specparse.parse(s)))


EQ_IDS = ["m", "s", "kg", "K", "hour", "min", "day", "N", "J", "W", "V", "Hz", "meter", "A"]


@check("P14")
def p14(run):
    rng = run.rng
    ints = lambda t: ("num", int(abs(t[1])) or 3, str(int(abs(t[1])) or 3)) if t[0] == "num" else tuple(ints(x) if isinstance(x, tuple) else x for x in t)
    def shuffle(t):
        """Another way to write the same unit."""
        if t[0] == "mul" and rng.random() < .5:
            return ("mul", shuffle(t[2]), shuffle(t[1])) if t[2][0] not in ("mul", "div", "shift") and t[1][0] not in ("mul", "div", "shift", "log") and t[2][0] != "log" else ("mul", shuffle(t[1]), shuffle(t[2]))
        if t[0] == "div" and rng.random() < .3 and t[2][0] == "id":
            return ("mul", shuffle(t[1]), ("pow", t[2], -1))
        if t[0] == "num" and isinstance(t[1], int) and rng.random() < .4 and t[1] > 1:
            return ("div", ("num", t[1] * 3, str(t[1] * 3)), ("num", 3, "3"))
        if t[0] in ("shift", "pow"):
            return (t[0], shuffle(t[1]), t[2])
        return tuple(shuffle(x) if isinstance(x, tuple) else x for x in t)
    for spec, w, ids in worlds(run, 0.03):
        pool = EQ_IDS + (["degC", "degF", "mm", "km", "inch"] if rng.random() < .3 else []) if spec == "std" else ids
        for _ in range(4):
            t, a = unit_string(rng, pool, rng.choice([0, 1, 2, 2]), mined=run.mined["int"])
            if rng.random() < .7:
                t = ints(t)
                a = gen.render(rng, t)
                if a is None:
                    continue
            r = rng.random()
            if r < 0.45:
                b = gen.render(rng, shuffle(t))
                if b is None:
                    continue
            elif r < 0.55:
                b = rng.choice([f"2 ({a})", f"({a}) @ 1", f"lg(re {a})" if "@" not in a else f"({a})", f"({a})^2", f"-1 ({a})", f"1/({a})"])
            else:
                t2, b = unit_string(rng, pool, rng.choice([0, 1, 2]))
            if rng.random() < .3:
                x = rng.choice(["lg(re {})", "({}) @ 3", "lb(re {})", "ln(re {})", "lg(re ({} @ 2))"])
                if "@" not in a + b:
                    y = x if rng.random() < .6 else rng.choice(["lg(re {})", "({}) @ 3", "lb(re {})", "({}) @ 4"])
                    a, b = x.format(a), y.format(b)
            if rng.random() < .3 and "@" not in a + b and "lg" not in a + b and "ln" not in a + b and "lb" not in a + b:
                # Scales which are all tiny, all huge, or close to each other.
                e = rng.choice([-30, -20, -15, -13, -10, -7, -4, 4, 7, 10, 13, 20])
                k, l = rng.choice(["1", "2", "7.5", "1.00001"]), rng.choice(["1", "2", "3", "1.00002"])
                a, b = f"{k}e{e} ({a})", f"{l}e{e} ({rng.choice([a, a, b])})"
            elif rng.random() < .2:
                # A registered unit, and what it stands for.
                a = rng.choice(pool)
                try:
                    b = gen.render(rng, shuffle(spelt(rng.choice(expansions(w, ("id", a))))))
                except (world.Unresolvable, world.OutOfDomain, specparse.Reject):
                    continue
                if b is None:
                    continue
                if rng.random() < .3:
                    a, b = b, a
            attempt(run, "equal", [spec, a, b], (a, b, str(spec)[:200]))


# ---------------------------------------------------------------- P15
@kind("date")
def k_date(d):
    spec, s = d
    w, S = get_world(spec)
    t = expected(s)
    if t is None or not resolvable(w, t):
        return None
    k = w.classify(t)
    if t == ("empty",):
        raise world.OutOfDomain("empty")
    u = real_unit(S, s)
    if u[0] != k:
        return k, u
    if k == "date":
        e = t[2][2] if t[2][0] == "num" else t[2][1]
        r = u[1].reference_date
        g = getattr(r, "raw_content", None)
        if g != e or str(r) != e:
            return f"reference {e!r}", g
        if world.real_dims(u[1].unit) != w.dims(t[1]) or world.real_dims(u[1]) != w.dims(t[1]):
            return w.dims(t[1]), world.real_dims(u[1].unit)
        es = [norm(x) for x in expansions(w, t[1])]
        x = expansion_of(u[1].unit)
        if x is None or not any(value_same(y, norm(x)) for y in es):
            return es, u[1].unit.expanded()
        if u[1].is_convertible_to(u[1]) or u[1].is_convertible_to(u[1].unit) or u[1].unit.is_convertible_to(u[1]):
            return "not convertible", "convertible"
        if not u[1].is_time_unit() or u[1].is_dimensionless():
            return "a unit of time", (u[1].is_time_unit(), u[1].is_dimensionless())


@kind("empty")
def k_empty(_):
    w, S = get_world("std")
    u = real_unit(S, "")
    if u[0] != "unit":
        return "an ordinary unit", u


@check("P15")
def p15(run):
    rng = run.rng
    attempt(run, "empty", None)
    for spec, w, ids in worlds(run, 0.03):
        times = ["s", "day", "hour", "min", "2 s", "m s/m", "(s)", "s2/s", "1/Hz", "secs", "kilosecond", "1/s-1"] if spec == "std" else ids
        for _ in range(6):
            r = rng.random()
            if r < 0.35:
                u = rng.choice(times)
                if rng.random() < .3:
                    u = gen.render(rng, unit_string(rng, ids, 1)[0], True) or u
                s = f"{u}{rng.choice([' since ', ' @ ', ' from ', ' after ', ' ref '])}{rng.choice(gen.DATES + ['1990', '5', '2.5', '-3', '1e3', '20000101', '1900 UTC'])}"
                if rng.random() < .3:
                    s = rng.choice(["({})", "(({}))", "({}) m", "2 ({})", "({})^2", "lg(re {})", "({}) @ 5", "({})/({})", "m/({})", "({}) @ 2000-01-01"]).replace("{}", s)
            else:
                s = unit_string(rng, ids + times[:3] if spec == "std" else ids, rng.randrange(0, 4), logs=True, dates=True)[1]
            try:
                attempt(run, "date", [spec, s], (s, str(spec)[:200]))
            except specparse.MayReject:
                pass


# ---------------------------------------------------------------- P16
@kind("xml")
def k_xml(text):
    import os
    import tempfile
    import xml.etree.ElementTree as ET
    from pathlib import Path
    from pyudunits2._udunits2_xml_parser import UDUNITS2XMLParser
    from pyudunits2 import UnresolvableUnitException, BasisUnit
    import re
    declared = re.match(r'<\?xml version="1.0" encoding="([^"]+)"\?>', text)
    raw = text.encode(declared.group(1) if declared else "utf8")
    root = ET.fromstring(raw)
    if not root.tag.endswith("unit-system"):
        root = next(e for e in root.iter() if e.tag.endswith("unit-system"))
    w = world.World()
    try:
        w = world.read_xml(root)
        dup = False
    except KeyError:
        raise world.OutOfDomain("no singular")
    n = len([e for e in root if world.local(e) == "unit"])
    clash = len(w.units) != n
    fd, path = tempfile.mkstemp(suffix=".xml")
    try:
        with os.fdopen(fd, "wb") as fh:
            fh.write(raw)
        try:
            S = UDUNITS2XMLParser.parse_file(Path(path))
        except ValueError as e:
            return None if clash else ("a unit system", f"ValueError: {e}")
        except Exception as e:
            return "a unit system", f"{type(e).__name__}: {e}"
    finally:
        os.unlink(path)
    if clash:
        return "ValueError for a duplicate", "accepted"
    pool = set(words(w)) | set(w.pnames) | set(w.psymbols)
    pool |= {p + u for p in list(w.pnames) + list(w.psymbols) for u in list(w.names)[:3]}
    for x in list(w.names) + list(w.anames):
        pool |= {x + "s", x + "es", x[:-1] + "ies"}
    for x in sorted(pool):
        if not x:
            continue
        rs = w.readings(x)
        try:
            u = S.unit_by_name_or_symbol(x)
        except UnresolvableUnitException:
            if rs and all(u.definition is None or resolvable(w, specparse.parse(u.definition)) for _, u in rs):
                return f"{x!r}: {rs}", "unresolvable"
            continue
        except RecursionError:
            continue
        except (SyntaxError, ValueError) as e:
            if any(ill_defined(w, u) for _, u in rs):
                continue
            return f"{x!r}: {rs}", f"{type(e).__name__}: {e}"
        if not rs:
            return f"{x!r} unresolvable", u.expanded()
        try:
            es = [norm(e) for e in expansions(w, ("id", x))]
        except (world.OutOfDomain, world.Unresolvable, specparse.Reject):
            continue
        g = expansion_of(u)
        if g is None or not any(value_same(e, norm(g)) for e in es):
            return f"{x!r}: {es}", u.expanded()
        p, d = rs[0]
        if p is None and len(rs) == 1:
            if (d.definition is None) != isinstance(u, BasisUnit):
                return f"{x!r} basis: {d.definition is None}", type(u).__name__
            if d.definition is None and (u.is_dimensionless() != d.dimensionless or u.is_time_unit() != d.is_time):
                return f"{x!r} dimensionless {d.dimensionless}, time {d.is_time}", (u.is_dimensionless(), u.is_time_unit())


def random_xml(rng, mined=()):
    from xml.sax.saxutils import escape as E
    ends = ["", "y", "s", "x", "z", "ch", "sh", "ay", "ey", "oy", "uy", "iy", "ss", "us", "o", "e", "h", "by", "ty", "c"]
    used = set()
    letters = "abcdefgh" if rng.random() < .8 else "abµéàÀÿ"
    def word(fresh=True):
        for _ in range(100):
            r = rng.random()
            if mined and r < .05:
                x = rng.choice(mined)
                if not (x.isalpha() and x.isascii()) or x in gen.TIMEWORDS:
                    continue
            elif r < .06:
                x = "second"
            elif used and r < .16:
                # Words which differ a little.
                y = rng.choice(sorted(used) + ["second"])
                x = rng.choice([y.upper(), y.capitalize(), y + rng.choice("abs"), rng.choice("abs") + y, y[:-1]])
            else:
                x = "".join(rng.choice(letters) for _ in range(rng.choice([0, 1, 2, 3, 5]))) + rng.choice(ends)
            if x and (not fresh or x not in used) and expected(x) == ("id", x):
                used.add(x)
                return x
        return "q" + str(len(used)).translate(str.maketrans("0123456789", "abcdefghij"))
    sp = lambda: rng.choice(["", "", " ", "\n  ", "\n\t"])
    commented = rng.random() < .15
    def split(x):
        # Comments don't belong to the text.
        if not commented or rng.random() < .7:
            return E(x)
        i = rng.randrange(len(x) + 1)
        return E(x[:i]) + rng.choice(["<!-- a comment -->", "<!---->", "<?note x?>"]) + E(x[i:])
    tag = lambda t, x: f"{sp()}<{t}>{sp()}{split(x)}{sp()}</{t}>"
    def name(x):
        r = rng.random()
        inner = tag("singular", x)
        if r < .2:
            inner += tag("plural", word())
        elif r < .4:
            inner += "<noplural/>"
        return f"{sp()}<name>{inner}{sp()}</name>"
    out = ['<unit-system xmlns="urn:u">' if rng.random() < .8 else '<unit-system>']
    items = []
    for _ in range(rng.randrange(0, 3)):
        parts = [tag("name", word()), tag("value", rng.choice(["10", "1e3", ".01", "1e-6"]))] + [tag("symbol", word(False)) for _ in range(rng.randrange(0, 3))]
        items.append("<prefix>" + "".join(parts) + "</prefix>")
    known = []
    for i in range(rng.randrange(1, 5)):
        parts, mine = [], []
        nm = word() if rng.random() < .8 else None
        if nm:
            parts.append(name(nm))
            mine.append(nm)
        for _ in range(rng.randrange(0 if nm else 1, 3)):
            x = word()
            mine.append(x)
            parts.append(tag("symbol", x))
        al = []
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            x = word()
            mine.append(x)
            al.append(name(x) if rng.random() < .5 else tag("symbol", x))
        if al and rng.random() < .3:
            al.insert(rng.randrange(len(al) + 1), "<noplural/>")
        if al:
            parts.append("<aliases>" + "".join(al) + "</aliases>")
        if rng.random() < .3:
            parts.append(tag("definition", "some text"))
        if rng.random() < .3:
            parts.append(tag("comment", "a comment"))
        r = rng.random()
        if known and r < .6:
            d = world.random_def(rng, [x for x in known])
            parts.append(tag("def", d.replace(" ", "  ") if rng.random() < .3 else d))
        elif r < .75 and (nm or rng.random() < .5):
            parts.append("<dimensionless/>")
        elif nm or rng.random() < .5:
            parts.append("<base/>")
        else:
            parts.append(tag("def", "5" if not known else f"3 {known[0]}"))
        known += mine
        rng.shuffle(parts)
        items.append("<unit>" + "".join(parts) + "</unit>")
    if rng.random() < .3:
        rng.shuffle(items)
    if rng.random() < .1 and len(items) > 1:
        items.append(items[-1])
    text = "".join(out + items) + "</unit-system>"
    # The encoding is the document's own affair.
    e = rng.choice(["UTF-8", "ISO-8859-1", "UTF-16", None, None, None])
    return f'<?xml version="1.0" encoding="{e}"?>{text}' if e else text


@check("P16")
def p16(run):
    attempt(run, "bundled-xml", None)
    while run.left():
        attempt(run, "xml", random_xml(run.rng, run.mined["str"]))


@kind("bundled-xml")
def k_bundled(_):
    """Every name, plural, symbol and alias of the bundled database is registered, to the declared unit."""
    from pyudunits2 import UnresolvableUnitException
    w, S = bundled()
    for x in words(w):
        (p, u), *_ = w.readings(x)
        try:
            r = S.unit_by_name_or_symbol(x)
        except UnresolvableUnitException as e:
            if f"'{x}'" in str(e):
                return f"{x!r}: {u}", "unresolvable"
            continue
        except SyntaxError:
            continue
        n = getattr(r, "_names", None)
        if n is not None and (n.name.singular if n.name else None) != u.name:
            return f"{x!r}: {u}", n
    for table, real in ((w.pnames, "_prefix_names"), (w.psymbols, "_prefix_symbols")):
        real = getattr(S, real, None)
        if real is not None and {k: v.value for k, v in real.items()} != table:
            return table, real


# ---------------------------------------------------------------- P17
@kind("cli")
def k_cli(argv):
    import warnings
    from pyudunits2 import UnitSystem, Converter, IncompatibleUnitsError
    import pyudunits2.__main__ as M
    if "cli" not in _cache:
        _cache["cli"] = UnitSystem.from_udunits2_xml()
    S = _cache["cli"]
    out, err = io.StringIO(), io.StringIO()
    code = None
    old = sys.argv
    sys.argv = ["pyudunits2"] + argv
    real = UnitSystem.from_udunits2_xml
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                M.main()
                code = 0
            except SystemExit as e:
                code = e.code if e.code is not None else 0
            except Exception as e:
                code = f"{type(e).__name__}"
    finally:
        sys.argv = old
    text = out.getvalue()
    try:
        us = [S.unit(x) for x in argv[1:]]
    except Exception as e:
        return None if code == type(e).__name__ else (type(e).__name__, code)
    if argv[0] == "conversion-expr":
        try:
            e = str(Converter(us[0], us[1]).expression)
        except IncompatibleUnitsError:
            return None if code == 1 and "not possible" in text else ("not possible, status 1", (code, text))
        except Exception as x:
            return None if code == type(x).__name__ else (type(x).__name__, code)
        last = text.strip().split("\n")[-1] if text.strip() else ""
        if code != 0 or last != e or str(us[0]) not in text or str(us[1]) not in text or "not possible" in text:
            return e, (code, text)
    else:
        d = str(us[0].dimensionality())
        for x in (str(us[0]) if not hasattr(us[0], "reference_date") else "", us[0].expanded(), d):
            if x not in text:
                return x, (code, text)
        if code != 0:
            return 0, code
        lines = text.strip().split("\n")
        own = str(us[0]) if not hasattr(us[0], "reference_date") else lines[0]
        if len(lines) == 3 and (not lines[0].endswith(own) or not lines[1].endswith(us[0].expanded()) or not lines[2].endswith(d)):
            return (own, us[0].expanded(), d), lines


@check("P17")
def p17(run):
    rng = run.rng
    us = STD_LINEAR + STD_OFFSET + ["lg(re mW)", "days since 2000-01-01", "m2", "km/h", "nosuch", "1/s", "", "m.s-1", "2 m", "m^", "dBZ"]
    us = fixed = [u for u in us if u != ""]
    names = STD_LINEAR + STD_OFFSET + ["rad", "sr", "%", "1", "day", "km", "ms", "Pa"]
    while run.left():
        us = fixed + [unit_string(rng, names, rng.randrange(0, 3), logs=rng.random() < .3)[1] for _ in range(20)]
        us = [u for u in us if not u.startswith("-")]
        if rng.random() < .6:
            a = rng.choice(us)
            b = rng.choice(us) if rng.random() < .5 else rng.choice([a, f"2 {a}", f"1/({a})", "m", "K", "s"])
            attempt(run, "cli", ["conversion-expr", a, b])
        else:
            attempt(run, "cli", ["explain-unit", rng.choice(us)])
