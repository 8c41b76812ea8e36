"""Specification-level unit systems: what identifiers and units mean, independently of the code.

A World holds prefixes, units and their registration order; `resolve` says which
readings of an identifier are right, `Meaning` gives dimensionality and the value
transformation, exactly where possible (rational scales) or as mpmath functions.
"""
import math
from decimal import Decimal
from fractions import Fraction

import mpmath

from . import gen, specparse

mpmath.mp.dps = 40


class OutOfDomain(Exception):
    """A unit whose conversion the properties leave open (e.g. scaled logarithms)."""


class Unresolvable(Exception):
    pass


class Refused(Exception):
    """The unit is to be refused with a ValueError (nested dates and such)."""


class Meaning:
    """chain: outermost first, of ("shift", x) | ("log", base); then value * scale."""

    def __init__(self, dims, scale, chain=()):
        self.dims = {k: v for k, v in dims.items() if v}
        self.scale, self.chain = scale, tuple(chain)

    def linear(self):
        """As a factor: offsets do not count; logarithms are out of the domain."""
        if any(c[0] == "log" for c in self.chain):
            raise OutOfDomain("logarithmic factor")
        return self.scale

    def mul(self, o, sign=1):
        d = dict(self.dims)
        for k, v in o.dims.items():
            d[k] = d.get(k, 0) + sign * v
        b = o.linear()
        return Meaning(d, self.linear() * b if sign > 0 else self.linear() / b)

    def pow(self, n):
        if abs(n) > 2000:
            raise OutOfDomain("exponent")
        return Meaning({k: v * n for k, v in self.dims.items()}, self.linear() ** n)

    def to_base(self, v):
        for c in self.chain:
            v = v + mpmath.mpf(c[1].numerator) / c[1].denominator if c[0] == "shift" else mpmath.power(c[1], v)
        return v * mpmath.mpf(self.scale.numerator) / self.scale.denominator

    def from_base(self, v):
        v = v / (mpmath.mpf(self.scale.numerator) / self.scale.denominator)
        for c in reversed(self.chain):
            if c[0] == "shift":
                v = v - mpmath.mpf(c[1].numerator) / c[1].denominator
            else:
                if v <= 0:
                    raise OutOfDomain("log of a non-positive value")
                v = mpmath.log(v) / mpmath.log(c[1])
        return v


def frac(v):
    if isinstance(v, Decimal):
        if abs(v.adjusted()) > 400:
            raise OutOfDomain("magnitude")
    return Fraction(v)


def convertible(a, b):
    return a.dims == b.dims or a.dims == {k: -v for k, v in b.dims.items()}


def convert(a, b, v):
    """v in unit a, expressed in unit b."""
    if not convertible(a, b):
        raise OutOfDomain("not convertible")
    x = a.to_base(mpmath.mpf(v))
    if a.dims != b.dims:
        if x == 0:
            raise OutOfDomain("zero")
        x = 1 / x
    return b.from_base(x)


BASES = {"lg": 10, "lb": 2, "ln": mpmath.e, "log": mpmath.e}


class UnitDef:
    def __init__(self, name=None, plural=None, symbols=(), alias_names=(), alias_symbols=(), definition=None,
                 dimensionless=False, is_time=False):
        self.name, self.plural, self.symbols = name, plural, tuple(symbols)
        self.alias_names, self.alias_symbols = tuple(alias_names), tuple(alias_symbols)
        self.definition, self.dimensionless, self.is_time = definition, dimensionless, is_time

    @property
    def ref(self):
        return self.name or self.symbols[0]

    def __repr__(self):
        d = {k: v for k, v in vars(self).items() if v}
        return "Unit(%s)" % ", ".join(f"{k}={v!r}" for k, v in d.items())


class World:
    def __init__(self):
        self.names, self.symbols, self.anames, self.asymbols = {}, {}, {}, {}
        self.pnames, self.psymbols = {}, {}
        self.units, self.prefixes, self.log = [], [], []

    # -- registration ---------------------------------------------------
    def add_prefix(self, name, value, symbols=()):
        self.prefixes.append((name, value, tuple(symbols)))
        self.log.append(("prefix", name, value, tuple(symbols)))
        self.pnames[name] = value
        for s in symbols:
            self.psymbols[s] = value

    def conflicts(self, u):
        return ((u.name is not None and u.name in self.names) or (u.plural and u.plural in self.names)
                or any(s in self.symbols for s in u.symbols))

    def add_unit(self, u, replace=False):
        if not replace and self.conflicts(u):
            return False
        self.units.append(u)
        self.log.append(("unit", u, replace))
        if u.name is not None:
            self.names[u.name] = u
            if u.plural:
                self.names[u.plural] = u
        for s in u.symbols:
            self.symbols[s] = u
        for n, p in u.alias_names:
            self.anames[n] = u
            if p:
                self.anames[p] = u
        for s in u.alias_symbols:
            self.asymbols[s] = u
        return True

    # -- meaning --------------------------------------------------------
    def exact(self, ident):
        for t in (self.names, self.anames, self.symbols, self.asymbols):
            if ident in t:
                return t[ident]
        return None

    def readings(self, ident):
        """The acceptable readings: [(None, unit)] or [(prefix value, unit), ...]."""
        u = self.exact(ident)
        if u is not None:
            return [(None, u)]
        for table in (self.pnames, self.psymbols):
            r = [(v, self.exact(ident[len(p):])) for p, v in table.items()
                 if ident.startswith(p) and self.exact(ident[len(p):]) is not None]
            if r:
                return r
        return []

    def identifier(self, ident, depth=0):
        """All acceptable meanings of an identifier."""
        if depth > 25:
            raise OutOfDomain("cyclic")
        r = self.readings(ident)
        if not r:
            raise Unresolvable(ident)
        out = []
        for p, u in r:
            m = self.unit_meaning(u, depth)
            if p is not None:
                m = Meaning({}, frac(Decimal(p))).mul(m)
            out.append(m)
        return out

    def unit_meaning(self, u, depth=0):
        if u.definition is None:
            return Meaning({} if u.dimensionless else {u.ref: 1}, Fraction(1))
        return self.meaning(specparse.parse(u.definition), depth + 1)

    def meaning(self, t, depth=0):
        """The meaning of a tree (identifiers must have a single reading)."""
        k = t[0]
        if k == "num":
            return Meaning({}, frac(t[1]))
        if k == "id":
            ms = self.identifier(t[1], depth)
            if len(ms) > 1 and any(m.dims != ms[0].dims or m.scale != ms[0].scale or m.chain != ms[0].chain for m in ms):
                raise OutOfDomain("several readings")
            return ms[0]
        if k in ("mul", "div"):
            b = self.meaning(t[2], depth)
            if k == "div" and b.linear() == 0:
                raise OutOfDomain("zero scale")
            return self.meaning(t[1], depth).mul(b, 1 if k == "mul" else -1)
        if k == "pow":
            a = self.meaning(t[1], depth)
            if a.linear() == 0 and t[2] <= 0:
                raise OutOfDomain("zero scale")
            return a.pow(t[2])
        if k == "shift":
            a = self.meaning(t[1], depth)
            if t[2][0] != "num":
                raise Refused("date")
            return Meaning(a.dims, a.scale, (("shift", frac(t[2][1])),) + a.chain)
        if k == "log":
            a = self.meaning(t[2], depth)
            return Meaning(a.dims, a.scale, (("log", BASES[t[1]]),) + a.chain)
        raise OutOfDomain(k)

    def dims(self, t, depth=0):
        """Dimensionality alone (total: also for scaled logarithms, dates)."""
        if depth > 25:
            raise OutOfDomain("cyclic")
        k = t[0]
        if k == "num":
            return {}
        if k == "id":
            r = self.readings(t[1])
            if not r:
                raise Unresolvable(t[1])
            ds = [self.unit_dims(u, depth) for _, u in r]
            if any(d != ds[0] for d in ds):
                raise OutOfDomain("several readings")
            return ds[0]
        if k in ("mul", "div"):
            d = dict(self.dims(t[1], depth))
            for b, n in self.dims(t[2], depth).items():
                d[b] = d.get(b, 0) + (n if k == "mul" else -n)
        elif k == "pow":
            d = {b: n * t[2] for b, n in self.dims(t[1], depth).items()}
        elif k == "shift":
            d = self.dims(t[1], depth)
        elif k == "log":
            d = self.dims(t[2], depth)
        else:
            raise OutOfDomain(k)
        return {b: n for b, n in d.items() if n}

    def unit_dims(self, u, depth=0):
        if u.definition is None:
            return {} if u.dimensionless else {u.ref: 1}
        return self.dims(specparse.parse(u.definition), depth + 1)

    def time_bases(self):
        return {u.ref for u in self.units if u.definition is None and u.is_time and not u.dimensionless}

    def is_time(self, d):
        return len(d) == 1 and list(d.values()) == [1] and next(iter(d)) in self.time_bases()

    def classify(self, t, top=True, depth=0):
        """'date', 'unit' or 'refused' for a tree whose identifiers resolve."""
        def ok(t, top):
            if depth > 25:
                raise OutOfDomain("cyclic")
            k = t[0]
            if k == "shift":
                if not ok(t[1], False):
                    return False
                if self.is_time(self.dims(t[1])):
                    return top
                return t[2][0] == "num"
            return all(ok(x, False) for x in t[1:] if isinstance(x, tuple))
        if not ok(t, top):
            return "refused"
        if t[0] == "shift" and self.is_time(self.dims(t[1])):
            return "date"
        return "unit"

    # -- the real thing ---------------------------------------------------
    def build(self):
        from pyudunits2 import UnitSystem
        s = UnitSystem()
        for e in self.log:
            if e[0] == "prefix":
                s.add_prefix(real_prefix(*e[1:]))
            else:
                s.add_unit(real_unit(s, e[1]), replace=e[2])
        return s

    def xml(self, rng=None):
        from xml.sax.saxutils import escape as E
        out = ['<?xml version="1.0" encoding="US-ASCII"?>', '<unit-system xmlns="urn:x">']
        for n, v, ss in self.prefixes:
            out.append(f"<prefix><name>{E(n)}</name><value>{E(v)}</value>" + "".join(f"<symbol>{E(s)}</symbol>" for s in ss) + "</prefix>")
        return out


def real_names(u):
    from pyudunits2._unit_reference import Name, UnitReference
    return UnitReference(
        name=None if u.name is None else Name(singular=u.name, plural=u.plural),
        symbols=u.symbols,
        alias_names=tuple(Name(singular=n, plural=p) for n, p in u.alias_names),
        alias_symbols=u.alias_symbols)


def real_prefix(name, value, symbols):
    from pyudunits2._unit_reference import Prefix
    return Prefix(name=name, value=value, symbols=tuple(symbols))


def real_unit(system, u):
    from pyudunits2 import BasisUnit
    from pyudunits2._unit_system import LazilyDefinedUnit
    if u.definition is None:
        return BasisUnit(names=real_names(u), dimensionless=u.dimensionless, is_time_unit=u.is_time)
    return LazilyDefinedUnit(unit_system=system, definition=u.definition, names=real_names(u))


def real_dims(unit):
    return {str(b): n for b, n in unit.dimensionality().items()}


# ---------------------------------------------------------------------------
def standard():
    """A small world resembling the bundled database."""
    w = World()
    for n, v, s in [("kilo", "1e3", ("k",)), ("milli", "1e-3", ("m",)), ("deci", ".1", ("d",)), ("deka", "10", ("da",)),
                    ("centi", ".01", ("c",)), ("mega", "1e6", ("M",)), ("micro", "1e-6", ("µ", "u"))]:
        w.add_prefix(n, v, s)
    B = lambda *a, **k: w.add_unit(UnitDef(*a, **k))
    B("meter", "meters", ("m",), (("metre", "metres"),))
    B("second", "seconds", ("s",), (("sec", "secs"),), is_time=True)
    B("kilogram", "kilograms", ("kg",))
    B("kelvin", "kelvins", ("K",))
    B("ampere", "amperes", ("A",))
    B("radian", "radians", ("rad",), dimensionless=True)
    B("gram", "grams", ("g",), definition="1e-3 kg")
    B("minute", "minutes", ("min",), definition="60 s")
    B("hour", "hours", ("h",), (("hr", "hrs"),), definition="60 min")
    B("day", "days", ("d",), definition="24 hour")
    B("newton", "newtons", ("N",), definition="m.kg.s-2")
    B("joule", "joules", ("J",), definition="N.m")
    B("watt", "watts", ("W",), definition="J/s")
    B("volt", "volts", ("V",), definition="W/A")
    B("hertz", None, ("Hz",), definition="1/s")
    B("degree", "degrees", ("°",), definition="0.0174532925199433 rad")
    B("steradian", "steradians", ("sr",), definition="rad2")
    B("celsius", None, (), (("degC", None),), ("°C",), definition="K @ 273.15")
    B("rankine", None, (), (("degR", None),), ("°R",), definition="K/1.8")
    B("fahrenheit", None, (), (("degF", None),), ("°F",), definition="°R @ 459.67")
    B("inch", "inches", ("in",), definition="2.54 cm")
    B("foot", "feet", ("ft",), definition="12 inches")
    B("liter", "liters", ("L",), (("litre", "litres"),), ("l",), definition="1e-3 m^3")
    B("percent", None, ("pct",), definition="0.01")
    B("decibelref", None, ("Bz",), definition="lg(re 1 µm^3)")
    B("neperish", None, ("Np",), definition="ln(re W)")
    B("octaveish", None, ("oct",), definition="lb(re Hz)")
    B("pH", None, (), definition="lg(re (m @ 2))")
    return w


LETTERS = "abdkmsxyz"


def random_world(rng, mined=()):
    """A world with short, heavily overlapping identifiers."""
    w = World()
    def word():
        if mined and rng.random() < 0.05:
            c = [x for x in mined if x.isalpha() and x not in gen.TIMEWORDS]
            if c:
                return rng.choice(c)
        return "".join(rng.choice(LETTERS) for _ in range(rng.choice([1, 1, 2, 2, 3, 4])))
    for _ in range(rng.randrange(0, 5)):
        w.add_prefix(word(), rng.choice(["10", "1e3", ".1", "1e-3", "2", "3", "0.5", "1E2", "-2", "7e-1", "100", "1000"]),
                     tuple(word() for _ in range(rng.randrange(0, 3))))
    nb = rng.randrange(1, 4)
    for i in range(rng.randrange(nb, 8)):
        name = word() if rng.random() < 0.8 else None
        if name and rng.random() < 0.02:
            name = "value"
        plural = rng.choice([None, (name or "") + "s", word()]) if name else None
        syms = tuple(word() for _ in range(rng.randrange(0 if name else 1, 3)))
        an = tuple((word(), rng.choice([None, word()])) for _ in range(rng.choice([0, 0, 1, 2])))
        asy = tuple(word() for _ in range(rng.choice([0, 0, 1, 2])))
        u = UnitDef(name, plural, syms, an, asy)
        if i >= nb and rng.random() < 0.9:
            known = list(w.names) + list(w.symbols) + list(w.anames) + list(w.asymbols)
            u.definition = random_def(rng, known)
        else:
            u.dimensionless = rng.random() < 0.15
            u.is_time = rng.random() < 0.4 and not u.dimensionless
        if u.ref in {x.ref for x in w.units if x.definition is None} and u.definition is None:
            continue
        w.add_unit(u)
    if rng.random() < 0.05:
        # A long chain of references.
        last = rng.choice(list(w.names) + list(w.symbols) or ["q"])
        for _ in range(rng.randrange(5, 11)):
            x = word() + "".join(rng.choice(LETTERS) for _ in range(3))
            if w.readings(x):
                continue
            w.add_unit(UnitDef(x, None, (), (), (), definition=rng.choice(["2 {}", "{}", "{}", "0.5 {}", "{}^1"]).format(last)))
            last = x
    return w


def random_def(rng, known):
    ids = [k for k in known] or ["q"]
    x = lambda: rng.choice(ids)
    k = rng.randrange(9)
    if k == 0:
        return f"{rng.randrange(1, 50)} {x()}"
    if k == 1:
        return f"{x()}.{x()}"
    if k == 2:
        return f"{x()}/{x()}"
    if k == 3:
        return f"{x()}^{rng.choice([-2, -1, 2, 3])}"
    if k == 4:
        return f"{x()} @ {rng.choice(['2', '273.15', '-1', '.5'])}"
    if k == 5:
        return f"{rng.choice(['lg', 'lb', 'ln'])}(re {rng.choice(['', '2 ', '0.001 '])}{x()})"
    if k == 6:
        return f"{rng.choice(['0.5', '1e-3', '12', '2.5e2'])} {x()}"
    if k == 7:
        return f"{x()}{rng.choice(['2', '-1', '3'])} {x()}"
    return f"({x()} @ {rng.randrange(1, 9)}) @ {rng.randrange(1, 9)}"


def bundled():
    """The bundled database, read with the standard library's XML parser."""
    import xml.etree.ElementTree as ET
    from .base import REPO
    root = ET.parse(REPO + "/pyudunits2/udunits2_combined.xml").getroot()
    if not root.tag.endswith("unit-system"):
        root = next(e for e in root.iter() if e.tag.endswith("unit-system"))
    return read_xml(root)


def local(e):
    return e.tag.split("}")[-1]


def plural_of(n):
    if n.endswith("y") and len(n) > 1 and n[-2] not in "aeiou":
        return n[:-1] + "ies"
    if len(n) > 1 and n.endswith(("s", "x", "z", "ch", "sh")):
        return n + "es"
    return n + "s"


def read_name(e):
    ch = {local(c): (c.text or "").strip() for c in e}
    s = ch["singular"]
    if "plural" in ch:
        return s, ch["plural"]
    if "noplural" in ch:
        return s, None
    return s, plural_of(s)


def read_xml(root):
    w = World()
    for e in root:
        if local(e) == "prefix":
            t = lambda k: [(c.text or "").strip() for c in e if local(c) == k]
            w.add_prefix(t("name")[0], t("value")[0], tuple(t("symbol")))
    for e in root:
        if local(e) != "unit":
            continue
        u = UnitDef()
        syms, an, asy = [], [], []
        for c in e:
            k = local(c)
            if k == "name":
                u.name, u.plural = read_name(c)
            elif k == "symbol":
                syms.append((c.text or "").strip())
            elif k == "def":
                u.definition = (c.text or "").strip()
            elif k == "dimensionless":
                u.dimensionless = True
            elif k == "aliases":
                for a in c:
                    if local(a) == "name":
                        an.append(read_name(a))
                    elif local(a) == "symbol":
                        asy.append((a.text or "").strip())
        u.symbols, u.alias_names, u.alias_symbols = tuple(syms), tuple(an), tuple(asy)
        u.is_time = u.definition is None and u.name == "second"
        w.add_unit(u)
    return w
