"""Histories (P13): what was asked of a unit before doesn't change what it answers.

The postcondition of every query of a unit is proved once more, where any of the other queries
(or itself, for another argument) has been made of the same object before and has left something
changed behind (if nothing is, the query's own contract is about the same state).  Together with the
frame conditions (which let a query change nothing but a private attribute without a value, that
is: fill a cache), a cache which one query fills and another one reads has to be right.
"""
from dv.values import *  # noqa
from dv.values import z3
from dv.registry import Contract, VList, zbool
from dv import frame
from . import units, converter, unit_texts, system
from .units import UnitContract

T = None

UNIT = [(units.UnitDimensionality, None), (units.UnitIsDimensionless, None), (units.UnitIsTime, None), (units.UnitExpanded, None), (units.UnitBasisNames, None),
        (units.UnitConvertible, "unit"), (unit_texts.UnitStr, None), (unit_texts.UnitExpandedText, None), (converter.Symbolic, "first"), (converter.UnitEq, "units")]


NOTHING = object()


BASIS = [(k, "named") for k in (units.BasisDimensionality, units.BasisExpanded, units.BasisIsTime, units.BasisNames, unit_texts.BasisStr, unit_texts.BasisExpandedText)]

DATE = [(units.DateConvertible, "unit"), (units.DateDimensionality, None), (units.DateUnitKept, None), (unit_texts.DateExpandedText, None), (unit_texts.DateIsTime, None),
        (unit_texts.DateIsDimensionless, None)]


def registered(ip, k):
    return next(c for c in ip.registry.contracts if type(c) in (k, k.__bases__[0]))


class History(Contract):
    module = units.UNITS
    props = ("P13",)
    frame = False
    first, queries = None, ()

    def matches(self, ip, fn, self_, args):
        return False

    def resolve(self):
        return self.query().resolve()

    def started(self, ip, kind, case, memo):
        """The thunk and ghost state of a contract about the object which is made first."""
        class Again(kind):
            def make(self, ip, tag="node", *a, **k):
                if tag == "other" or "made" not in memo:
                    r = super().make(ip, tag, *a, **k)
                    memo.setdefault("made", (r, getattr(ip, "ghost", None)))
                    return r
                r, g = memo["made"]
                if not issubclass(kind, UnitContract):
                    ip.ghost = dict(g)
                return r
        ip.case = case
        t = Again().start(ip, case)
        return t, ip.ghost

    def start(self, ip, case):
        kind, kcase = self.queries[self.cases.index(case)]
        memo = {}
        # What the postcondition is about comes first: facts on the specification.
        t2, g2 = self.started(ip, self.query, self.query_case, memo)
        t1, g1 = self.started(ip, kind, kcase, memo)
        A, B = registered(ip, kind), registered(ip, self.query)

        def go():
            ip.ghost, ip.case, ip.entry = g1, kcase, (A, None)
            before = frame.snapshot(ip, t2)
            try:
                t1()
            except PyRaise:
                pass
            if not frame.changed(ip, before):
                # Then the query's own contract, which is among those of the property, applies.
                return NOTHING
            ip.ghost, ip.case, ip.entry = g2, self.query_case, (B, None)
            return t2()
        return go

    def ensure(self, ip, r):
        if r is NOTHING:
            return ip.prove("nothing has changed", True)
        self.query().ensure(ip, r)

    def raised(self, ip, exc):
        self.query().raised(ip, exc)

    def hints(self, ip, model):
        return self.query().hints(ip, model)


class SystemHistory(History):
    """A lookup, after other lookups and registrations; what a registration changes is the
    tables, which the contract of a lookup is about whatever they are."""
    module = system.SYSTEM
    props = ("P13", "P11")

    def start(self, ip, case):
        kind, between = self.before[self.cases.index(case)]
        between = list(between)
        made = []

        def started(kind, kcase):
            class Again(kind):
                def system(self, ip):
                    if not made:
                        made.append(system.fresh_system(ip))
                    return made[0]
            ip.case = kcase
            ip.ghost = None
            t = Again().start(ip, kcase)
            return t, ip.ghost
        t2, g2 = started(self.query, self.query_case)
        first = started(*kind)
        # Whether, and which, registration comes between.
        s = made[0]
        every = [c for k in system.TABLES + system.PREFIXES for c in [s.attrs[k]]]

        def go():
            before = frame.snapshot(ip, t2)
            before.items = [(o, b) for o, b in before.items if not any(o is c for c in every)]
            steps = [kind + first]
            while steps:
                k, c, t, g = steps.pop()
                s.ghost = system.tables(ip, s)
                ip.ghost, ip.case, ip.entry = g, c, (registered(ip, k), None)
                try:
                    t()
                except PyRaise:
                    pass
                if all(s.attrs[k] is c for k, c in zip(system.TABLES + system.PREFIXES, every)) and not frame.changed(ip, before):
                    # The history without this step, and the query's own contract, are about the same states.
                    return NOTHING
                if between:
                    n = between[ip.path.choose([(o[0].name if o else "no registration", None) for o in between])]
                    if n is not None:
                        steps.append(n + started(*n))
                    between.clear()
            ip.path.failed = []
            s.ghost = system.tables(ip, s)
            ip.ghost, ip.case, ip.entry = g2, self.query_case, (registered(ip, self.query), None)
            return t2()
        return go


class Register(system.AddUnit):
    """The registration of a unit which has one symbol."""

    def start(self, ip, case):
        p = ip.path
        s = self.system(ip)
        s.before = set(s.attrs)
        x = p.fresh("new_symbol", String)
        p.add(x != z3.StringVal(""))
        UR = units.cls("UnitReference", "pyudunits2._unit_reference")
        nm = SObj(UR, {"name": None, "symbols": VList([SStr(x)]), "alias_names": VList([]), "alias_symbols": VList([]), "description": ""})
        u = ip.construct(units.cls("LazilyDefinedUnit", system.SYSTEM), [], {"unit_system": s, "definition": SStr(p.fresh("definition", String)), "names": nm})
        ip.ghost = {"system": s, "u": u}
        return lambda: ip.call(ip.getattr(s, self.method), [u] + ([True] if case == "replace" else []), {})


ADD = (Register, "default")
REPLACE = (Register, "replace")
LOOKUP = (system.Lookup, None)
TEXT = (system.SystemUnit, None)
ANY = (ADD, None, REPLACE, (system.AddPrefix, None))
LOOKUPS = {"lookup": (LOOKUP, ANY), "text": (TEXT, ANY), "registration": (ADD, ())}
# What a text means is stated for one state of the registrations.
TEXTS = {"lookup": (LOOKUP, ()), "text": (TEXT, ())}


def system_history(k, before):
    return type("History" + k.__name__, (SystemHistory,), {
        "query": k, "query_case": None, "before": tuple(before.values()), "cases": tuple(before), "name": f"history: then {k.name}", "cls": k.cls, "method": k.method,
        "assumes": tuple(k.assumes)})


def history(k, case, queries):
    return type("History" + k.__name__, (History,), {
        "query": k, "query_case": case, "queries": tuple(queries), "name": f"history: then {k.name}", "cls": k.cls, "method": k.method,
        "cases": tuple(q.name for q, _ in queries), "assumes": tuple(k.assumes)})


CONTRACTS = [history(k, c, qs) for qs in (UNIT, BASIS, DATE) for k, c in qs] + [system_history(system.Lookup, LOOKUPS), system_history(system.SystemUnit, TEXTS)]


def load(theory):
    global T
    T = theory
    return [c() for c in CONTRACTS], []
