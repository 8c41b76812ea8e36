"""An independent recogniser for the unit grammar.

Written from the grammar (udunits2Parser.g4, udunits2Lexer.g4.jinja), not from
the library's code: a longest-match lexer with modes, and a recursive descent
parser.  Used as the oracle of the bounded checks; the proofs do not use it.

Trees are tuples:
  ("num", value, text) ("id", name) ("mul", a, b) ("div", a, b)
  ("pow", a, int) ("shift", a, ref) ("log", fn, a) ("empty",)
with ref = ("num", value, text) or ("date", text).
"""
import re
import unicodedata
from decimal import Decimal, InvalidOperation

ANY_INT = r"[+-]?[0-9]+"
E_POWER = r"[Ee]" + ANY_INT
LATIN = "\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u00FF\u0080\u00AD\u00B0\u00B5\u03c0\u03a9"
MONTH = r"(?:1[0-2]|0?[1-9])"
DAY = r"(?:3[01]|[12][0-9]|0?[1-9])"
HOURS = [r"[+-]?[01]?[0-9]", r"[+-]?[0-9]", r"2[0-3]"]
MINUTES = [r"[0-5]?[0-9]", r"[0-9]"]
SECONDS = [r"(?:60|[0-5]?[0-9])(?:\.[0-9]*)?", r"[0-9](?:\.[0-9]*)?"]
CLOCKS = [h for h in HOURS] + [h + m for h in HOURS for m in MINUTES] + [
    h + m + s for h in HOURS for m in MINUTES for s in SECONDS
]

DEFAULT = [
    ("SIGNED_INT", [r"[+-][0-9]+"]),
    ("PLUS", [r"\+"]),
    ("MULTIPLY", [r"[*·\-]"]),
    ("DIVIDE", [r" *(?:/| PER | per ) *", r" *(?:/) *"]),
    ("PERIOD", [r"\."]),
    ("OPEN_PAREN", [r"\("]),
    ("CLOSE_PAREN", [r"\)"]),
    ("SEMICOLON", [r":"]),
    ("INT", [r"[0-9]+"]),
    ("E_POWER", [E_POWER]),
    ("FLOAT", [ANY_INT + r"\.[0-9]*(?:" + E_POWER + ")?",
               r"(?:" + ANY_INT + r")?\.[0-9]+(?:" + E_POWER + ")?",
               ANY_INT + E_POWER]),
    ("SHIFT_OP", [r"@", "after", "from", "since", "ref"]),
    ("UNICODE_EXPONENT", [r"[⁻⁺¹²³⁴⁵⁶⁷⁸⁹⁰]+"]),
    ("RAISE", [r"\^", r"\*\*"]),
    ("LOG", [r"(?:log|lg|ln|lb) *\( *(?:RE|re):? *"]),
    ("ID", [r"[A-Za-z_" + LATIN + r"]+"]),
    ("LATIN_SUBSET", [r"[" + LATIN + r"]"]),
    ("WS", [r" "]),
    ("ERRORCHARACTER", [r"(?s:.)"]),
]
SHIFT = [
    ("TIMEZONE", ["UTC", "Z", "GMT"]),
    ("TZ", ["TZ"]),
    ("HOUR_MINUTE_SECOND", [h + ":" + m + ":" + s for h in HOURS for m in MINUTES for s in SECONDS]),
    ("HOUR_MINUTE", [h + ":" + m for h in HOURS for m in MINUTES]),
    ("M_MINUS", ["-"]),
    ("DATE", [ANY_INT + "-" + MONTH + "-" + DAY, ANY_INT + "-" + MONTH]),
    ("T", ["T"]),
    ("TIMESTAMP", [ANY_INT + "T" + c for c in CLOCKS]),
] + DEFAULT
ID_SEEN = [("SIGNED_INT", [r"[+-][0-9]+"]), ("MULTIPLY", [r"\.", "-"])] + [
    x for x in DEFAULT if x[0] != "FLOAT"
]


def _c(rules):
    return [(n, [re.compile(a) for a in alts]) for n, alts in rules]


MODES = {"DEFAULT": _c(DEFAULT), "SHIFT": _c(SHIFT), "ID_SEEN": _c(ID_SEEN)}


def lex(text):
    mode, pos, out = "DEFAULT", 0, []
    while pos < len(text):
        best, name = 0, None
        for n, alts in MODES[mode]:
            for a in alts:
                m = a.match(text, pos)
                if m and m.end() - pos > best:
                    best, name = m.end() - pos, n
        out.append((name, text[pos:pos + best]))
        pos += best
        if mode == "ID_SEEN":
            mode = "DEFAULT"
        elif mode == "DEFAULT":
            if name == "ID":
                mode = "ID_SEEN"
            elif name == "SHIFT_OP":
                mode = "SHIFT"
    out.append(("EOF", ""))
    return out


class Reject(Exception):
    pass


class MayReject(Exception):
    """A literal is outside what the implementation promises to represent."""


SUP = {"⁻": "-", "⁺": "+", "¹": "1", "²": "2", "³": "3", "⁴": "4", "⁵": "5",
       "⁶": "6", "⁷": "7", "⁸": "8", "⁹": "9", "⁰": "0"}


def to_int(text):
    if len(text) > 4000:
        raise MayReject(text[:20])
    return int(text)


def to_dec(text):
    try:
        return Decimal(text)
    except InvalidOperation:
        raise MayReject(text[:20])


def sup_int(text):
    t = "".join(SUP[c] for c in text)
    if not re.fullmatch(ANY_INT, t):
        raise Reject("superscript " + text)
    return to_int(t)


class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def k(self, o=0):
        j = self.i + o
        return self.t[j][0] if j < len(self.t) else "EOF"

    def take(self, *kinds):
        if self.k() not in kinds:
            raise Reject(f"{self.t[self.i]} not in {kinds}")
        self.i += 1
        return self.t[self.i - 1][1]

    def unit_spec(self):
        if self.k() == "EOF":
            return ("empty",)
        r = self.shift_spec(("EOF",))
        self.take("EOF")
        return r

    def shift_spec(self, follow):
        a = self.product()
        j = self.i
        if self.k() == "WS" and self.k(1) == "SHIFT_OP":
            self.i += 1
        if self.k() != "SHIFT_OP":
            self.i = j
            return a
        self.i += 1
        if self.k() == "WS":
            self.i += 1
        if self.k() in ("INT", "SIGNED_INT", "FLOAT") and self.k(1) in follow:
            return ("shift", a, self.number())
        start = self.i
        for end in sorted(self.timestamp(start)):
            if self.t[end][0] in follow:
                self.i = end
                return ("shift", a, ("date", "".join(x[1] for x in self.t[start:end])))
        raise Reject("timestamp")

    INTS = ("INT", "SIGNED_INT")

    def timestamp(self, s):
        t = lambda j: self.t[j][0] if j < len(self.t) else "EOF"
        ends = set()
        tzoff = ("HOUR_MINUTE", "INT", "SIGNED_INT")
        if t(s) in ("DATE",) + self.INTS:
            ends.add(s + 1)
            for j in {s + 1} | ({s + 2} if t(s + 1) in ("WS", "T") else set()):
                if t(j) in ("HOUR_MINUTE_SECOND", "HOUR_MINUTE") + self.INTS:
                    j += 1
                    ends.add(j)
                    for q in {j} | ({j + 1} if t(j) == "WS" else set()):
                        ends.add(q)  # WS? (tz)? : the space alone is allowed
                        if t(q) in tzoff + ("TIMEZONE",):
                            ends.add(q + 1)
            for q in {s + 1} | ({s + 2} if t(s + 1) == "WS" else set()):
                if t(q) in ("TIMEZONE", "TZ"):
                    ends.add(q + 1)
        if t(s) in self.INTS:
            if t(s + 1) in tzoff + ("TIMEZONE",):
                ends.add(s + 2)
        if t(s) == "TIMESTAMP":
            for q in {s + 1} | ({s + 2} if t(s + 1) == "WS" else set()):
                ends.add(q)
                if t(q) in tzoff + ("TIMEZONE",):
                    ends.add(q + 1)
        return ends

    def product(self):
        a = self.power()
        while True:
            k = self.k()
            if k == "MULTIPLY":
                self.i += 1
                a = ("mul", a, self.power())
            elif k == "DIVIDE":
                self.i += 1
                a = ("div", a, self.power())
            elif k == "WS":
                j = self.i
                while self.k() == "WS":
                    self.i += 1
                if self.k() in self.POWER:
                    a = ("mul", a, self.power())
                else:
                    self.i = j
                    return a
            elif k in self.POWER:
                a = ("mul", a, self.power())
            else:
                return a

    POWER = ("ID", "OPEN_PAREN", "INT", "SIGNED_INT", "FLOAT", "LOG")

    def power(self):
        a = self.logarithm()
        k = self.k()
        if k in self.INTS and self.k(1) not in ("RAISE", "UNICODE_EXPONENT"):
            # (An integer which is itself raised can only be another factor.)
            return ("pow", a, to_int(self.take(*self.INTS)))
        if k == "RAISE":
            self.i += 1
            return ("pow", a, to_int(self.take(*self.INTS)))
        if k == "UNICODE_EXPONENT":
            return ("pow", a, sup_int(self.take("UNICODE_EXPONENT")))
        return a

    def logarithm(self):
        if self.k() == "LOG":
            fn = self.take("LOG").split("(")[0].strip()
            a = self.shift_spec(("CLOSE_PAREN",))
            self.take("CLOSE_PAREN")
            return ("log", fn, a)
        if self.k() == "ID":
            return ("id", self.take("ID"))
        if self.k() == "OPEN_PAREN":
            self.i += 1
            a = self.shift_spec(("CLOSE_PAREN",))
            self.take("CLOSE_PAREN")
            return a
        return self.number()

    def number(self):
        k = self.k()
        text = self.take("INT", "SIGNED_INT", "FLOAT")
        return ("num", to_dec(text) if k == "FLOAT" else to_int(text), text)


def parse(text):
    """The tree of `text`, or Reject.  MayReject if a literal is too large."""
    return P(lex(text.strip())).unit_spec()
