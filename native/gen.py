"""Generators of spec trees, of their spellings, and of arbitrary strings."""
import re
from decimal import Decimal

IDS = ["m", "s", "K", "kg", "meter", "second", "e", "E", "per_", "lg", "log", "re", "π", "°C", "µm",
       "Ω", "x", "T", "Z", "UTC", "since_", "fromage", "degC", "A_b", "mm", "É", "d", "da", "h"]
DATES = ["1990-01-01", "1990-1-1", "2000-02", "1970-01-01T00:00:00", "1970-01-01T00:00:00Z",
         "1970-01-01 12:30", "1970-01-01 12:30:15.25 UTC", "19900101T190030 +2", "19900101T1900",
         "1990-1-2+5:2:2", "-1990 +2:0:2.9", "1990-01 UTC", "1990-01-01 00:00 +10", "1990 +10"]
SHIFT_WORDS = ["@", "since", "from", "after", "ref"]
TIMEWORDS = ("T", "Z", "UTC", "GMT", "TZ")


def integer(rng, mined=()):
    r = rng.random()
    if mined and r < 0.15:
        return rng.choice(mined)
    if r < 0.75:
        return rng.randrange(0, 10)
    if r < 0.9:
        return rng.randrange(0, 10 ** rng.randrange(1, 8))
    return rng.randrange(0, 10 ** rng.randrange(8, 40))


def int_text(rng, mined=(), signed=True):
    n = str(abs(integer(rng, mined)))
    if rng.random() < 0.1:
        n = "0" * rng.randrange(1, 4) + n
    if signed and rng.random() < 0.3:
        n = rng.choice("+-") + n
    return n


def number(rng, mined=(), small=False):
    if rng.random() < 0.55:
        t = int_text(rng, mined)
        return ("num", int(t), t)
    digits = lambda n: "".join(rng.choice("0123456789") for _ in range(n))
    sign = rng.choice(["", "", "", "-", "+"])
    k = rng.randrange(5)
    nd = rng.choice([1, 2, 3, 6, 17, 30])
    e = rng.choice("eE") + rng.choice(["", "-", "+"]) + str(rng.randrange(0, 30 if rng.random() < .9 else 400))
    if k == 0:
        t = sign + digits(rng.randrange(1, 4)) + "." + digits(nd)
    elif k == 1:
        t = "." + digits(nd)
    elif k == 2:
        t = sign + digits(1) + "."
    elif k == 3:
        t = sign + digits(rng.randrange(1, 5)) + e
    else:
        t = sign + digits(rng.randrange(1, 4)) + "." + digits(nd) + e
    return ("num", Decimal(t), t)


def ident(rng, ids):
    return ("id", rng.choice(ids))


def tree(rng, depth, ids=IDS, mined=(), dates=True, logs=True, top=True):
    """A random tree of the grammar (shift_spec level)."""
    if top and rng.random() < 0.2:
        a = product(rng, depth - 1, ids, mined, dates, logs)
        if dates and rng.random() < 0.4:
            return ("shift", a, ("date", rng.choice(DATES)))
        return ("shift", a, number(rng, mined))
    return product(rng, depth, ids, mined, dates, logs)


def product(rng, depth, ids, mined, dates, logs):
    n = 1 if depth <= 0 else rng.choice([1, 1, 2, 2, 3, 4, 6])
    a = power(rng, depth - 1, ids, mined, dates, logs)
    for _ in range(n - 1):
        a = (rng.choice(["mul", "mul", "div"]), a, power(rng, depth - 1, ids, mined, dates, logs))
    return a


def power(rng, depth, ids, mined, dates, logs):
    b = basic(rng, depth, ids, mined, dates, logs)
    if rng.random() < 0.3:
        return ("pow", b, int(int_text(rng, mined)) if rng.random() < .5 else rng.randrange(-4, 5))
    return b


def basic(rng, depth, ids, mined, dates, logs):
    r = rng.random()
    if depth <= 0 or r < 0.45:
        return ident(rng, ids) if rng.random() < 0.7 else number(rng, mined)
    if logs and r < 0.6:
        return ("log", rng.choice(["lg", "ln", "lb", "log"]), tree(rng, depth - 1, ids, mined, dates, logs))
    return tree(rng, depth - 1, ids, mined, dates, logs)


SUPS = {"-": "⁻", "+": "⁺", **{str(i): c for i, c in enumerate("⁰¹²³⁴⁵⁶⁷⁸⁹")}}


class Renderer:
    """Spell a tree with randomly chosen operators, spacing and exponent notation."""

    def __init__(self, rng, plain=False):
        self.rng, self.out, self.last, self.shifted, self.plain = rng, [], "", False, plain
        self.ok = True

    def put(self, s, kind):
        self.out.append(s)
        self.last = kind

    def text(self, t):
        if t[0] == "empty":
            return ""
        self.shift_spec(t)
        return "".join(self.out)

    def shift_spec(self, t):
        if t[0] != "shift":
            return self.product(t)
        self.product(t[1])
        w = self.rng.choice(SHIFT_WORDS)
        sp = lambda: self.rng.choice(["", " "])
        ref = t[2][2] if t[2][0] == "num" else t[2][1]
        if w == "@":
            pre, post = sp(), sp()
            if t[2][0] == "date":
                pre = post = " "
        else:
            pre = post = " "
        # After an identifier, only a separated shift operator enters the
        # lexical mode in which dates are recognised.
        self.put(pre + w + post + ref, "ref")
        self.shifted = True

    def product(self, t):
        if t[0] in ("mul", "div"):
            self.product(t[1])
            nxt = self.first(t[2])
            if t[0] == "div":
                self.put(self.rng.choice(["/", "/", " / ", "/ ", " /", " per ", " PER "]), "op")
            else:
                self.put(self.rng.choice(self.muls(nxt)), "op")
            self.power(t[2])
        else:
            self.power(t)

    def muls(self, nxt):
        kind, ch = nxt
        o = ["*", "·", " ", "  ", "   "]
        if self.plain:
            return o
        if not self.shifted:
            if self.last == "id":
                if kind != "num" or ch not in "+-":
                    o += ["."] if not (kind == "num" and ch == ".") else []
                if kind != "num":
                    o += ["-"]
            elif kind != "num":
                o += ["-"]
            if self.last == "id" and kind == "(":
                o += [""]
            if self.last == "int" and kind in ("id", "(", "log") and ch not in "eE":
                o += [""]
            if self.last in ("close", "sup", "float") and kind in ("id", "(", "log") and ch not in "eE":
                o += [""]
            if self.last == "ref":
                pass
        return o

    def first(self, t):
        while t[0] == "pow" and t[1][0] not in ("mul", "div", "pow", "shift"):
            t = t[1]
        if t[0] == "id":
            return "id", t[1][0]
        if t[0] == "num":
            return "num", t[2][0]
        if t[0] == "log":
            return "log", "l"
        return "(", "("

    def power(self, t):
        if t[0] != "pow":
            return self.basic(t)
        self.basic(t[1])
        e = t[2]
        s = str(e)
        ws = ["^" + s, "**" + s]
        if e >= 0:
            ws += ["^+" + s]
        if not self.plain:
            ws += ["".join(SUPS[c] for c in s)]
            if self.last in ("id", "close") and not self.shifted and t[1] not in (("id", "e"), ("id", "E")):
                ws += [s, s] + (["+" + s] if e >= 0 else [])
        w = self.rng.choice(ws)
        self.put(w, "sup" if w[0] in SUPS.values() else "exp")

    def basic(self, t):
        if t[0] == "id":
            if self.shifted and t[1] in TIMEWORDS:
                self.ok = False
            self.put(t[1], "id")
        elif t[0] == "num":
            self.put(t[2], "int" if isinstance(t[1], int) else "float")
        elif t[0] == "log":
            sp = lambda: " " * self.rng.choice([0, 0, 1, 2])
            self.put(t[1] + sp() + "(" + sp() + self.rng.choice(["re", "RE"]) + self.rng.choice(["", ":"]) + " " + sp(), "open")
            self.shift_spec(t[2])
            self.put(")", "close")
        else:
            self.put("(", "open")
            self.shift_spec(t)
            self.put(")", "close")


def render(rng, t, plain=False):
    """A spelling of `t`, or None if it has one only in another order.

    (In the lexical mode which follows a shift, T, Z, UTC, GMT and TZ are not
    identifiers.)
    """
    r = Renderer(rng, plain)
    s = r.text(t)
    if not r.ok or len(LOGS.findall(s)) != count_logs(t):
        return None
    return s


LOGS = re.compile(r"(?:log|lg|ln|lb) *\( *(?:RE|re)")


def count_logs(t):
    return (t[0] == "log") + sum(count_logs(x) for x in t[1:] if isinstance(x, tuple))


PIECES = IDS + DATES + ["1", "2", "-1", "+3", "0", "12", "1.5", ".5", "2.", "1e3", "2e-3", "1.e5", "²", "⁻¹", "⁺", "⁻",
                        "⁴²", "^", "**", "*", "·", ".", "-", "/", " / ", " per ", " PER ", " ", "  ", "(", ")", "@", " @ ",
                        " since ", "since", " from ", "ref", "after", "lg(re ", "ln (RE: ", "lb(re", "log(re:", "lg", "%", "'", '"', "\n", "\t",
                        ":", "+", "e5", "E", "T", "Z", "12:30", "1:2:3", "UTC", "é", "×", "−", "\u00a0", "𝔪", "\x00", "{", "{0}", "°", "__", "$", "#", "²³"]


def garbage(rng, extra=()):
    n = rng.choice([1, 2, 2, 3, 4, 5, 6, 8, 12])
    pool = PIECES + list(extra)
    return "".join(rng.choice(pool) for _ in range(n))


def lookalike(rng, s):
    """A character, or all of that kind, becomes one whose code has the same low bits, or which looks alike."""
    if not s:
        return s
    c = rng.choice(s)
    k = ord(c) + rng.choice([0x80, 0x100, 0x10000, 0x20000, 0xFEE0])
    if k > 0x10FFFF or 0xD800 <= k < 0xE000:
        return s
    return s.replace(c, chr(k), rng.choice([1, 1, -1]))


def mutate(rng, s, extra=()):
    for _ in range(rng.choice([1, 1, 2, 3])):
        i = rng.randrange(len(s) + 1)
        k = rng.randrange(4)
        if k == 0:
            s = s[:i] + rng.choice(PIECES + list(extra)) + s[i:]
        elif k == 1:
            s = s[:i] + s[i + 1:]
        elif k == 2:
            s = s[:i] + rng.choice(PIECES) + s[i + 1:]
        else:
            j = rng.randrange(len(s) + 1)
            s = s[:min(i, j)] + s[max(i, j):]
    return s
