"""Observations in a process where nothing has been used before."""
import json
import os
import signal
import struct

from . import base

_server = None


def _send(fd, data):
    data = struct.pack("<I", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _recv(fd):
    def get(n):
        out = b""
        while len(out) < n:
            b = os.read(fd, n - len(out))
            if not b:
                return None
            out += b
        return out
    head = get(4)
    return None if head is None else get(struct.unpack("<I", head)[0])


def warm():
    """Use sympy (not the real code), which is slow when it is used first."""
    import sympy
    from sympy.parsing.sympy_parser import parse_expr
    x, y, v = sympy.Symbol("warm_x"), sympy.Symbol("warm_y"), sympy.Dummy("v")
    for e in (x - y, 2 * x - 3 * x, parse_expr("60") * x / y, parse_expr("2.5E-3") * x - parse_expr("0.5") * y, x ** 2 - x * y, x / y - 3 * y / x):
        sympy.expand(sympy.simplify(e), trig=False)
    for t in (v - 3, sympy.log(v, 10), sympy.log(v - 2, 2), sympy.log(v) - 1):
        [r] = sympy.solve(t - x, v, simplify=False)
        f = sympy.lambdify(x, (r * parse_expr("1000") / parse_expr("0.5")).subs(y, 1))
        f(2.5)


def start(answer):
    """Fork the server; to be called before anything of the real code has been used."""
    global _server
    import pyudunits2, pyudunits2._expr.sympy, pyudunits2._expr.split, pyudunits2._expr.substitute  # noqa
    import pyudunits2._expr.dimensionality, pyudunits2._expr.normaliser, pyudunits2._udunits2_xml_parser  # noqa
    warm()
    a, b = os.pipe()
    c, d = os.pipe()
    pid = os.fork()
    if pid:
        os.close(a)
        os.close(d)
        _server = (b, c)
        return
    os.close(b)
    os.close(c)
    try:
        while True:
            q = _recv(a)
            if q is None:
                os._exit(0)
            r, w = os.pipe()
            child = os.fork()
            if not child:
                os.close(r)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(8)
                try:
                    out = json.dumps(answer(*json.loads(q))).encode()
                except BaseException as e:
                    out = json.dumps({"error": f"{type(e).__name__}: {e}"}).encode()
                _send(w, out)
                os._exit(0)
            os.close(w)
            out = _recv(r)
            os.close(r)
            os.waitpid(child, 0)
            _send(d, out if out is not None else json.dumps({"error": "no answer"}).encode())
    finally:
        os._exit(1)


def ask(*args):
    """The answer in a fresh process, or None where there is none."""
    q, r = _server
    signal.pthread_sigmask(signal.SIG_BLOCK, {signal.SIGALRM})
    try:
        _send(q, json.dumps(args).encode())
        out = _recv(r)
    finally:
        signal.pthread_sigmask(signal.SIG_UNBLOCK, {signal.SIGALRM})
    if out is None:
        return None
    out = json.loads(out)
    return None if isinstance(out, dict) and "error" in out else out
