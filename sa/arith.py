"""Integer index expressions in normal form. A term of the data-flow engine becomes a polynomial with
integer coefficients over symbols that stand for natural numbers; a case of the analysis gives its
symbols as sums of slack variables (t < T is T = t + 1 + v), so comparisons, truncated divisions,
minima and maxima are decided by the signs of coefficients. What cannot be decided stays unknown."""
from collections import defaultdict
from .core import *
from .spec import Spec
from .val import last

class Poly:
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = {k: v for k, v in m.items() if v}

    def __add__(self, o):
        m = defaultdict(int, self.m)
        for k, v in o.m.items():
            m[k] += v
        return Poly(m)

    def __neg__(self):
        return Poly({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        m = defaultdict(int)
        for k, v in self.m.items():
            for l, w in o.m.items():
                m[tuple(sorted(k + l))] += v * w
        return Poly(m)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.m == o.m

    def __hash__(self):
        return hash(frozenset(self.m.items()))

    def __repr__(self):
        return " + ".join((f"{v}*" if v != 1 or not k else "") + ("*".join(k) if k else ("" if v == 1 and k else "")) if k else str(v) for k, v in sorted(self.m.items())) or "0"

    @property
    def const(self):
        return self.m.get((), 0) if not [k for k in self.m if k] else None

    def pos(self):      # > 0 for every value of the symbols
        return all(v >= 0 for v in self.m.values()) and self.m.get((), 0) > 0

    def nonneg(self):
        return all(v >= 0 for v in self.m.values())


def N(v):
    return Poly({(): v})


def sym(*names):
    r = [Poly({(n,): 1}) for n in names]
    return r if len(r) > 1 else r[0]


def less(a, b):
    """a < b: True, False or None."""
    d = b - a
    if d.pos():
        return True
    if (-d).nonneg():
        return False
    return None


def divmod_(a, b):
    """(quotient, remainder) of natural a by b, or None."""
    if not b.pos():
        return None
    if b.const is not None:
        c = b.const
        q = Poly({k: v // c for k, v in a.m.items()})
        r = a - q * b
        return (q, r) if r.nonneg() and less(r, b) else None
    # the coefficient of a variable that is linear in the divisor gives the quotient up to a constant
    for (x,) in [k for k in b.m if len(k) == 1 and b.m[k] == 1]:
        if any(x in k for k in b.m if k != (x,)):
            continue
        q, r = N(0), a
        for _ in range(6):
            co = Poly({tuple(y for i, y in enumerate(k) if i != k.index(x)): v for k, v in r.m.items() if x in k})
            if not co.m:
                break
            q, r = q + co, r - co * b
        for d in (0, 1, -1, 2, -2):
            q2, r2 = q - N(d), r + N(d) * b
            if r2.nonneg() and less(r2, b):
                return q2, r2
    return None


class Arith:
    def __init__(self, atom):
        self.atom = atom      # term -> Poly or None

    def poly(self, t):
        r = self.atom(t)
        if r is not None:
            return r
        if t.k == "phi":
            rs = {self.poly(x) for x in t.a if x.k not in ("never", "E", "none")}
            return rs.pop() if len(rs) == 1 else None
        if t.k == "c":
            v = t.a[0]
            if isinstance(v, bool):
                return N(int(v))
            return N(v) if isinstance(v, int) else None
        if t.k == "sum":
            tot = N(0)
            for coef, fs in t.a[0]:
                p = N(coef)
                for f in fs:
                    q = self.poly(f)
                    if q is None:
                        return None
                    p = p * q
                tot = tot + p
            return tot
        if t.k == "un" and t.a[0] == "Not":
            v = self.truth(t.a[1])
            return None if v is None else N(int(not v))
        if t.k in ("op", "call"):
            name = last(str(t.a[0])) if t.k == "call" else t.a[0]
            args = t.a[2:] if t.k == "call" else t.a[1:]
            if name in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "eq", "ne", "lt", "le", "gt", "ge"):
                v = self.truth(t)
                return None if v is None else N(int(v))
            if name in ("from", "into", "clone", "try_from") and len(args) == 1:
                return self.poly(args[0])
            if len(args) != 2:
                return None
            a, b = self.poly(args[0]), self.poly(args[1])
            if a is None or b is None:
                return None
            if name in ("Add", "add", "wrapping_add", "saturating_add", "checked_add"):
                return a + b
            if name in ("Mul", "mul", "wrapping_mul", "saturating_mul", "checked_mul"):
                return a * b
            if name in ("Sub", "sub", "wrapping_sub", "saturating_sub", "checked_sub"):
                d = a - b
                if name == "saturating_sub":
                    return d if d.nonneg() else (N(0) if (-d).nonneg() else None)
                return d
            if name in ("min", "max"):
                if (b - a).nonneg():
                    return a if name == "min" else b
                if (a - b).nonneg():
                    return b if name == "min" else a
                return None
            if name in ("Div", "div", "checked_div", "div_euclid", "Rem", "rem", "checked_rem", "rem_euclid", "div_ceil"):
                if name == "div_ceil":
                    a = a + b - N(1)
                qr = divmod_(a, b)
                if qr is None:
                    return None
                return qr[1] if "em" in name.lower() and "div" not in name.lower() else qr[0]
        return None

    def truth(self, t):
        if t.k == "c" and isinstance(t.a[0], (bool, int)):
            return bool(t.a[0])
        if t.k == "un" and t.a[0] == "Not":
            v = self.truth(t.a[1])
            return None if v is None else not v
        if t.k == "phi":
            vs = {self.truth(x) for x in t.a}
            return vs.pop() if len(vs) == 1 else None
        if t.k in ("op", "call"):
            name = last(str(t.a[0])).capitalize() if t.k == "call" else t.a[0]
            args = t.a[2:] if t.k == "call" else t.a[1:]
            if name in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") and len(args) == 2:
                a, b = self.poly(args[0]), self.poly(args[1])
                if a is None or b is None:
                    return None
                if name in ("Eq", "Ne"):
                    r = True if a == b else (False if less(a, b) or less(b, a) else None)
                    return r if r is None or name == "Eq" else not r
                if name == "Lt":
                    return less(a, b)
                if name == "Ge":
                    r = less(a, b)
                    return None if r is None else not r
                if name == "Gt":
                    return less(b, a)
                r = less(b, a)
                return None if r is None else not r
            if name in ("BitAnd", "BitOr") and len(args) == 2:
                vs = [self.truth(x) for x in args]
                if name == "BitAnd":
                    return False if False in vs else (True if vs == [True, True] else None)
                return True if True in vs else (False if vs == [False, False] else None)
        return None


class ArithSpec(Spec):
    """Specialising evaluation under a case of index values."""

    def __init__(self, P, atom, opaque=()):
        super().__init__(P, opaque)
        self.ar = Arith(atom)

    def const(self, y):
        v = super().const(y)
        if v is None:
            r = self.ar.truth(y) if y.k in ("op", "un", "call") else None
            if r is not None:
                return int(r)
            if y.k in ("p", "f", "sum", "op", "call"):
                p = self.ar.poly(y)
                if p is not None and p.const is not None:
                    return p.const
        return v
