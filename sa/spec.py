"""Specialising evaluation: the term of a call for *given* argument terms, where branches that the
arguments (or an assumed enum variant of one of them) rule out are pruned from the control-flow graph.
Still one abstract interpretation of the MIR - no path enumeration, no solver: a switch is pruned only
when its scrutinee normalises to a known variant or constant; otherwise both sides are kept."""
import re
from .facts import Body, callee_name
from .val import *  # noqa
from .val import last
from . import val

DEFINITE = {"agg", "tup", "arr", "clo", "sum", "coll", "range", "fn", "slice", "len"}


def copy_body(b, path):
    n = Body.__new__(Body)
    for s in Body.__slots__:
        if hasattr(b, s):
            setattr(n, s, getattr(b, s))
    n.path = path
    n._defs = n._succ = n._pred = n._dom = n._pdom = n._reach = None
    return n


NEXT = {"next", "next_back", "recv", "poll_next", "try_next", "poll_recv", "next_if", "try_recv", "pop_front", "pop", "poll_next_unpin", "join_next"}


class Spec(Engine):
    MAXDEPTH = 14

    def __init__(self, P, opaque=(), assume=None):
        super().__init__(P, opaque)
        self.assume = dict(assume or {})
        self.memo = {}
        self.stack = []
        self.n = 0
        self.unknown = {}     # scrutinee terms of unknown variant -> type
        self.binds = {}
        self.recursive = set()

    # ---- parameters are the given terms
    def param(self, b, i):
        bd = self.binds.get(b.path)
        if bd is not None:
            return bd[i - 1] if i - 1 < len(bd) else mk("undef", b.path, i)
        return super().param(b, i)

    def local(self, b, local, blk, pos, proj=()):
        bd = self.binds.get(b.path)
        if bd is not None and local == 1 and proj and bd and any(x.k == "clo" for x in alts(bd[0])):
            for j, x in enumerate(proj):
                if x == "*":
                    continue
                if x[0] == "f" and len(x) > 3 and str(x[3]).startswith("{env}"):
                    ts = [y.a[2 + x[1]] for y in alts(bd[0]) if y.k == "clo" and 2 + x[1] < len(y.a)]
                    if ts:
                        return self.project(b, phi(ts), proj[j + 1:], blk, pos)
                break
        return super().local(b, local, blk, pos, proj)

    # ---- calls
    def call_ret(self, path, a):
        return self.spec(path, a)

    def await_(self, t):
        if t.k == "phi":
            return phi([self.await_(x) for x in t.a])
        if t.k == "clo":
            return self.spec(t.a[0], [t])
        return t

    def apply_bound(self, cl, a, b, blk):
        if cl.k == "clo" and cl.a[0] in self.P.bodies:
            return self.spec(cl.a[0], [cl] + list(a))
        return super().apply_bound(cl, a, b, blk)

    def spec(self, path, args):
        key = (path, tuple(args))
        r = self.memo.get(key)
        if r is not None:
            return r
        if path in self.stack and not self._shrinks(path, args) or len(self.stack) > self.MAXDEPTH:
            self.recursive.add(path)
            return mk("call", path, "", *args)
        self.stack.append(path)
        try:
            t = self._spec(path, args)
        finally:
            self.stack.pop()
        self.memo[key] = t
        return t

    def _shrinks(self, path, args):
        return False

    def _spec(self, path, args):
        orig = self.P.bodies[path]
        self.n += 1
        ver = 0
        nb = copy_body(orig, f"{path}~{self.n}")
        self.binds[nb.path] = list(args)
        succ = [nb._term_succ(i) for i in range(len(nb.blocks))]
        done, firsts = set(), set()
        while True:
            todo = None
            for x in self._rpo(succ):
                t = nb.blocks[x][1]
                if t[0] == "switch" and x not in done:
                    todo = x
                    break
            nb._succ = succ
            if todo is None:
                # iterators that are asked only once, over something known not to be empty
                todo = next((x for x in self._rpo(succ) if x not in firsts and nb.blocks[x][1][0] == "switch" and len(succ[x]) > 1 and not self._cyclic(succ, x) and self.asked(nb, x)), None)
                if todo is None:
                    break
                firsts.add(todo)
                t = nb.blocks[todo][1]
                kept = [dict((v, y) for v, y in t[2]).get(1, t[3])]
            else:
                done.add(todo)
                t = nb.blocks[todo][1]
                kept = self.prune(nb, todo, t)
            if kept is not None and set(kept) != set(succ[todo]):
                succ = list(succ)
                succ[todo] = kept
                ver += 1
                nb = copy_body(orig, f"{path}~{self.n}.{ver}")
                nb._succ = succ
                self.binds[nb.path] = list(args)
        nb._succ = succ
        self.finished(nb)
        ts = [self.local(nb, 0, r, len(nb.blocks[r][0]), []) for r in nb.returns()]
        t = phi(ts)
        return t if t.size < self.MAXSIZE else mk("big", path, 0)

    def _cyclic(self, succ, x):
        seen, st = set(), list(succ[x])
        while st:
            y = st.pop()
            if y == x:
                return True
            if y not in seen:
                seen.add(y)
                st.extend(succ[y])
        return False

    def asked(self, nb, blk):
        """The switch is on what next() returned, for an iterator over something that is known to have an element."""
        o = nb.blocks[blk][1][1]
        if o[0] not in ("c", "m") or o[1][1]:
            return False
        for d in self.rdefs(nb, o[1][0], blk, len(nb.blocks[blk][0])):
            if d == "entry" or d[3][0] != "rv" or d[3][1][0] != "discr":
                return False
            for q in self.rdefs(nb, d[3][1][1][0], d[0], d[1]):
                if q == "entry" or q[3][0] != "call" or last(callee_name(nb.blocks[q[0]][1]) or "") not in NEXT:
                    return False
                if not self.nonempty(self.arg(nb, q[0], nb.blocks[q[0]][1], 0)):
                    return False
        return True

    def nonempty(self, x):
        """Hook: the collection is known to have an element."""
        return False

    def finished(self, nb):
        """Hook: the specialised body whose returns are about to be evaluated."""

    def _rpo(self, succ):
        order, seen = [], {0}
        st = [(0, iter(succ[0]))]
        while st:
            x, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succ[s])))
                    break
            else:
                order.append(x)
                st.pop()
        order.reverse()
        return order

    def prune(self, b, blk, t):
        vals = self.switch_values(b, blk, t)
        if vals is None:
            return None
        listed = dict((v, x) for v, x in t[2])
        out = []
        for v in vals:
            x = listed.get(v, t[3])
            if x not in out:
                out.append(x)
        return out

    def switch_values(self, b, blk, t):
        o = t[1]
        # find the discriminant read to learn the enum type
        if o[0] in ("c", "m") and not o[1][1]:
            for d in self.rdefs(b, o[1][0], blk, len(b.blocks[blk][0])):
                if d == "entry" or d[3][0] != "rv" or d[3][1][0] != "discr":
                    break
                rv = d[3][1]
                if not rv[1][1] and any(q != "entry" and q[3][0] == "call" and last(callee_name(b.blocks[q[0]][1]) or "") in NEXT for q in self.rdefs(b, rv[1][0], d[0], d[1])):
                    return None  # an iterator may always be exhausted
                x = self.place(b, rv[1], d[0], d[1])
                ty = self.P.ty_s(rv[2]) if len(rv) > 2 else ""
                vs = self.discr(x, ty)
                if vs is None:
                    self.note(x, ty)
                return sorted(vs) if vs else None
        x = self.operand(b, o, blk, len(b.blocks[blk][0]))
        vs = set()
        for y in alts(x):
            v = self.const(y)
            if v is None:
                return None
            vs.add(v)
        return sorted(vs) if vs else None

    def present(self, x, nm):
        base = "core::option::Option" if "option::Option" in nm else "core::result::Result"
        want = {1} if base.endswith("Option") else {0}
        return all(self.discr1(y, base) == want for y in alts(x)) and bool(alts(x))

    def absent(self, x, nm):
        base = "core::option::Option" if "option::Option" in nm else "core::result::Result"
        want = {0} if base.endswith("Option") else {1}
        return all(self.discr1(y, base) == want for y in alts(x)) and bool(alts(x))

    def note(self, x, ty):
        for y in alts(x):
            if y.k in ("p", "f", "at", "call", "var", "cap", "err"):
                self.unknown.setdefault(y, ty)

    def const(self, y):
        if y.k == "c":
            v = y.a[0]
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, int):
                return v
            return None
        if y.k == "op" and y.a[0] in ("Eq", "Ne"):
            a, b = y.a[1], y.a[2]
            if a.k == "c" and b.k == "c":
                r = a.a[0] == b.a[0]
                return int(r if y.a[0] == "Eq" else not r)
            if a is b and a.k in ("agg", "c"):
                return int(y.a[0] == "Eq")
        if y.k == "un" and y.a[0] == "Not":
            v = self.const(y.a[1])
            return None if v is None else 1 - v
        return None

    def variant(self, x):
        """Variant name of a term if known."""
        if x.k == "agg":
            return x.a[1]
        if x in self.assume:
            return self.assume[x]
        if x.k == "var" and x.a[0] in self.assume:
            return None
        return None

    def discr(self, x, ty):
        base = ty.split("<", 1)[0].lstrip("&").strip()
        out = set()
        for y in alts(x):
            if y.k == "never":
                continue
            v = self.discr1(y, base)
            if v is None:
                return None
            out |= v
        return out

    def ty(self, t):
        """Type string of a term if known."""
        if t.k == "p":
            b = self.P.bodies.get(t.a[0])
            return self.P.ty_s(b.ty(t.a[1])) if b and t.a[1] < len(b.locals) else ""
        if t.k == "call":
            b = self.P.bodies.get(t.a[0])
            return self.P.ty_s(b.ty(0)) if b else ""
        if t.k == "f":
            own = t.a[2]
            vn = None
            base = t.a[0]
            if base.k == "var":
                vn, base = base.a[1], base.a[0]
            if not own:
                own = re.sub(r"^&('\S+ )?(mut )?", "", self.ty(base)).split("<")[0]
            own, _, v2 = str(own).partition("/")
            ad = self.P.adts.get(own.split("<")[0])
            if ad is None and "::" in own:
                o, _, v2 = own.rpartition("::")
                ad = self.P.adts.get(o)
            if ad:
                for v in ad["variants"]:
                    if len(ad["variants"]) == 1 or v["name"] in (vn, v2):
                        for n, ty in v["fields"]:
                            if n == t.a[1]:
                                return self.P.ty_s(ty)
        return ""

    def discr1(self, y, base):
        if base.endswith(("option::Option", "result::Result")):
            ty = self.ty(y)
            if ty and base.rsplit("::", 1)[1] + "<" not in ty:
                return {1} if base.endswith("Option") else {0}
        if base.endswith("option::Option"):
            if y.k == "none":
                return {0}
            if y.k in DEFINITE or y.k == "c" or self.variant(y) == "Some":
                return {1}
            if self.variant(y) == "None":
                return {0}
            return None
        if base.endswith(("result::Result", "control_flow::ControlFlow")):
            if y.k == "E":
                return {1}
            if y.k in DEFINITE or y.k in ("c",):
                return {0}
            return None
        if base.endswith("poll::Poll"):
            return {1} if y.k == "none" else {0}
        vn = self.variant(y)
        if vn is None:
            return None
        ad = self.P.adts.get(base)
        if ad is None and y.k == "agg":
            ad = self.P.adts.get(y.a[0])
        if ad is None:
            return None
        for v in ad["variants"]:
            if v["name"] == vn:
                return {v["discr"]}
        return None


# ---- round trips
INVERSE = [  # (outer, inner): outer(inner(x)) is x
    ("from_slice", "as_bytes"), ("deserialize_uuid", "serialize_uuid"),
]
IDENT = {"from_slice", "deserialize_uuid", "serialize_uuid", "parse_url", "from_bytes"}


def rewrite(t, f, memo=None):
    """Bottom-up rewriting with rule f (None: keep)."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    ks = kids(t)
    if ks:
        if t.k == "sum":
            acc = c(0)
            for cf, fs in t.a[0]:
                x = c(cf)
                for g in fs:
                    x = mul(x, rewrite(g, f, memo))
                acc = add(acc, x)
            u = acc
        else:
            nk = [rewrite(x, f, memo) for x in ks]
            u = t if all(x is y for x, y in zip(nk, ks)) else rebuild(t, nk)
    else:
        u = t
    v = f(u)
    r = u if v is None else v
    memo[t] = r
    return r


def eta(P, t):
    """agg T{f: X.f, ...} -> X ; coll(at(X,i), i) -> X."""
    def rule(u):
        if u.k == "agg" and len(u.a) > 3:
            xs = set()
            for n, v in zip(u.a[2], u.a[3:]):
                if v.k == "f" and v.a[1] == n:
                    xs.add(v.a[0])
                else:
                    return None
            if len(xs) == 1:
                x = xs.pop()
                if x.k == "var":
                    return x if x.a[1] == u.a[1] else None
                ad = P.adts.get(u.a[0])
                if ad and ad["kind"] == "struct" and len(ad["variants"][0]["fields"]) == len(u.a) - 3:
                    return x
            return None
        if u.k == "coll" and u.a[0].k == "at" and u.a[0].a[1] is u.a[1] and u.a[1].k == "idx" and u.a[1].a[0] is u.a[0].a[0]:
            return u.a[0].a[0]
        return None
    return rewrite(t, rule)
