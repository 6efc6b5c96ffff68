"""Specialising a planner rule for one shape of plan: the node a rule looks at, its children and its parent are given a type
and facts (number of partitions, limit, partitioning, distribution required), and the rule is evaluated under them."""
from .core import *
from .spec import Spec

TRAV = {"transform_down", "transform_up", "transform", "apply", "exists", "transform_down_up", "map_children"}
SAME = {"replace_children", "with_new_children", "clone", "as_ref", "deref", "as_any", "borrow"}
CMP = {"Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b, "Lt": lambda a, b: a < b, "Le": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b}
OPTY = ("downcast_ref", "is", "downcast")


class PlanSpec(Spec):
    """shape: role -> facts. Roles: '' the node, 'c' a child of it, 'cc' a grandchild, 'p' its parent. Facts: op (type name, or None for
    one the rule does not know), n (partitions), fetch, part (variant of its output partitioning), req (variant of the distribution
    required from its children), kids (number of children), none (no such node)."""
    MAXSIZE = 8000

    def __init__(self, P, shape, opaque=(), flags=None):
        super().__init__(P, ())
        self.shape = shape
        self.opq = set(opaque)
        self.flags = flags or {}
        self.hits = []
        self.visited = set()
        self.rolec = {}

    # ---- roles
    def role(self, t):
        r = self.rolec.get(t)
        if r is None:
            r = self.rolec[t] = self._role(t)
        return r if r != "?" else None

    def _role(self, t):
        t0 = t
        while True:
            if t.k == "call" and last(t.a[0]) in SAME and len(t.a) > 2:
                t = t.a[2]
            elif t.k == "call" and last(t.a[0]) in OPTY and len(t.a) > 2:
                t = t.a[2]
            elif t.k in ("var", "ref", "box"):
                t = t.a[0]
            else:
                break
        if t is not t0:
            return self.role(t) or ("" if self.role(t) == "" else "?")
        if t.k == "p":
            ty = self.ty(t)
            if "Option<" in ty and "ExecutionPlan" in ty:
                return "p"
            return "" if "ExecutionPlan" in ty else "?"
        if t.k == "at":
            return self.kidsof(t.a[0])
        if t.k == "call" and last(t.a[0]) in ("input", "left", "right", "first", "last", "get", "nth", "child") and len(t.a) > 2:
            r = self.kidsof(t.a[2])
            if r != "?":
                return r
            r = self.role(t.a[2])
            return "?" if r is None else r + "c"
        if t.k == "f" and t.a[1] in ("input", "left", "right"):
            r = self.role(t.a[0])
            return "?" if r is None else r + "c"
        return "?"

    def kidsof(self, x):
        """Role of the elements of a collection."""
        if x.k == "coll" and x.a[0].k == "at":
            x = x.a[0].a[0]
        if x.k == "call" and last(x.a[0]) == "children" and len(x.a) > 2:
            r = self.role(x.a[2])
            return "?" if r is None else r + "c"
        return "?"

    def fact(self, t, name):
        r = self.role(t)
        if r is None:
            return None
        return self.shape.get(r, {}).get(name)

    # ---- evaluation
    def isop(self, y):
        f = self.shape.get(self.role(y.a[2]))
        if f is None or "op" not in f:
            return None
        return str(y.a[1]).split("<")[0].split("::")[-1] == f["op"]

    def dc(self, y):
        return y.k == "call" and last(y.a[0]) in OPTY and len(y.a) > 2 and self.role(y.a[2]) is not None

    def variant(self, x):
        if x.k == "at" and any(z.k == "call" and "distribution" in last(z.a[0]) for z in walk(x.a[0])):
            z = next(z for z in walk(x.a[0]) if z.k == "call" and "distribution" in last(z.a[0]))
            return self.fact(z.a[2], "req")
        if x.k == "call" and last(x.a[0]) in ("partitioning", "output_partitioning") and len(x.a) > 2:
            return self.fact(x.a[2], "part")
        if x.k == "f" and x.a[1] in self.flags:
            return self.flags[x.a[1]]
        return super().variant(x)

    def discr1(self, y, base):
        if base.endswith("option::Option"):
            if self.dc(y):
                v = self.isop(y)
                return None if v is None else {int(v)}
            if y.k == "call" and last(y.a[0]) == "fetch" and len(y.a) > 2:
                v = self.fact(y.a[2], "fetch")
                return None if v is None else {int(v)}
            if y.k == "p" and self.role(y) == "p":
                v = self.shape.get("p", {})
                return {0} if v.get("none") else {1} if v else None
        return super().discr1(y, base)

    def num(self, t):
        if t.k == "c" and isinstance(t.a[0], int):
            return int(t.a[0])
        if t.k == "call" and last(t.a[0]) == "partition_count" and len(t.a) > 2:
            x = t.a[2]
            if x.k == "call" and last(x.a[0]) in ("output_partitioning", "properties") and len(x.a) > 2 or x.k == "f" and x.a[1] == "partitioning":
                x = x.a[2] if x.k == "call" else x.a[0]
            if x.k == "call" and last(x.a[0]) == "properties" and len(x.a) > 2:
                x = x.a[2]
            return self.fact(x, "n")
        if t.k == "len":
            x = t.a[0]
            if x.k == "call" and last(x.a[0]) == "children" and len(x.a) > 2:
                return self.fact(x.a[2], "kids")
        if t.k == "f" and t.a[1] in self.flags and isinstance(self.flags[t.a[1]], int):
            return int(self.flags[t.a[1]])
        return None

    def const(self, y):
        v = super().const(y)
        if v is not None:
            return v
        if self.dc(y) and last(y.a[0]) == "is":
            v = self.isop(y)
            return None if v is None else int(v)
        if y.k == "call" and last(y.a[0]) in ("is_some", "is_none") and len(y.a) > 2:
            vs = self.discr(y.a[2], "core::option::Option")
            if vs is not None and len(vs) == 1:
                return int((1 in vs) == (last(y.a[0]) == "is_some"))
        if y.k == "op" and y.a[0] in CMP:
            a, b = self.num(y.a[1]), self.num(y.a[2])
            if a is not None and b is not None:
                return int(CMP[y.a[0]](a, b))
            a, b = self.variant(y.a[1]), self.variant(y.a[2])
            if isinstance(a, str) and isinstance(b, str) and y.a[0] in ("Eq", "Ne"):
                return int((a == b) == (y.a[0] == "Eq"))
        if y.k == "un" and y.a[0] == "Not":
            v = self.const(y.a[1])
            return None if v is None else 1 - v
        return self.num(y)

    def known(self, t):
        """The one constant all alternatives of the term come to, or None."""
        vs = {self.const(y) for y in alts(t) if y.k not in ("never",)}
        return vs.pop() if len(vs) == 1 else None

    def nonempty(self, x):
        n = None
        for z in walk(x):
            if z.k == "call" and last(z.a[0]) == "children" and len(z.a) > 2:
                n = self.fact(z.a[2], "kids")
        return bool(n)

    def builtin(self, nm, l, a, *r):
        clo = [x for x in a if x.k == "clo" and x.a[0] in self.P.bodies]
        if l in TRAV and clo:
            for x in clo:
                b = self.P.bodies[x.a[0]]
                self.spec(x.a[0], [x] + [mk("p", b.path, i) for i in range(2, b.argc + 1)])
        if nm.startswith("crate::") and nm not in self.P.bodies and a and self.role(a[0]) is not None:
            im = [x for x in self.P.impl_methods(nm.rsplit("::", 1)[0], l) if "dyn" in str(self.P.ty_s(x.ty(1)))]
            if len(im) == 1:
                return self.call_ret(im[0].path, a)
        if l in ("map", "and_then", "filter", "and", "zip", "inspect", "as_ref", "cloned", "copied") and "option::Option" in nm and a and self.absent(a[0], nm):
            return NONE
        if l == "filter" and "option::Option" in nm and len(a) > 1 and a[1].k == "clo":
            k = self.known(self.spec(a[1].a[0], [a[1], a[0]]))
            if k is not None:
                return a[0] if k else NONE
        if l in ("then", "then_some") and "bool" in nm and len(a) > 1:
            k = self.known(a[0])
            if k is not None:
                return NONE if not k else a[1] if l == "then_some" else self.spec(a[1].a[0], [a[1]]) if a[1].k == "clo" else None
        if l in ("is_some_and", "is_none_or") and len(a) > 1 and a[1].k == "clo":
            vs = self.discr(a[0], "core::option::Option")
            if vs == {0}:
                return c(int(l == "is_none_or"))
            if vs == {1}:
                return self.spec(a[1].a[0], [a[1], a[0]])
        if l in ("any", "all") and len(a) > 1 and a[1].k == "clo":
            x = a[0]
            el = x.a[0] if x.k == "coll" else mk("at", x, mk("idx", x))
            v = self.spec(a[1].a[0], [a[1], el])
            k = self.known(v)
            if k is not None and (self.nonempty(x) or k == int(l == "all")):
                return c(k)
            if self.nonempty(x) is False and any(z.k == "call" and last(z.a[0]) == "children" and self.fact(z.a[2], "kids") == 0 for z in walk(x)):
                return c(int(l == "all"))
        return super().builtin(nm, l, a, *r)

    def call_ret(self, path, a):
        if path in self.opq:
            return mk("call", path, "", *a)
        return super().call_ret(path, a)

    def finished(self, nb):
        path = nb.path.split("~")[0]
        for blk, t in nb.calls():
            nm = callee_name(t) or ""
            self.hits.append((path, nm, nb, blk))
            if nm in self.P.bodies and not self.P.bodies[nm].skip or last(nm) in TRAV:
                if (path, blk) not in self.visited:
                    self.visited.add((path, blk))
                    a = self.args(nb, blk, t)
                    if last(nm) in TRAV:
                        self.builtin(nm, last(nm), a, nb, blk, None, None, nm)
                    elif not any(x.k == "big" for x in a):
                        self.call_ret(nm, a)
