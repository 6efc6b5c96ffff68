"""What every check uses: obligations, control-dependence, anchors, evidence, verdicts."""
import json, os, re, time
from .facts import callee, callee_name, program, EngineError, HERE
from .val import *  # noqa
from . import val


class Ctx:
    def __init__(self, pid, opaque=()):
        self.pid = pid
        self.P = program()
        self.V = Engine(self.P, opaque=set(opaque) | OPAQUE)
        self.obs = []      # (key, ok, msg, where)
        self.notes = {}    # measured counts
        self.seen = set()
        self.assume = []
        self.trees = None
        self.gcache = {}
        self.samples = []

    # ---- obligations
    def ob(self, key, ok, msg, where=""):
        self.obs.append((key, bool(ok), msg, where))
        return bool(ok)

    def bad(self, key, msg, where=""):
        self.ob(key, False, msg, where)

    def floor(self, name, n, least=1):
        """An anchor: the construct the rule is about must exist, otherwise nothing was decided."""
        self.notes[name] = n
        self.ob(f"anchor:{name}", n >= least, f"expected at least {least} {name}, found {n}: the construct this property is anchored in is gone")

    def where(self, b, blk=None):
        ln = b.blocks[blk][2] if blk is not None else b.line
        return f"{b.file}:{ln} in {b.path}"

    # ---- finding constructs
    def aggs(self, name, pred=None):
        """Construction sites of local ADT `name` (last path segment[::variant]) in non-generated code."""
        out = []
        nm, _, var = name.partition("/")
        for b in self.P.own:
            for blk, si, st in b.assigns():
                rv = st[2]
                if rv[0] == "agg" and rv[1][0] == "adt" and last(rv[1][1]) == nm and (not var or rv[1][2] == var):
                    if pred and not pred(rv[1][1]):
                        continue
                    out.append((b, blk, si, self.V.rvalue(b, rv, blk, si)))
        self.fns(x[0] for x in out)
        return out

    def fns(self, bodies):
        for b in bodies:
            self.seen.add(b.path)

    def calls(self, pred, bodies=None):
        """Call sites whose callee (declared or resolved path) satisfies pred: [(body, block, term)]"""
        rx = re.compile(pred) if isinstance(pred, str) else None
        out = []
        for b in bodies if bodies is not None else self.P.own:
            for blk, t in b.calls():
                p, r, _ = callee(t)
                if p is None:
                    continue
                if rx.search(p) or (r and rx.search(r)) if rx else (pred(p) or (r and pred(r))):
                    out.append((b, blk, t))
        self.fns(x[0] for x in out)
        return out

    def arg(self, b, blk, i):
        return self.V.arg(b, blk, b.blocks[blk][1], i)

    def tree(self, b):
        """A function with all closures and coroutines written inside it."""
        r = self.V.root(b)
        if self.trees is None:
            self.trees = {}
            for x in self.P.all:
                self.trees.setdefault(self.V.root(x).path, []).append(x)
        return self.trees[r.path]

    def users(self, b):
        """Named functions that call a function or refer to it."""
        r = self.V.root(b)
        out = []
        for x in self.P.own:
            if not x.skip and x.path != r.path and r.path in self.callees(x):
                y = self.V.root(x)
                if y not in out and y is not r:
                    out.append(y)
        return out

    def lift(self, t, depth=4):
        """A term of a helper in terms of its caller, as long as the helper has a single one and is not part of the public interface
        the term's function was entered by."""
        for _ in range(depth):
            m = {}
            for p in {x for x in walk(t) if x.k == "p"}:
                f = self.P.bodies.get(p.a[0])
                if f is None or f.trait:
                    continue
                sites = self.call_sites(f)
                if len(sites) == 1:
                    q, blk, u = sites[0]
                    if p.a[1] - 1 < len(u[2]):
                        m[p] = self.V.arg(q, blk, u, p.a[1] - 1)
            if not m:
                return t
            t = val.subst(t, m)
        return t

    def call_sites(self, f):
        if not hasattr(self, "_sites"):
            self._sites = {}
            for q in self.P.own:
                if q.skip:
                    continue
                for blk, u in q.calls():
                    self._sites.setdefault(callee_name(u), []).append((q, blk, u))
                    r = callee(u)[1] if u else None
                    if r and r != callee_name(u):
                        self._sites.setdefault(r, []).append((q, blk, u))
        return self._sites.get(f.path, [])

    def method(self, trait, name, self_suffix=None):
        out = [b for b in self.P.impl_methods(trait, name) if not b.skip and (self_suffix is None or (b.self_ty or "").endswith(self_suffix))]
        self.fns(out)
        return out

    # ---- call graph
    def callees(self, b):
        """Local bodies reached directly: resolved calls, closures created, functions passed as values,
        and local impls of dynamically dispatched trait methods are not included."""
        out = set()
        for blk, t in b.calls():
            p, r, _ = callee(t)
            for x in (r, p):
                if x in self.P.bodies:
                    out.add(x)
            for a in t[2]:
                if a[0] == "fn":
                    for x in (a[1].get("r"), a[1]["p"]):
                        if x in self.P.bodies:
                            out.add(x)
        for blk, si, st in b.assigns():
            rv = st[2]
            if rv[0] == "agg" and rv[1][0] in ("closure", "coroutine"):
                out.add(rv[1][1])
            if rv[0] == "use" and rv[1][0] == "fn" or rv[0] == "cast" and rv[1][0] == "fn":
                for x in (rv[1][1].get("r"), rv[1][1]["p"]):
                    if x in self.P.bodies:
                        out.add(x)
        return out

    def closure(self, bodies, stop=lambda p: False):
        """All local bodies transitively reachable from these."""
        seen, todo = {}, list(bodies)
        while todo:
            b = todo.pop()
            if b.path in seen:
                continue
            seen[b.path] = b
            for x in self.callees(b):
                if x not in seen and not stop(x):
                    todo.append(self.P.bodies[x])
        return list(seen.values())

    # ---- control dependence
    def guards(self, b, blk):
        """Conditions that hold whenever blk is reached: [(switch block, condition term, sorted values, complement?)].
        values: the discriminant values taken; complement=True: any value but these."""
        key = (b.path, blk)
        if key in self.gcache:
            return self.gcache[key]
        out = []
        for s in b.dominators(blk)[1:]:
            t = b.blocks[s][1]
            if t[0] == "switch":
                tg = {}
                for v, x in t[2]:
                    tg.setdefault(x, []).append(v)
                succ = [x for x in b.succs(s)]
                ok = [x for x in succ if blk == x or blk in b.reach_from(x, stop={s})]
                if len(ok) < len(succ):
                    cond = self.V.operand(b, t[1], s, len(b.blocks[s][0]))
                    listed = [v for v, _ in t[2]]
                    if t[3] in ok and not (set(tg.get(t[3], [])) and False):
                        exc = [v for v, x in t[2] if x not in ok]
                        out.append((s, cond, tuple(exc), True))
                    else:
                        out.append((s, cond, tuple(v for v, x in t[2] if x in ok), False))
            elif t[0] == "assert":
                pass
        self.gcache[key] = out
        return out

    def facts(self, b, blk, depth=3):
        """Guards as terms that are true at blk (booleans normalised; discriminants as ('is', x, values, complement))."""
        out = []
        for s, cnd, vals, comp in self.guards(b, blk):
            if cnd.k == "phi" and depth and vals == (0,):
                # a flag set by constants (`matches!`): what led to the assignment
                d = self.flagged(b, s, comp)
                if d is not None and d != blk:
                    out.extend(self.facts(b, d, depth - 1))
            if cnd.k == "discr":
                out.append(mk("isv", cnd.a[0], vals, comp))
            elif comp and vals == (0,):
                out.append(cnd)
            elif not comp and vals == (1,):
                out.append(cnd)
            elif (not comp and vals == (0,)) or (comp and vals == (1,)):
                out.append(neg(cnd))
            else:
                out.append(mk("eqv", cnd, vals, comp))
        return out

    def flagged(self, b, s, value):
        """The only block that sets the flag tested at s to the value, if it is only ever set by constants."""
        o = b.blocks[s][1][1]
        if o[0] not in "cm" or o[1][1]:
            return None
        got, l = [], o[1][0]
        for _ in range(4):
            ds = [d for d in b.defs().get(l, []) if d != "entry"]
            if len(ds) == 1 and not ds[0][2] and ds[0][3][0] == "rv" and ds[0][3][1][0] == "use" and ds[0][3][1][1][0] in "cm" and not ds[0][3][1][1][1][1]:
                l = ds[0][3][1][1][1][0]
            else:
                break
        for d in ds:
            if d[2] or d[3][0] != "rv" or d[3][1][0] != "use" or d[3][1][1][0] != "k":
                return None
            y = self.V.rhs(b, d, 0)
            if show(y) not in ("0", "1"):
                return None
            if (show(y) == "1") == bool(value):
                got.append(d[0])
        return got[0] if len(got) == 1 else None

    def must_pass(self, b, src, through, dst=None):
        """True if every path from block src to a normal return (or dst) goes through one of the blocks `through`.
        Paths that never return (loops, diverging calls) do not count."""
        dst = set(b.returns() if dst is None else dst)
        through = set(through)
        if src in through:
            return True, None
        seen, st = {src}, [(src, (src,))]
        while st:
            x, path = st.pop()
            if x in dst:
                return False, path
            for s in b.succs(x):
                if s in through or s in seen:
                    continue
                seen.add(s)
                st.append((s, path + (s,)))
        return True, None

    def loops(self, b):
        return self.V.loops(b)

    def err_only(self, b, blk):
        """All values the function can return after entering blk are errors."""
        reach = b.reach_from(blk)
        ds = [d for d in b.defs().get(0, []) if d[0] in reach and not d[2]]
        if not ds:
            return False
        for d in ds:
            t = self.V.rhs(b, d, 0)
            if not all(x.k in ("E", "err", "never") for x in alts(t)):
                return False
        # no return reachable without such an assignment
        ok, _ = self.must_pass(b, blk, [d[0] for d in ds])
        return ok

    def frames(self, b, t, depth=3):
        """(root function, chain, term) for the term in its frame and in all calling frames."""
        for ch, u in self.V.contexts(t, depth):
            yield (self.V.root(ch[-1][0]) if ch else self.V.root(b)), ch, u


OPAQUE = {
    # public API accessors whose result is a value of its own
    "crate::stage::DistributedTaskContext::from_ctx",
}


def strip_calls(t, names):
    """Peel calls whose last name is in `names` (single interesting argument: the first)."""
    while t.k == "call" and last(t.a[0]) in names and len(t.a) > 2:
        t = t.a[2]
    return t


def fbase(t, names):
    """If t is X.<name> with name in names: X."""
    if t.k == "f" and t.a[1] in names:
        return t.a[0]
    return None


def bases(t, names):
    """Set of X over the alternatives of t, or None if some alternative is not X.<name>."""
    out = set()
    for x in alts(t):
        y = fbase(x, names)
        if y is None:
            return None
        out.add(y)
    return out


def aggf(t, name):
    """Field of an aggregate term."""
    return field(t, name)


# ---- iteration
ADAPT = re.compile(r"(^|::)(skip|take|step_by|rev|chain|cycle|filter|dedup|skip_while|take_while|windows|chunks|sort\w*)$")


def each(ctx, b, blk):
    """If blk runs exactly once per element of a collection: that collection (term)."""
    V = ctx.V
    i = V.push_idx(b, blk)
    if i is not None:
        return i.a[0] if i.k == "idx" and not leaves_early(ctx, b, blk) else None
    k = counter_loop(ctx, b, blk, True)
    if k is not None:
        return k[0] if not [e for e in leaves_early(ctx, b, blk) if e[0] != k[1]] else None
    if any(blk in s for s in V.loops(b).values()):
        return None
    if b.kind == "Closure" and b.argc > 1:
        ok, _ = ctx.must_pass(b, 0, [blk])
        if not ok and not ctx.must_pass(b, 0, {blk} | fail_blocks(ctx, b))[0]:
            return None
        for bb, b2, t, ai in V.closure_use(b.path):
            nm = callee_name(t) or ""
            if not ok and not last(nm).startswith("try_"):
                continue
            if last(nm) in ("map", "for_each", "try_for_each", "filter_map", "flat_map", "then", "and_then", "fold", "try_fold") and ai > 0:
                return V.arg(bb, b2, t, 0)
    return None


def leaves_early(ctx, b, blk):
    """Edges that leave the innermost loop around blk without the iterator being exhausted and not because of an error."""
    lp = [(h, s) for h, s in ctx.V.loops(b).items() if blk in s]
    if not lp:
        return []
    h, body = min(lp, key=lambda x: len(x[1]))
    out = []
    for x in body:
        for s in b.succs(x):
            if s in body:
                continue
            t = b.blocks[x][1]
            if t[0] == "switch":
                cnd = ctx.V.operand(b, t[1], x, len(b.blocks[x][0]))
                nx = False
                # the switch on what next() returned
                if t[1][0] in "cm":
                    for d in ctx.V.rdefs(b, t[1][1][0], x, len(b.blocks[x][0])):
                        if d != "entry" and d[3][0] == "rv" and d[3][1][0] == "discr":
                            nx = nx or any(q != "entry" and q[3][0] == "call" and last(callee_name(b.blocks[q[0]][1]) or "") in NEXTS for q in ctx.V.rdefs(b, d[3][1][1][0], d[0], d[1]))
                if nx or counted(cnd) and b.dominates(x, blk):
                    continue
            if any(r in b.reach_from(s) for r in b.returns()) and not ctx.err_only(b, s):
                out.append((x, s))
    return out


def counted(cnd):
    """A loop condition that compares a counter with the length of a collection."""
    return all(x.k == "op" and x.a[0] in ("Lt", "Le", "Ge", "Gt", "Ne", "Eq") and any(z.k == "len" for z in x.a[1:] if isinstance(z, T)) for x in alts(cnd))


def counter_loop(ctx, b, blk, test=False):
    """If blk runs once per round of `while i < xs.len() { .. i += 1 }` with i starting at 0: xs (or a range)."""
    lp = [(h, s) for h, s in ctx.V.loops(b).items() if blk in s]
    if not lp:
        return None
    h, body = min(lp, key=lambda x: len(x[1]))
    for x in body:
        t = b.blocks[x][1]
        if t[0] != "switch" or all(s in body for s in b.succs(x)) or not b.dominates(x, blk):
            continue
        cnd = ctx.V.operand(b, t[1], x, len(b.blocks[x][0]))
        al = list(alts(cnd))
        if len(al) != 2 or not all(z.k == "op" and z.a[0] in ("Lt", "Ne") for z in al) or al[0].a[2] is not al[1].a[2]:
            continue
        l = {z.a[1] for z in al}
        if any(z is c(0) for z in l) and any(z.k == "ctr" and z.a[0] is c(1) or z.k == "ctr" and z.a[0] == 1 for z in l):
            # the round passes blk before it starts over
            seen, st, ok = set(), [s for s in b.succs(x) if s in body], True
            while st:
                y = st.pop()
                if y == blk or y in seen or y not in body:
                    continue
                if y == h:
                    ok = False
                seen.add(y)
                st.extend(b.succs(y))
            if ok:
                n = al[0].a[2]
                k = n.a[0] if n.k == "len" else mk("range", c(0), n)
                return (k, x) if test else k
    return None


NEXTS = {"next", "next_back", "recv", "poll_next", "try_next", "poll_recv", "next_if", "try_recv", "pop_front", "pop", "poll_next_unpin", "join_next"}


# ---- what happens to a result
def o_local(o):
    return o[1][0] if o[0] in ("c", "m") else None


def ops(rv):
    """Operands of an rvalue."""
    k = rv[0]
    if k == "use" or k == "cast":
        return [rv[1]]
    if k == "agg":
        return rv[2]
    if k in ("ref", "refm", "discr", "len"):
        return [("c", rv[1])]
    return [x for x in rv[1:] if isinstance(x, (list, tuple)) and x and x[0] in ("c", "m")]


def flow_locals(b, dst):
    """Locals that may hold the value of `dst` or a part or wrapper of it."""
    out = {dst}
    ch = True
    while ch:
        ch = False
        for x, si, st in b.assigns():
            if st[1][0] not in out and st[1][0] != 0 and st[2][0] != "discr" and any(o_local(o) in out for o in ops(st[2])):
                out.add(st[1][0])
                ch = True
        for x, t in b.calls():
            l = last(callee_name(t) or "")
            if t[3][0] not in out and t[3][0] != 0 and l in ("branch", "from_residual", "map_err", "into", "from", "clone", "deref", "as_ref") and any(o_local(o) in out for o in t[2]):
                out.add(t[3][0])
                ch = True
    return out


def outcome(b, blk, aliases):
    """Targets of the first switch on the discriminant of the Result: (ok target, err target)."""
    dis = {}
    for x, si, st in b.assigns():
        if st[2][0] == "discr" and st[2][1][0] in aliases and not st[2][1][1]:
            dis[st[1][0]] = x
    for x in sorted(b.reach_from(blk)):
        t = b.blocks[x][1]
        if t[0] == "switch" and o_local(t[1]) in dis:
            m = dict((v, tg) for v, tg in t[2])
            return m.get(0, t[3]), m.get(1, t[3])
    return None, None


def escapes(b, src, through, front):
    if src in through:
        return False
    seen, st = {src}, [src]
    while st:
        x = st.pop()
        if x in front:
            return True
        for s in b.succs(x):
            if s not in through and s not in seen:
                seen.add(s)
                st.append(s)
    return False


# ---- paths
def fail_blocks(ctx, b):
    """Blocks that make the function's result an error (or another value that means failure)."""
    key = ("fails", b.path)
    if key not in ctx.gcache:
        out = set()
        for d in b.defs().get(0, []):
            if not d[2]:
                t = ctx.V.rhs(b, d, 0)
                if all(x.k in ("E", "err", "never") for x in alts(t)):
                    out.add(d[0])
        ctx.gcache[key] = out
    return ctx.gcache[key]


def always(ctx, b, blks, dst=None):
    """Every path from the entry to a successful return (or to dst) passes one of the blocks."""
    blks = {blks} if isinstance(blks, int) else set(blks)
    fails = {x for x in fail_blocks(ctx, b)} if dst is None else set()
    ok, _ = ctx.must_pass(b, 0, blks | fails, dst)
    return ok


def influx(ctx, b, local, limit=400):
    """Flow-insensitive backward slice: every call site whose result or effect may end up in the local,
    through moves, references, mutating calls (receiver by reference), captures, and results of local functions.
    Returns {(body path, block)}."""
    P, V = ctx.P, ctx.V
    seen, sites = set(), set()
    todo = [(b.path, local)]
    while todo and len(seen) < limit:
        bp, l = todo.pop()
        if (bp, l) in seen:
            continue
        seen.add((bp, l))
        x = P.bodies[bp]
        locs = {l}
        for blk, si, st in x.assigns():
            if st[1][0] == l:
                if st[2][0] == "agg" and st[2][1][0] in ("closure", "coroutine") and st[2][1][1] in P.bodies:
                    todo.append((st[2][1][1], 0))
                for o in ops(st[2]):
                    if o_local(o) is not None:
                        q = o[1]
                        if q[0] == 1 and x.kind == "Closure" and any(z != "*" and z[0] == "f" and len(z) > 3 and str(z[3]).startswith("{env}") for z in q[1]):
                            z = next(z for z in q[1] if z != "*")
                            for pb, blk2, si2, rv in creations(ctx, bp):
                                o2 = rv[2][z[1]] if z[1] < len(rv[2]) else None
                                if o2 and o_local(o2) is not None:
                                    todo.append((pb.path, o_local(o2)))
                        else:
                            todo.append((bp, o_local(o)))
            # references to l: mutations through them
            if st[2][0] in ("refm",) and st[2][1][0] == l and not st[1][1]:
                for blk2, t in x.calls():
                    if t[2] and o_local(t[2][0]) == st[1][0]:
                        sites.add((bp, blk2))
                        for o in t[2][1:]:
                            if o_local(o) is not None:
                                todo.append((bp, o_local(o)))
        for blk, t in x.calls():
            if t[3][0] == l:
                sites.add((bp, blk))
                nm = callee_name(t)
                for o in t[2]:
                    if o_local(o) is not None:
                        todo.append((bp, o_local(o)))
                if nm in P.bodies and not P.bodies[nm].skip:
                    todo.append((nm, 0))
    return sites


def creations(ctx, path):
    V = ctx.V
    V.capture(path, "", 0) if V.creations is None else None
    return V.creations.get(path, [])


def arms(ctx, b, adt, variant):
    """Blocks entered when a value of the enum is of that variant: [(switch block, target)]."""
    ad = next((a for p, a in ctx.P.adts.items() if p.endswith(adt) and a["kind"] == "enum"), None)
    if ad is None:
        return []
    d = next((v["discr"] for v in ad["variants"] if v["name"] == variant), None)
    tys = {}
    for blk, si, a in b.assigns():
        if a[2][0] == "discr" and not a[1][1] and ad["path"] in ctx.P.ty_s(a[2][2]).split("<")[0].lstrip("&"):
            tys[a[1][0]] = a[2][1]
    out = []
    for i, x in enumerate(b.blocks):
        t = x[1]
        if t[0] == "switch" and t[1][0] in ("m", "c") and t[1][1][0] in tys and not t[1][1][1]:
            vs = dict((v, k) for v, k in t[2])
            if d in vs:
                out.append((i, vs[d]))
            elif len(vs) < len(ad["variants"]) and b.blocks[t[3]][1][0] != "unreach":
                out.append((i, t[3]))
    return out


def moved_to(b, local):
    """Locals that hold the value after moves (and by-value wrapping in structs or closures)."""
    out, ch = {local}, True
    while ch:
        ch = False
        for blk, si, a in b.assigns():
            if a[1][0] in out or a[1][1]:
                continue
            rv = a[2]
            srcs = [rv[1]] if rv[0] == "use" else rv[2] if rv[0] == "agg" else []
            if any(o[0] == "m" and o[1][0] in out and not o[1][1] for o in srcs):
                out.add(a[1][0])
                ch = True
    return out


def released(b, local):
    """Blocks where the value ends its life in this body: drops of a holder, or calls it is moved into."""
    hold = moved_to(b, local)
    out = set()
    for i, x in enumerate(b.blocks):
        t = x[1]
        if t[0] in ("drop", "cdrop") and len(t) > 1 and isinstance(t[1], list) and t[1][0] in hold and not t[1][1]:
            out.add(i)
        elif t[0] == "call" and any(o[0] == "m" and o[1][0] in hold and not o[1][1] for o in t[2]):
            out.add(i)
    return out


def yields(b):
    return {i for i, x in enumerate(b.blocks) if x[1][0] == "yield"}


# ---- select!
def unselect(y):
    """A term in which the output of a `select!` branch is what that branch's future resolved to."""
    m = {}
    for x in walk(y):
        if x.k == "f" and x.a[0].k == "var" and x.a[0].a[0].k == "call" and x.a[0].a[0].a[0].endswith("poll_fn::poll_fn"):
            fs = select_futures(x.a[0].a[0])
            i = str(x.a[0].a[1]).lstrip("_")
            if fs and i.isdigit() and int(i) < len(fs):
                m[x] = fs[int(i)]
    return subst(y, m) if m else y


def select_futures(call):
    for z in call.a[2:]:
        if z.k == "clo" and "futures" in (z.a[1] or ()):
            t = z.a[2 + list(z.a[1]).index("futures")]
            if t.k == "tup":
                return list(t.a)
    return None


def select_arms(ctx, b):
    """(future, block entered when it is the one that completed) for the branches of every `select!` in a body."""
    out = []
    for s in range(len(b.blocks)):
        t = b.blocks[s][1]
        if t[0] != "switch" or t[1][0] not in "cm":
            continue
        y = ctx.V.operand(b, t[1], s, len(b.blocks[s][0]))
        if y.k == "discr" and y.a[0].k == "call" and y.a[0].a[0].endswith("poll_fn::poll_fn"):
            fs = select_futures(y.a[0])
            d = [d for d in ctx.V.rdefs(b, t[1][1][0], s, len(b.blocks[s][0])) if d != "entry" and d[3][0] == "rv" and d[3][1][0] == "discr"]
            if fs and d and not any(ctx.P.ty_s(x[3][1][2]).startswith("core::task::poll::Poll<") for x in d):
                for v, g in t[2]:
                    if v < len(fs):
                        out.append((fs[v], g))
    return out


def ends_of_stream(ctx, b):
    """(stream, block entered when it has ended): None arms of what a read returned, whether awaited or selected."""
    out = []
    for s in range(len(b.blocks)):
        t = b.blocks[s][1]
        if t[0] != "switch" or t[1][0] not in "cm":
            continue
        for d in ctx.V.rdefs(b, t[1][1][0], s, len(b.blocks[s][0])):
            if d != "entry" and d[3][0] == "rv" and d[3][1][0] == "discr" and ctx.P.ty_s(d[3][1][2]).startswith("core::option::Option<"):
                y = ctx.V.operand(b, t[1], s, len(b.blocks[s][0]))
                z = unselect(y.a[0]) if y.k == "discr" else None
                if z is not None and z.k == "at" and z.a[1].k == "idx" and z.a[1].a[0] is z.a[0]:
                    m = dict((v, g) for v, g in t[2])
                    out.append((z.a[0], m.get(0, t[3]), m.get(1, t[3])))
    return out
