"""Joins and replication, decided per kind of join: the planner's rewrite rules are specialised (conditional constant propagation
over MIR) for every combination of join operator, join type, partition mode, null-awareness and broadcast setting. For each
combination the analysis finds whether a broadcast of the build side can be inserted and whether the join is capped at one task;
replication is allowed only for the types that never emit or mark an unmatched build row, and a join that collects its build
side and is not replicated must be capped. A change of the partition mode must repartition both sides on their own keys."""
from ..core import *
from ..spec import Spec

TECHNIQUE = "conditional constant propagation over MIR per join kind (operator x type x mode x flags), with symbolic evaluation of the rewritten children"
NOTE = "Decides every combination of operator, join type, mode, null-awareness and broadcast setting; which operators collect their build side (hash join in CollectLeft mode, nested loop join, cross join) is taken from DataFusion."

SAFE = {"Inner", "Right", "RightSemi", "RightAnti", "RightMark"}
TRAV = {"transform_down", "transform_up", "transform", "apply", "exists", "transform_down_up", "map_children"}


class JoinSpec(Spec):
    """The program specialised for one kind of join as the node under consideration."""
    MAXSIZE = 6000

    def __init__(self, P, sc):
        super().__init__(P, ())
        self.op, self.jt, self.mode, self.na, self.bc = sc
        self.hits = []
        self.visited = set()

    def subj(self, t):
        while t.k == "call" and last(t.a[0]) in ("replace_children", "with_new_children", "clone", "as_ref", "deref") and len(t.a) > 2:
            t = t.a[2]
        return t.k == "p"

    def dc(self, y):
        return y.k == "call" and last(y.a[0]) in ("downcast_ref", "is", "downcast") and len(y.a) > 2 and self.subj(y.a[2])

    def isop(self, y):
        return str(y.a[1]).split("<")[0].split("::")[-1] == self.op

    def variant(self, x):
        if x.k == "f" and x.a[1] in ("mode", "partition_mode") or x.k == "call" and last(x.a[0]) == "partition_mode":
            return self.mode
        if x.k == "f" and x.a[1] == "join_type" or x.k == "call" and last(x.a[0]) == "join_type":
            return self.jt
        return super().variant(x)

    def discr1(self, y, base):
        if base.endswith("option::Option") and self.dc(y):
            return {1} if self.isop(y) else {0}
        return super().discr1(y, base)

    def const(self, y):
        if self.dc(y) and last(y.a[0]) == "is":
            return int(self.isop(y))
        if y.k == "f" and y.a[1] == "null_aware" or y.k == "call" and last(y.a[0]) == "null_aware":
            return int(self.na)
        if y.k == "f" and y.a[1] == "broadcast_joins":
            return int(self.bc)
        if y.k == "op" and y.a[0] in ("Eq", "Ne"):
            a, b = self.variant(y.a[1]), self.variant(y.a[2])
            if a and b:
                return int((a == b) == (y.a[0] == "Eq"))
            for p, q in ((y.a[1], y.a[2]), (y.a[2], y.a[1])):
                if p is c(0) and q.k == "len" and q.a[0].k == "call" and last(q.a[0].a[0]) == "children" and self.subj(q.a[0].a[2]):
                    return int(y.a[0] == "Ne")
        if y.k == "call" and last(y.a[0]) in ("is_some", "is_none") and self.dc(y.a[2]):
            return int(self.isop(y.a[2]) == (last(y.a[0]) == "is_some"))
        return super().const(y)

    def builtin(self, nm, l, a, *r):
        if l in TRAV:
            for x in a:
                if x.k == "clo" and x.a[0] in self.P.bodies:
                    b = self.P.bodies[x.a[0]]
                    self.spec(x.a[0], [x] + [mk("p", b.path, i) for i in range(2, b.argc + 1)])
        return super().builtin(nm, l, a, *r)

    def finished(self, nb):
        path = nb.path.split("~")[0]
        for blk, t in nb.calls():
            nm = callee_name(t) or ""
            self.hits.append((path, nm, nb, blk))
            if nm in self.P.bodies and not self.P.bodies[nm].skip or last(nm) in TRAV:
                if (path, blk) not in self.visited:
                    self.visited.add((path, blk))
                    a = self.args(nb, blk, t)
                    if last(nm) in TRAV:
                        self.builtin(nm, last(nm), a, nb, blk, None, None, nm)
                    elif not any(x.k == "big" for x in a):
                        self.call_ret(nm, a)


def scenarios(P):
    jts = [v["name"] for v in P.adts["datafusion_common::join_type::JoinType"]["variants"]]
    modes = [v["name"] for v in P.adts["datafusion_physical_plan::joins::PartitionMode"]["variants"]]
    for bc in (True, False):
        for jt in jts:
            for m in modes:
                for na in ((False, True) if jt == "LeftAnti" else (False,)):
                    yield ("HashJoinExec", jt, m, na, bc)
            yield ("NestedLoopJoinExec", jt, None, False, bc)
        yield ("CrossJoinExec", None, None, False, bc)


def label(sc):
    op, jt, m, na, bc = sc
    return op.replace("Exec", "") + (f" {jt}" if jt else "") + (f" {m}" if m else "") + (" null-aware" if na else "") + ("" if bc else ", broadcasts off")


def collects(sc):
    return sc[0] in ("NestedLoopJoinExec", "CrossJoinExec") or sc[0] == "HashJoinExec" and sc[2] == "CollectLeft"


def allowed(sc):
    """Replicating the build side to several tasks cannot change the result."""
    op, jt, m, na, bc = sc
    return collects(sc) and (op == "CrossJoinExec" or jt in SAFE) and not na


def is_rule(ctx, b):
    """A function that walks a plan."""
    return any(last(callee_name(t) or "") in TRAV for x in ctx.tree(b) for _, t in x.calls())


def entries(ctx, pred):
    """Functions that walk a plan and, directly or through helpers, contain a call satisfying pred."""
    P, V = ctx.P, ctx.V
    out, seen = {}, set()
    todo = [V.root(b) for b, blk, t in ctx.calls(pred) if not b.skip and not b.file.startswith(("src/codec", "src/execution_plans", "src/test_utils", "src/metrics", "src/stage"))]
    while todo:
        b = todo.pop()
        if b.path in seen:
            continue
        seen.add(b.path)
        if is_rule(ctx, b):
            out[b.path] = b
            continue
        cs = [x for x, _ in P.callers().get(b.path, []) if not x.skip]
        for x in cs:
            todo.append(V.root(x))
    return list(out.values())


def evaluate(ctx, S, b):
    body = b
    r = S.spec(b.path, [mk("p", b.path, i) for i in range(1, b.argc + 1)])
    return r


def annotated(ctx, S, entry):
    """Task counts the planner gives to the node itself: second value of every local call that takes a plan and a count."""
    out = []
    for path, nm, nb, blk in S.hits:
        if path != entry or nm not in ctx.P.bodies:
            continue
        f = ctx.P.bodies[nm]
        tys = [ctx.P.ty_s(f.ty(i)) for i in range(1, f.argc + 1)]
        pi = next((i for i, t in enumerate(tys) if "dyn" in t and "ExecutionPlan" in t), None)
        ti = next((i for i, t in enumerate(tys) if t.endswith("TaskCountAnnotation")), None)
        if pi is None or ti is None:
            continue
        a = S.args(nb, blk, nb.blocks[blk][1])
        if S.subj(a[pi]):
            out.append((a[ti], nb, blk))
    return out


def capped(t):
    for y in alts(t):
        if y.k in ("E", "err", "never"):
            continue
        if not (y.k == "agg" and y.a[1] == "Maximum"):
            return False
        if not all(one(v) for v in alts(y.a[3])):
            return False
    return True


def one(v):
    """At most 1."""
    if v.k == "op" and v.a[0] == "min":
        return any(all(one(y) for y in alts(x)) for x in v.a[1:])
    if v.k == "op" and v.a[0] == "max":
        return all(one(y) for x in v.a[1:] for y in alts(x))
    return v in (c(0), c(1))


def run(ctx):
    P, V = ctx.P, ctx.V
    ins = entries(ctx, r"broadcast::BroadcastExec::(new|try_new)$")
    ins = [b for b in ins if "insert" in b.path or any("Join" in str(ty) for x in ctx.tree(b) for blk, t in x.calls() for ty in downcasts(ctx, x, t))]
    direct = sorted({V.root(b).path for b, blk, t in ctx.calls(r"broadcast::BroadcastExec::(new|try_new)$") if not b.skip and b.file.startswith(("src/distributed_planner", "src/coordinator"))})
    ann = annotators(ctx)
    norm = entries(ctx, r"::(with_partition_mode|swap_inputs)$")
    ctx.floor("rules that insert a broadcast", len(ins))
    ctx.floor("functions that decide task counts of joins", len(ann))
    n = nb_ = ncap = 0
    for sc in scenarios(P):
        lab = label(sc)
        n += 1
        hit = []
        for b in ins:
            S = JoinSpec(P, sc)
            evaluate(ctx, S, b)
            hit += [(x, blk) for p, nm, x, blk in S.hits if re.search(r"broadcast::BroadcastExec::(new|try_new)$", nm)]
        if hit:
            nb_ += 1
            ctx.ob(f"broadcast:{lab}", allowed(sc), f"the build side of a {lab} join is replicated although the join {'may emit or mark unmatched build rows' if collects(sc) else 'does not collect its build side'}", ctx.where(P.bodies[hit[0][0].path.split('~')[0]], hit[0][1]))
        if collects(sc):
            for a in ann:
                S = JoinSpec(P, sc)
                S.spec(a, [mk("p", a, 1)])
                ts = annotated(ctx, S, a)
                w = ctx.where(P.bodies[a], ts[0][2] if ts else None)
                if not ctx.ob(f"count:{lab}", bool(ts), "the task count of a join must be decided", w):
                    continue
                cap = all(capped(t) for t, _, _ in ts)
                ncap += cap
                ctx.ob(f"single:{lab}", cap or bool(hit) and allowed(sc), f"a {lab} join collects its build side in every task and is not replicated, so it must be limited to one task, but its task count can be {show(ts[0][0])[:200]}", w)
        for b in norm:
            S = JoinSpec(P, sc)
            evaluate(ctx, S, b)
            for p, nm, x, blk in S.hits:
                if last(nm) == "with_partition_mode":
                    ctx.ob(f"mode:{lab}", not sc[3], f"a {lab} join must not be split by key: whether its build side holds a null must be known in one place", ctx.where(P.bodies[p], blk))
    ctx.notes["kinds of join evaluated"] = n
    ctx.floor("kinds of join whose build side is replicated", nb_, 5)
    ctx.floor("kinds of join kept in one task", ncap, 5)

    # the side that is replicated is the build side
    for b, blk, t in ctx.calls(r"broadcast::BroadcastExec::(new|try_new)$"):
        if b.skip or V.root(b).path not in {x.path for x in ins}:
            # helpers are looked at where they are called
            if b.skip or V.root(b).path not in direct or "ProducerHead" in b.path:
                continue
        build_side(ctx, b, blk, t)
    # partition mode
    k = 0
    for b, blk, t in ctx.calls(r"::with_partition_mode$|joins::hash_join::.*::try_new$|HashJoinExec::try_new$"):
        if b.skip or not b.file.startswith(("src/distributed_planner", "src/coordinator", "src/worker")):
            continue
        k += 1
        w = ctx.where(b, blk)
        a = [ctx.arg(b, blk, i) for i in range(len(t[2]))]
        m = next((x for x in a if x.k == "agg" and "PartitionMode" in str(x.a[0])), None)
        ctx.ob("mode:kind", m is not None and m.a[1] == "Partitioned", "a join may only be changed to the partitioned mode", w)
        partitioned(ctx, b, blk, w)
    ctx.floor("changes of a join's partition mode", k)


def annotators(ctx):
    """Functions that hand a node and a task count on, having looked at which join (itself or through helpers) the node is."""
    P, V = ctx.P, ctx.V
    cand = [x for x in P.own if not x.skip and x.file.startswith("src/distributed_planner") and any(takes_count(ctx, t) for _, t in x.calls())]
    paths = {x.path for x in cand}
    out = set()
    for x in cand:
        seen, todo, n = set(), [x], 0
        while todo:
            y = todo.pop()
            if y.path in seen or y is not x and (y.path in paths or any(z.path in paths for z in ctx.tree(y))):
                continue
            seen.add(y.path)
            for _, t in y.calls():
                n += sum("Join" in str(ty) for ty in downcasts(ctx, y, t))
                f = P.bodies.get(callee_name(t))
                if f is not None and f.file.startswith("src/distributed_planner"):
                    todo.append(f)
        if n >= 2:
            out.add(x.path)
    return sorted(out)


def downcasts(ctx, b, t):
    nm = last(callee_name(t) or "")
    if nm in ("downcast_ref", "is"):
        j = callee(t)[2] or {}
        return [ctx.P.ty_s(x) for x in j.get("a", []) if isinstance(x, int)]
    return []


def takes_count(ctx, t):
    nm = callee_name(t)
    f = ctx.P.bodies.get(nm)
    return f is not None and any(ctx.P.ty_s(f.ty(i)).endswith("TaskCountAnnotation") for i in range(1, f.argc + 1)) and any("ExecutionPlan" in ctx.P.ty_s(f.ty(i)) for i in range(1, f.argc + 1))


def build_side(ctx, b, blk, t):
    P, V = ctx.P, ctx.V
    w = ctx.where(b, blk)
    sites = influx(ctx, b, o_local(t[2][0]))
    names = {}
    for bp, bk in sites:
        nm = callee_name(P.bodies[bp].blocks[bk][1]) or ""
        names.setdefault(last(nm), []).append((bp, bk))
    side = set()
    for l, ss in names.items():
        if l in ("first", "left"):
            side.add(0)
        if l in ("last", "right"):
            side.add(1)
        if l in ("nth", "get", "index", "swap_remove", "remove"):
            for bp, bk in ss:
                i = V.arg(P.bodies[bp], bk, P.bodies[bp].blocks[bk][1], 1)
                if i.k == "c" and isinstance(i.a[0], int):
                    side.add(i.a[0])
    # constant indexing and slice patterns
    ctx.ob("side:from", side <= {0} and (bool(side) or not names.get("children")), f"the replicated input must be the build side (the first child), taken from child {sorted(side)}", w)
    # where it is put back
    k = 0
    for x, tt in b.calls():
        l = last(callee_name(tt) or "")
        if l == "index_mut" and contains(ctx.arg(b, x, 0), lambda z: z.k == "call" and last(z.a[0]) == "children"):
            k += 1
            i = ctx.arg(b, x, 1)
            ctx.ob("side:to", i is c(0), f"the replicated input must be put back as the build side, got child {show(i)}", ctx.where(b, x))
        if l in ("replace_children", "with_new_children") and len(tt[2]) > 1:
            v = ctx.arg(b, x, 1)
            for z in alts(v):
                z = z if z.k == "arr" else next((q for q in walk(z) if q.k == "arr"), None)
                if z is not None and len(z.a) == 2:
                    k += 1
                    bc = lambda q: q.k == "call" and "BroadcastExec::" in q.a[0] or q.k == "agg" and str(q.a[0]).endswith("BroadcastExec")
                    ctx.ob("side:to", contains(z.a[0], bc) and not contains(z.a[1], bc), "the replicated input must be put back as the build side", ctx.where(b, x))
    ctx.notes["replicated inputs put back"] = ctx.notes.get("replicated inputs put back", 0) + k


def partitioned(ctx, b, blk, w):
    """Both inputs of the changed join are repartitioned on their own keys into the same number of partitions."""
    P, V = ctx.P, ctx.V
    found = 0
    for x, tt in b.calls():
        l = last(callee_name(tt) or "")
        if l not in ("with_new_children", "replace_children", "try_new", "with_children") or "oin" not in (callee_name(tt) or ""):
            continue
        v = next((z for i in range(len(tt[2])) for z in walk(ctx.arg(b, x, i)) if z.k in ("arr", "tup") and len(z.a) == 2 and all(contains(q, is_rep) for q in z.a)), None)
        if v is None:
            continue
        found += 1
        cnt, sides = [], []
        for i, q in enumerate(v.a):
            r = next(z for z in walk(q) if is_rep(z))
            hp = next((z for z in walk(r.a[3]) if z.k == "agg" and z.a[1] == "Hash"), None)
            if not ctx.ob(f"keys:{i}:hash", hp is not None, f"the input must be repartitioned by hash, got {show(r.a[3])[:150]}", w):
                continue
            keys = field(hp, "0")
            cnt.append(field(hp, "1"))
            on = [z for z in walk(keys) if z.k == "f" and z.a[1] in ("0", "1") and contains(z.a[0], lambda o: o.k == "call" and last(o.a[0]) == "on" or o.k == "f" and o.a[1] == "on")]
            ctx.ob(f"keys:{i}:own", bool(on) and {z.a[1] for z in on} == {str(i)}, f"input {i} must be repartitioned on its own join keys, got {show(keys)[:200]}", w)
            src = r.a[2]
            ls = {last(z.a[0]) if z.k == "call" else z.a[1] for z in walk(src) if (z.k == "call" and last(z.a[0]) in ("left", "right")) or z.k == "f" and z.a[1] in ("left", "right")}
            ctx.ob(f"keys:{i}:side", ls == {("left", "right")[i]}, f"input {i} of the join must stay input {i}, got {sorted(ls)}", w)
        ctx.ob("keys:count", len(set(cnt)) == 1, f"both inputs must have the same number of partitions: {[show(z) for z in cnt]}", w)
    ctx.ob("keys", found > 0, "a join changed to the partitioned mode must have both inputs repartitioned by hash", w)


def is_rep(z):
    return z.k == "call" and "RepartitionExec" in z.a[0] and last(z.a[0]) in ("try_new", "new")
