"""Task counts, decided per shape of plan: the function that decides a node's task count is specialised (conditional constant
propagation over MIR) for every node type it distinguishes crossed with the number of partitions, limits and distributions the node and
its children can have, and the count it gives to the node and to the stage it may end is evaluated symbolically. Shapes that must see
all rows have to come out as at most one task; all others must merge the counts of all children and be limited. The algebra of counts
(merge, limit, value), the propagation to the nodes of a stage, and the counts above an exchange are decided the same way."""
from ..core import *
from ..plans import PlanSpec
from ..val import Engine
from .c17 import annotators, takes_count

TECHNIQUE = "conditional constant propagation over MIR per plan shape (node type x partitions x limit x required distribution x parent), symbolic evaluation of the task counts"
NOTE = "Decides the counts for every node type the planner distinguishes plus an arbitrary one; which distribution an operator requires, and whether it has a limit, is taken from DataFusion."

TCA = "TaskCountAnnotation"


def isT(ctx, b, i):
    return ctx.P.ty_s(b.ty(i)).lstrip("&").endswith(TCA)


def algebra(ctx):
    """Local functions over task counts by signature: merge (two counts), limit (count, number), value (count -> number)."""
    P = ctx.P
    out = {"merge": [], "limit": [], "value": []}
    for b in P.own:
        if b.skip or b.kind == "Closure" or b.coroutine:
            continue
        r = P.ty_s(b.ty(0))
        at = [P.ty_s(b.ty(i)).lstrip("&") for i in range(1, b.argc + 1)]
        if r.endswith(TCA) and len(at) == 2 and all(x.endswith(TCA) for x in at):
            out["merge"].append(b)
        elif r.endswith(TCA) and len(at) == 2 and at[0].endswith(TCA) and at[1] == "usize":
            out["limit"].append(b)
        elif r == "usize" and len(at) == 1 and at[0].endswith(TCA):
            out["value"].append(b)
    return out


def lookup(ctx):
    """Functions that return the recorded count of a plan."""
    P = ctx.P
    return [b for b in P.own if not b.skip and b.argc >= 2 and TCA in P.ty_s(b.ty(0)) and "ExecutionPlan" not in P.ty_s(b.ty(0))
            and any("ExecutionPlan" in P.ty_s(b.ty(i)) for i in range(1, b.argc + 1)) and not any(TCA in P.ty_s(b.ty(i)) for i in range(1, b.argc + 1))
            and any(last(callee_name(t) or "") in ("get", "index", "get_mut", "remove") for x in ctx.tree(b) for _, t in x.calls())]


def check_algebra(ctx, al):
    P = ctx.P
    ad = next(k for k in P.adts if k.endswith(TCA))
    A = lambda v, x: mk("agg", ad, v, ("0",), x)
    x, y = mk("p", "{a}", 1), mk("p", "{b}", 1)

    class S(PlanSpec):
        def _role(self, t):
            return "?"
    for b in al["merge"]:
        for va, vb in (("Desired", "Desired"), ("Desired", "Maximum"), ("Maximum", "Desired"), ("Maximum", "Maximum")):
            r = S(P, {}).spec(b.path, [A(va, x), A(vb, y)])
            want = {("Desired", "Desired"): ("Desired", ("max",)), ("Desired", "Maximum"): ("Maximum", "b"), ("Maximum", "Desired"): ("Maximum", "a"), ("Maximum", "Maximum"): ("Maximum", ("min",))}[va, vb]
            ok, q = bool(list(alts(r))), set()
            for z in alts(r):
                v = field(z, "0") if z.k == "agg" else None
                if v is None or z.a[1] != want[0]:
                    ok = False
                    continue
                q |= set(alts(v))
            if want[1] in ("a", "b"):
                ok = ok and q == {x if want[1] == "a" else y}
            else:
                # a choice between both by a comparison is taken as the right one only if the comparison says so
                ok = ok and (all(w.k == "op" and w.a[0] == want[1][0] and set(w.a[1:]) == {x, y} for w in q) or q == {x, y} and chosen(ctx, b, want[1][0], (va, vb)))
            ctx.ob(f"merge:{va}+{vb}", ok, f"merging {va} and {vb} must give {want[0]} ({'the maximum given' if isinstance(want[1], str) else 'the ' + {'max': 'larger', 'min': 'smaller'}[want[1][0]] + ' of both'}), got {show(r)}", ctx.where(b))
    for b in al["limit"]:
        for v in ("Desired", "Maximum"):
            r = S(P, {}).spec(b.path, [A(v, x), y])
            ok, q = bool(list(alts(r))), set()
            for z in alts(r):
                w = field(z, "0") if z.k == "agg" else None
                ok = ok and w is not None and z.a[1] == v
                q |= set(alts(w)) if w is not None else set()
            ok = ok and (all(bounded_by(z, x, y) for z in q) or {x, y} <= q and q <= {x, y, c(1)} and c(1) in q)
            ctx.ob(f"limit:{v}", ok, f"limiting {v}(n) must keep its kind and give at most n, at most the limit, and at least 1, got {show(r)}", ctx.where(b))
    for b in al["value"]:
        for v in ("Desired", "Maximum"):
            r = S(P, {}).spec(b.path, [A(v, x)])
            ctx.ob(f"value:{v}", all(q is x for q in alts(r)) and bool(list(alts(r))), f"the number of tasks of {v}(n) must be n, got {show(r)}", ctx.where(b))


def bounded_by(q, x, y):
    """max(1, min(x, y)) in any order, or x clamped to 1..y."""
    one = lambda z: z.k == "op" and z.a[0] == "max" and c(1) in z.a[1:]
    rest = lambda z: next((w for w in z.a[1:] if w is not c(1)), c(1))
    if one(q):
        z = rest(q)
        return z.k == "op" and z.a[0] == "min" and {rest(w) if one(w) else w for w in z.a[1:]} == {x, y}
    if q.k == "op" and q.a[0] == "min":
        return all(one(w) for w in q.a[1:]) and {rest(w) for w in q.a[1:]} == {x, y}
    if last(str(q.a[0])) == "clamp":
        z = [w for w in q.a[1:] if isinstance(w, T)]
        return len(z) == 3 and z[0] is x and z[1] is c(1) and (z[2] is y or one(z[2]) and rest(z[2]) is y)
    return False


def chosen(ctx, b, which, kinds):
    """Every branch on a comparison of the two counts leaves the smaller (larger) one: decided on the specialised function with the
    comparison answered both ways."""
    x, y = mk("p", "{a}", 1), mk("p", "{b}", 1)
    ad = next(k for k in ctx.P.adts if k.endswith(TCA))
    A = lambda v, z: mk("agg", ad, v, ("0",), z)
    for lo, hi in ((x, y), (y, x)):
        class S(PlanSpec):
            def _role(self, t):
                return "?"

            def num(self, t):
                return {lo: 3, hi: 5}.get(t, super().num(t))
        r = S(ctx.P, {}).spec(b.path, [A(kinds[0], x), A(kinds[1], y)])
        if {v for z in alts(r) for v in alts(field(z, "0"))} != {lo if which == "min" else hi}:
            return False
    return True


class CountSpec(PlanSpec):
    """Keeps the algebra and the lookups symbolic and records what stages are built from."""

    def __init__(self, P, shape, opaque, flags=None):
        super().__init__(P, shape, opaque, flags)
        self.stages = []
        self.events = []

    def finished(self, nb):
        path = nb.path.split("~")[0]
        for blk, si, st in nb.assigns():
            if st[2][0] == "agg" and st[2][1][0] == "adt":
                n = str(st[2][1][1])
                if n.endswith("stage::LocalStage"):
                    self.stages.append((path, nb, blk, self.rvalue(nb, st[2], blk, si)))
                if n.endswith("ScaleUpLeafNodeEvent"):
                    self.events.append((path, nb, blk, self.rvalue(nb, st[2], blk, si)))
        super().finished(nb)

    def const(self, y):
        v = super().const(y)
        if v is None and y.k == "op" and y.a[0] in ("Eq", "Ne") and all(z.k == "call" and last(z.a[0]) == "of" for z in y.a[1:]):
            return int((y.a[1] is y.a[2]) == (y.a[0] == "Eq"))
        return v


def single(al, t):
    """At most one task."""
    lim = {b.path for b in al["limit"]}
    out = []
    for y in alts(t):
        if y.k in ("E", "err", "never"):
            continue
        if y.k == "call" and y.a[0] in lim:
            out.append(single(al, y.a[2]))
        elif y.k == "agg" and y.a[1] == "Maximum":
            out.append(all(v in (c(0), c(1)) for v in alts(field(y, "0"))))
        elif y.k == "call" and y.a[0] in {b.path for b in al["merge"]}:
            out.append(any(single(al, z) for z in y.a[2:]))
        else:
            out.append(False)
    return bool(out) and all(out)


def same(al, x, y):
    """The same count; counts merged in a loop are compared by what is merged."""
    return x is y or ingredients(al, x) == ingredients(al, y)


def ingredients(al, t):
    mg, out, seen = {b.path for b in al["merge"]} | {b.path for b in al["limit"]}, set(), set()

    def go(x, lim):
        if (x, lim) in seen:
            return
        seen.add((x, lim))
        if x.k == "phi":
            for y in x.a:
                go(y, lim)
        elif x.k == "call" and x.a[0] in mg:
            k = lim + (x.a[0],) if x.a[0] not in lim else lim
            for y in x.a[2:]:
                go(y, k)
        elif x.k == "rec":
            pass
        else:
            out.add((x, lim))
    go(t, ())
    return out


def limited(al, t):
    lim = {b.path for b in al["limit"]}
    return all(y.k in ("E", "err", "never") or y.k == "call" and y.a[0] in lim or y.k == "agg" and y.a[1] == "Maximum" and all(v is c(1) for v in alts(field(y, "0"))) for y in alts(t))


def folded(al, t):
    """Below the limit: merges over the counts of the children."""
    mg = {b.path for b in al["merge"]}
    lim = {b.path for b in al["limit"]}
    for y in alts(t):
        if y.k in ("E", "err", "never"):
            continue
        x = y.a[2] if y.k == "call" and y.a[0] in lim else y
        if single(al, x):
            continue
        if not all(single(al, z) or contains(z, lambda q: q.k == "call" and q.a[0] in mg) or z.k == "rec" or init(z) for z in alts(x)) or not contains(x, lambda q: q.k == "call" and q.a[0] in mg):
            return False
    return True


def init(z):
    """What the merge over the children starts from."""
    return z.k == "agg" and z.a[1] == "Desired" or not contains(z, lambda q: q.k == "agg" and str(q.a[0]).endswith(TCA))


def nodes_of(ctx, b):
    """Types a function and its helpers distinguish."""
    from .c17 import downcasts
    out, seen, todo = set(), set(), [b]
    while todo:
        y = todo.pop()
        if y.path in seen:
            continue
        seen.add(y.path)
        for x in ctx.tree(y):
            for _, t in x.calls():
                for ty in downcasts(ctx, x, t):
                    out.add(str(ty).split("<")[0].split("::")[-1])
                f = ctx.P.bodies.get(callee_name(t))
                if f is not None and f.file == b.file:
                    todo.append(f)
    return sorted(out)


def annot(ctx, S, entry):
    """Counts given to a plan in the entry function: [(is it the node itself, count, nb, blk)]."""
    out = []
    for path, nm, nb, blk in S.hits:
        if path != entry or nm not in ctx.P.bodies:
            continue
        f = ctx.P.bodies[nm]
        pi = next((i for i in range(1, f.argc + 1) if "dyn" in ctx.P.ty_s(f.ty(i)) and "ExecutionPlan" in ctx.P.ty_s(f.ty(i)) and "Option" not in ctx.P.ty_s(f.ty(i))), None)
        ti = next((i for i in range(1, f.argc + 1) if isT(ctx, f, i)), None)
        if pi is None or ti is None:
            continue
        a = S.args(nb, blk, nb.blocks[blk][1])
        out.append((any(S.role(z) == "" for z in alts(a[pi - 1])), a[ti - 1], nb, blk))
    return out


BOUND = {"NetworkShuffleExec": r"NetworkShuffleExec::(from_stage|try_from_stage|new|try_new)$", "NetworkBroadcastExec": r"NetworkBroadcastExec::(from_stage|try_from_stage|new|try_new)$",
         "NetworkCoalesceExec": r"NetworkCoalesceExec::(from_stage|try_from_stage|new|try_new)$"}


def shapes(types):
    """(label, shape, must be single, exchange expected or None)"""
    P8 = dict(n=8, fetch=0, kids=1, req="UnspecifiedDistribution", part="UnknownPartitioning")
    C8 = dict(op="{any}", n=8, fetch=0, kids=1, req="UnspecifiedDistribution", part="UnknownPartitioning")
    G8 = dict(op="{any}", n=8, fetch=0, kids=1)
    up = dict(op="{any}")
    for ty in types + ["{any}"]:
        if ty in ("CoalescePartitionsExec", "SortPreservingMergeExec"):
            pass
        nm = "any other node" if ty == "{any}" else ty
        if ty in ("RepartitionExec", "BroadcastExec"):
            continue
        yield (f"{nm}", {"": dict(P8, op=ty), "c": C8, "cc": G8, "p": up}, False, None)
        yield (f"{nm} with a limit on one partition", {"": dict(P8, op=ty, n=1, fetch=1), "c": C8, "cc": G8, "p": up}, True, None)
        for req in ("SinglePartition", "HashPartitioned"):
            yield (f"{nm} requiring {req} of one partition", {"": dict(P8, op=ty, req=req), "c": dict(C8, n=1), "cc": G8, "p": up}, True, None)
            yield (f"{nm} requiring {req} of one round-robin partition", {"": dict(P8, op=ty, req=req), "c": dict(C8, op="RepartitionExec", part="RoundRobinBatch", n=1), "cc": G8, "p": up}, True, None)
            yield (f"{nm} requiring {req} of coalesced partitions", {"": dict(P8, op=ty, req=req), "c": dict(C8, op="CoalescePartitionsExec", n=1), "cc": G8, "p": up}, True, None)
    for par, ex in (("CoalescePartitionsExec", "NetworkCoalesceExec"), ("SortPreservingMergeExec", "NetworkCoalesceExec")):
        yield (f"any node below {par}", {"": dict(P8, op="{any}"), "c": C8, "cc": G8, "p": dict(op=par)}, False, ex)
    for par in ("{any}", "CoalescePartitionsExec", None):
        p = dict(op=par) if par else dict(none=True)
        s = f" below {par}" if par == "CoalescePartitionsExec" else " at the root" if par is None else ""
        yield ("hash RepartitionExec" + s, {"": dict(P8, op="RepartitionExec", part="Hash"), "c": C8, "cc": G8, "p": p}, False, "NetworkShuffleExec")
        yield ("BroadcastExec" + s, {"": dict(P8, op="BroadcastExec"), "c": C8, "cc": G8, "p": p}, False, "NetworkBroadcastExec")
    yield ("round-robin RepartitionExec", {"": dict(P8, op="RepartitionExec", part="RoundRobinBatch"), "c": C8, "cc": G8, "p": up}, False, None)
    yield ("the root", {"": dict(P8, op="{any}"), "c": C8, "cc": G8, "p": dict(none=True)}, False, None)


def run(ctx):
    P, V = ctx.P, ctx.V
    al = algebra(ctx)
    ctx.floor("functions that merge task counts", len(al["merge"]))
    ctx.floor("functions that limit task counts", len(al["limit"]))
    check_algebra(ctx, al)
    looks = {b.path for b in lookup(ctx)}
    opq = {b.path for k in al for b in al[k]} | looks
    ann = annotators(ctx)
    ctx.floor("functions that decide task counts", len(ann))
    n = 0
    for a in ann:
        ctx.seen.add(a)
        b = P.bodies[a]
        types = [t for t in nodes_of(ctx, b) if t not in ("ExecutionPlan",) and t in joined(ctx, b)]
        for lab, sh, one, ex in shapes(types):
            n += 1
            S = CountSpec(P, sh, opq)
            S.spec(a, [mk("p", a, 1)])
            own = [(t, nb, blk) for me, t, nb, blk in annot(ctx, S, a) if me]
            w = ctx.where(b, own[0][2] if own else None)
            if not ctx.ob(f"count:{lab}", bool(own), f"{lab} must be given a task count", w):
                continue
            for t, nb, blk in own:
                if one:
                    ctx.ob(f"single:{lab}", single(al, t), f"{lab} must see all rows in one task, but may get {show(t)[:200]}", ctx.where(b, blk))
                ctx.ob(f"limited:{lab}", limited(al, t), f"the task count of {lab} must be limited to the configured maximum: {show(t)[:200]}", ctx.where(b, blk))
                if not one and sh[""]["op"] != "ChildrenIsolatorUnionExec":
                    ctx.ob(f"merged:{lab}", folded(al, t), f"the task count of {lab} must merge the counts of its children: {show(t)[:200]}", ctx.where(b, blk))
            got = sorted(k for k, rx in BOUND.items() if any(re.search(rx, nm) for p_, nm, x, k_ in S.hits if p_ == a))
            ctx.ob(f"exchange:{lab}", got == ([ex] if ex else []), f"above {lab} there must be {ex or 'no exchange'}, got {', '.join(got) or 'none'}", w)
            st = [x for x in S.stages if any(S.role(z) == "" or contains(z, lambda q: S.role(q) == "") for z in alts(field(x[3], "plan")))]
            if ex:
                ctx.ob(f"stage:{lab}", bool(st), "an exchange must be fed by a stage with the node as its plan", w)
            for path, nb, blk, t in st:
                v = field(t, "tasks")
                ok = all(any(y.k == "call" and y.a[0] == q.path and same(al, y.a[2], x) for q in al["value"] for x, _, _ in own) for y in alts(v))
                ctx.ob(f"tasks:{lab}", ok, f"a stage must have as many tasks as its head node was given: {show(v)[:200]}", ctx.where(P.bodies[path], blk))
        # leaves
        for fetch, n1 in ((0, 8), (1, 1)):
            S = CountSpec(P, {"": dict(op="{any}", n=n1, fetch=fetch, kids=0), "c": {}, "p": dict(op="{any}")}, opq)
            S.spec(a, [mk("p", a, 1)])
            lab = "a leaf" + (" with a limit on one partition" if fetch else "")
            for me, t, nb, blk in annot(ctx, S, a):
                if not me:
                    continue
                dflt = [y for z in alts(t) for y in (alts(z.a[2]) if z.k == "call" and z.a[0] in {q.path for q in al["limit"]} else [z]) if y.k == "agg" and str(y.a[0]).endswith(TCA)]
                ctx.ob(f"leaf:{lab}", limited(al, t) and (single(al, t) if fetch else all(single(al, y) for y in dflt) and bool(dflt)), f"{lab} that no handler answers for must run in one task: {show(t)[:200]}", ctx.where(b, blk))
        merges(ctx, b, al, looks)
        maxtasks(ctx, b, al)
    ctx.floor("plan shapes evaluated", n, 30)
    above(ctx, ann)
    propagation(ctx, al, opq, looks)
    builders(ctx, al, looks)
    rooted(ctx, ann)


def joined(ctx, b):
    """Types whose downcast the function (or a helper in its file) applies to the node itself."""
    return nodes_of(ctx, b)


def merges(ctx, b, al, looks):
    """Every merge of a child's count happens for each child."""
    k = 0
    for x in ctx.tree(b):
        for blk, t in x.calls():
            if callee_name(t) not in {q.path for q in al["merge"]}:
                continue
            k += 1
            col = each(ctx, x, blk)
            ctx.ob("merge:all", col is not None and not partial(ctx, x, blk, col), "the counts of all children must be merged, none skipped", ctx.where(x, blk))
    ctx.floor("merges of the children's counts", k)


def partial(ctx, b, blk, col):
    """The collection that is gone through is only a part of another."""
    return contains(col, lambda z: z.k == "slice" or z.k == "call" and ADAPT.search(z.a[0]) and last(z.a[0]) not in ("rev", "chain", "sort"))


def maxtasks(ctx, b, al):
    """The limit is the configured maximum, or the number of workers when none is configured."""
    for x in ctx.tree(b):
        for blk, t in x.calls():
            if callee_name(t) not in {q.path for q in al["limit"]}:
                continue
            v = ctx.arg(x, blk, 1)
            ok = True
            for y in alts(v):
                if y.k in ("E", "err", "never"):
                    continue
                cfg = y.k == "f" and y.a[1] == "max_tasks_per_stage"
                wk = contains(y, lambda q: q.k == "len" and contains(q, lambda r: r.k == "call" and "url" in last(r.a[0]))) and not contains(y, lambda q: q.k == "f" and q.a[1] == "max_tasks_per_stage")
                num = y.k == "sum" and wk
                ok = ok and (cfg or wk and not num)
            ctx.ob("limit:config", ok, f"task counts must be limited by the configured maximum or the number of workers, got {show(v)[:200]}", ctx.where(x, blk))


def above(ctx, ann):
    """The consumer of a coalescing exchange runs in one task."""
    P, V = ctx.P, ctx.V
    k = 0
    for b, blk, t in ctx.calls(BOUND["NetworkCoalesceExec"]):
        if b.skip or V.root(b).path not in {V.root(P.bodies[a]).path for a in ann} and not b.file.startswith(("src/distributed_planner", "src/coordinator")):
            continue
        k += 1
        v = ctx.arg(b, blk, len(t[2]) - 1)
        ctx.ob("coalesce:consumers", all(y is c(1) for y in alts(v)), f"a coalescing exchange inserted by the planner must have one consumer task, got {show(v)}", ctx.where(b, blk))
    ctx.floor("coalescing exchanges inserted", k)
    # the builders
    m = 0
    for b, blk, si, rv in ctx.aggs("NetworkBoundaryBuilderResult"):
        m += 1

        class S(CountSpec):
            def const(self, y):
                if y.k == "op" and y.a[0] in ("Eq", "Ne"):
                    of = [z for z in y.a[1:] if z.k == "call" and last(z.a[0]) == "of"]
                    if len(of) == 1:
                        return int(("NetworkCoalesceExec" in str(of[0].a[1])) == (y.a[0] == "Eq"))
                return super().const(y)

            def finished(self, nb):
                if nb.path.split("~")[0] == b.path:
                    for x, i, st in nb.assigns():
                        if st[2][0] == "agg" and st[2][1][0] == "adt" and str(st[2][1][1]).endswith("NetworkBoundaryBuilderResult"):
                            found.append(self.rvalue(nb, st[2], x, i))
        found = []
        s = S(P, {}, ())
        s.spec(b.path, [mk("p", b.path, i) for i in range(1, b.argc + 1)])
        vs = [field(z, "consumer_task_count") for z in found]
        ok = bool(vs) and all(y.k == "agg" and y.a[1] == "Maximum" and all(q is c(1) for q in alts(field(y, "0"))) for v in vs for y in alts(v))
        ctx.ob("coalesce:above", ok, f"the count above a coalescing exchange must be Maximum(1), got {', '.join(show(v)[:120] for v in vs)}", ctx.where(b, blk))
    ctx.floor("results of exchange builders", m, 2)


def propagation(ctx, al, opq, looks):
    """Every node of a stage gets the count of the stage."""
    P = ctx.P
    fns = [b for b in P.own if not b.skip and b.kind != "Closure" and not b.coroutine and any(isT(ctx, b, i) for i in range(1, b.argc + 1))
           and any("ExecutionPlan" in P.ty_s(b.ty(i)) for i in range(1, b.argc + 1)) and any(callee_name(t) == b.path for x in ctx.tree(b) for _, t in x.calls())]
    ctx.floor("functions that propagate a task count", len(fns))
    val = {q.path for q in al["value"]}
    for b in fns:
        ctx.seen.add(b.path)
        ti = next(i for i in range(1, b.argc + 1) if isT(ctx, b, i))
        tc = mk("p", b.path, ti)
        base = dict(n=8, fetch=0, req="UnspecifiedDistribution", part="UnknownPartitioning")
        V2 = Engine(P, opq | {q.path for q in P.own if q.self_ty and q.self_ty.endswith("ChildrenIsolatorUnionExec")})
        isnb = {q.path for q in P.own if "NetworkBoundaryExt" in q.path or last(q.path) in ("as_network_boundary", "is_network_boundary")}
        for lab, sh, nbv in (("a leaf", {"": dict(base, op="{any}", kids=0)}, 0), ("an exchange", {"": dict(base, op="{any}", kids=1)}, 1), ("an inner node", {"": dict(base, op="{any}", kids=1), "c": {}}, 0),
                             ("an isolating union", {"": dict(base, op="ChildrenIsolatorUnionExec", kids=1), "c": {}}, 0)):
            S = BoundSpec(P, sh, opq | isnb | {q.path for q in P.own if (q.self_ty or "").endswith("ChildrenIsolatorUnionExec") and q.trait is None}, nbv)
            S.rolep = b
            S.spec(b.path, [mk("p", b.path, i) for i in range(1, b.argc + 1)])
            rec = [(nb, blk) for p_, nm, nb, blk in S.hits if p_.split("::{closure")[0] == b.path and nm == b.path]
            oth = [(t, nb, blk) for me, t, nb, blk in annot(ctx, S, b.path) if ctx.P.bodies[callee_name(nb.blocks[blk][1])].path != b.path]
            w = ctx.where(b)
            for t, nb, blk in oth:
                ctx.ob(f"own:{lab}", t is tc, f"{lab} must be given the count of its stage, got {show(t)[:150]}", ctx.where(P.bodies[nb.path.split('~')[0]], blk))
            ctx.ob(f"own:{lab}", bool(oth), f"{lab} must be given the count of its stage", w)
            if lab == "a leaf":
                for p_, nb, blk, t in S.events:
                    v = field(t, "task_count")
                    ctx.ob("leaf:scale", all(y.k == "call" and y.a[0] in val and y.a[2] is tc for y in alts(v)), f"a leaf must be scaled to the number of tasks of its stage, got {show(v)[:150]}", ctx.where(P.bodies[p_], blk))
                ctx.ob("leaf:scale", bool(S.events), "a leaf must be scaled to the number of tasks of its stage", w)
            if lab == "an exchange":
                ctx.ob("stop:exchange", not rec, "the count of a stage must not cross an exchange", w)
            if lab in ("an inner node", "an isolating union"):
                ctx.ob(f"children:{lab}", bool(rec), f"the children of {lab} must be given a count", w)
            for nb, blk in rec:
                a = S.args(nb, blk, nb.blocks[blk][1])
                v, pl = a[ti - 1], next(x for i, x in enumerate(a) if "ExecutionPlan" in P.ty_s(b.ty(i + 1)))
                ob = P.bodies[nb.path.split("~")[0]]
                wh = ctx.where(ob, blk)
                col = each(ctx, ob, blk)
                ctx.ob(f"children:{lab}:each", col is not None and not partial(ctx, ob, blk, col), "every child must be given a count", wh)
                if lab == "an inner node":
                    ctx.ob("children:same", v is tc, f"the children of an ordinary node run in as many tasks as the node, got {show(v)[:150]}", wh)
                if lab == "an isolating union":
                    ok = all(y.k == "agg" and all(q.k not in ("op", "sum") and contains(q, lambda z: z.k == "call" and last(z.a[0]) == "child_task_counts") for q in alts(field(y, "0"))) for y in alts(v))
                    ctx.ob("children:own", ok, f"the children of an isolating union run in the tasks assigned to them, got {show(v)[:150]}", wh)


class BoundSpec(CountSpec):
    def __init__(self, P, shape, opaque, nbv):
        super().__init__(P, shape, opaque)
        self.nbv = nbv

    def const(self, y):
        if y.k == "call" and last(y.a[0]) == "is_network_boundary":
            return self.nbv
        return super().const(y)

    def discr1(self, y, base):
        if base.endswith("option::Option") and y.k == "call" and last(y.a[0]) == "as_network_boundary":
            return {self.nbv}
        return super().discr1(y, base)


def builders(ctx, al, looks):
    """Where a stage is given its final count at run time, plan and stage get the same one, merged with the one decided before."""
    P = ctx.P
    V2 = Engine(P, {b.path for k in al for b in al[k]} | looks)
    mg, val = {b.path for b in al["merge"]}, {b.path for b in al["value"]}
    k = 0
    for b in P.own:
        if b.skip or not b.file.startswith("src/"):
            continue
        for blk, si, st in b.assigns():
            pr = st[1][1]
            if not (pr and pr[-1] != "*" and pr[-1][0] == "f" and pr[-1][2] == "tasks" and "LocalStage" in str(pr[-1][3])):
                continue
            k += 1
            w = ctx.where(b, blk)
            v = V2.rvalue(b, st[2], blk, si)
            counts = {y.a[2] for y in alts(v) if y.k == "call" and y.a[0] in val}
            if not ctx.ob("final:value", len(counts) == 1 and all(y.k == "call" and y.a[0] in val for y in alts(v)), f"a stage's number of tasks must be a task count, got {show(v)[:150]}", w):
                continue
            t = counts.pop()
            given = []
            for x, tt in b.calls():
                f = P.bodies.get(callee_name(tt))
                if f is None or not takes_count(ctx, tt):
                    continue
                ti = next(i for i in range(1, f.argc + 1) if isT(ctx, f, i))
                given.append((V2.arg(b, x, tt, ti - 1), x))
            ctx.ob("final:plan", bool(given) and all(g is t for g, x in given), f"the plan of a stage must be given the same count as the stage: {show(t)[:100]} / {', '.join(show(g)[:100] for g, x in given)}", w)
            ok = True
            for y in alts(t):
                ok = ok and y.k == "call" and y.a[0] in mg and any(contains(z, lambda q: q.k == "call" and q.a[0] in looks) for z in y.a[2:])
                for z in y.a[2:] if y.k == "call" else ():
                    for q in alts(z):
                        if q.k == "agg" and str(q.a[0]).endswith(TCA):
                            ok = ok and all(capped(r) for r in alts(field(q, "0")))
            ctx.ob("final:merge", ok, f"a count chosen at run time must be merged with the one decided for the stage and stay within the configured maximum: {show(t)[:200]}", w)
    ctx.floor("stages whose count is chosen at run time", k)


def capped(r):
    """Bounded above by something that depends on the configured maximum, and at least 1."""
    mx = lambda z: contains(z, lambda q: q.k == "f" and q.a[1] == "max_tasks_per_stage")
    if r.k == "op" and r.a[0] in ("clamp",):
        return mx(r.a[-1])
    if r.k == "op" and r.a[0] == "min":
        return any(mx(z) for z in r.a[1:])
    if r.k == "op" and r.a[0] == "max":
        return all(z is c(1) or capped(z) for z in r.a[1:])
    if r.k == "call" and last(r.a[0]) == "clamp":
        return mx(r.a[-1])
    if r.k == "phi":
        return all(capped(z) for z in r.a)
    return False


def rooted(ctx, ann):
    """A plan with several output partitions is coalesced before it is distributed."""
    P, V = ctx.P, ctx.V
    k = 0
    for b, blk, t in ctx.calls(r"CoalescePartitionsExec::new$"):
        if b.skip or not b.file.startswith("src/distributed_planner") or "insert_broadcast" in b.file:
            continue
        r = V.root(b)
        # evaluated for a plan with eight partitions: the coalescing is on every path to the annotation
        fs = [f for f in ctx.facts(b, blk)]
        k += 1
        ok = True
        for f in fs:
            y = f if isinstance(f, T) else None
            if y is not None and contains(y, lambda q: q.k == "call" and last(q.a[0]) == "partition_count"):
                S = Bare()
                ok = ok and S.true(y)
        ctx.ob("root:gathered", ok, "a plan with several output partitions must be gathered into one before it is distributed", ctx.where(b, blk))
    ctx.floor("places where the root is gathered", k)


class Bare:
    """Truth of a condition on a number of partitions greater than one."""

    def true(self, y):
        if y.k == "un" and y.a[0] == "Not":
            return not self.true(y.a[1])
        if y.k != "op" or y.a[0] not in ("Gt", "Ge", "Lt", "Le", "Ne", "Eq"):
            return True
        from ..plans import CMP
        out = []
        for n in (2, 3, 8):
            v = [n if q.k == "call" else q.a[0] if q.k == "c" else None for q in y.a[1:]]
            out.append(None in v or CMP[y.a[0]](*v))
        return all(out)
