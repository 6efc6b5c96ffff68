"""Per-task leaf plans. A split leaf may execute its variant with the index of its own task and nothing else (the unsplit plan only when
there is a single task but more than one variant); specializing a plan for a task is evaluated for a split leaf, a union and any other node: the split leaf becomes
the variant of the task the traversal says it is visited for, other nodes stay; the traversal starts from the task the request is made for
and gives a union's children the tasks recorded for that task; and every construction of a split leaf keeps the given variants in order."""
import re
from ..core import *
from ..plans import PlanSpec, CMP
from ..spec import Spec

TECHNIQUE = "term evaluation over MIR of the execution and specialization of split leaves, case analysis on the kind of node, provenance of task indexes"
NOTE = "The traversals of DataFusion are taken to visit every node once, parents first. Variants are assumed to be what the scale-up handler made them."

LEAF = "DistributedLeafExec"
CASES = ((1, 1), (1, 2), (2, 2), (3, 3))     # tasks, variants


def holds(f, tc):
    """Can the fact hold when the number of tasks and of variants are those?"""
    tc, vs = tc
    def num(t):
        if t.k == "len" and t.a[0].k == "f" and t.a[0].a[1] == "variants":
            return vs
        if t.k == "c" and isinstance(t.a[0], int):
            return t.a[0]
        if t.k == "f" and t.a[1] == "task_count":
            return tc
        return None
    if f.k == "un" and f.a[0] == "Not":
        r = holds(f.a[1], (tc, vs))
        return None if r is None else not r
    if f.k == "op" and f.a[0] in CMP:
        x, y = num(f.a[1]), num(f.a[2])
        if x is not None and y is not None:
            return CMP[f.a[0]](x, y)
    if f.k == "isv" and num(f.a[0]) is not None and f.a[1] and isinstance(f.a[1][0], int):
        return (num(f.a[0]) in f.a[1]) is not bool(f.a[2])
    return None


def reached(ctx, b, case):
    """The blocks that are reached with those numbers of tasks and variants."""
    V = ctx.V
    seen, todo = set(), [0]
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        u = b.blocks[k][1]
        nxt = b.succs(k)
        if u[0] == "switch":
            z = V.operand(b, u[1], k, len(b.blocks[k][0]))
            r = {holds(y, case) for y in alts(z)}
            if r and r <= {True} or r == {False}:
                m = dict((v, w) for v, w in u[2])
                nxt = [m.get(int(True in r), u[3])]
        todo += nxt
    return seen


def own_index(t):
    """t is the task index of the context of the execution or of a traversal."""
    return t.k == "f" and t.a[1] == "task_index"


def variant_at(t):
    """(leaf, index) if t is one of the variants of a leaf."""
    if t.k == "at" and t.a[0].k == "f" and t.a[0].a[1] == "variants":
        return t.a[0].a[0], t.a[1]
    return None


def run(ctx):
    P, V = ctx.P, ctx.V
    # ---- execution
    ex = [b for b in ctx.method("ExecutionPlan", "execute") if LEAF in b.path]
    ctx.floor("executions of split leaves", len(ex))
    for e in ex:
        covered = {n: 0 for n in CASES}
        for b in ctx.tree(e):
            at = {n: reached(ctx, b, n) for n in CASES}
            for blk, t in b.calls():
                nm = callee_name(t) or ""
                if last(nm) != "execute" or "ExecutionPlan" not in nm:
                    continue
                fs = ctx.facts(b, blk)
                may = [n for n in covered if blk in at[n] and not any(holds(f, n) is False for f in fs)]
                w = ctx.where(b, blk)
                for y in alts(V.arg(b, blk, t, 0)):
                    if y.k in ("E", "never"):
                        continue
                    v = variant_at(y)
                    if v:
                        ok = params(v[0]) and all(n == (1, 1) for n in may) and show(v[1]) == "0" or own_index(v[1]) and contains(v[1], lambda z: z.k == "call" and last(z.a[0]) == "from_ctx" and params(z)) and params(v[0])
                        ctx.ob(f"execute:{[n[0] for n in may]}:own-variant", ok, f"a task must execute the variant with its own index: {show(y)[:200]}", w)
                        got = [n for n in may]
                    elif y.k == "f" and y.a[1] == "original":
                        # the plan may be chosen before it is executed: then the choice is what is guarded
                        cond = may if len(alts(V.arg(b, blk, t, 0))) == 1 else chosen(ctx, b, y, may)
                        ctx.ob(f"execute:{[n[0] for n in may]}:original", all(n == (1, 2) for n in cond), f"the plan that was not split may be executed only when there is a single task and more variants: {show(y)[:120]} for {cond} tasks and variants", w)
                        got = cond
                    else:
                        ctx.ob(f"execute:{[n[0] for n in may]}:other", False, f"a split leaf may execute its variants only: {show(y)[:200]}", w)
                        got = []
                    for n in got:
                        covered[n] += 1
                ctx.ob(f"execute:{[n[0] for n in may]}:partition", all(y.k == "p" for i in (1, 2) for y in alts(V.arg(b, blk, t, i))), f"partition and context must be passed on unchanged: {[show(V.arg(b, blk, t, i))[:80] for i in (1, 2)]}", w)
        ctx.ob("execute:always", all(covered.values()), f"every number of tasks must be executed: {covered}", ctx.where(e))
    # ---- constructions keep the variants
    n = 0
    for b, blk, si, t in ctx.aggs(LEAF):
        n += 1
        v = field(t, "variants")
        ok = bool(list(alts(v)))
        for y in alts(v):
            if y.k == "E":
                continue
            ok &= same_sequence(y)
        ctx.ob(f"{last(V.root(b).path)}:variants", ok, f"all given variants must be kept, in order: {show(v)[:250]}", ctx.where(b, blk))
        r = V.root(b)
        for what in ("partition_count", "schema"):
            err, eq = guards_error(ctx, r, what)
            ctx.ob(f"{last(r.path)}:{what}", err, f"variants that differ in {what} must be rejected", ctx.where(r))
    ctx.floor("constructions of split leaves", n)
    for b in ctx.method("ExecutionPlan", "with_new_children"):
        if LEAF in b.path:
            S = Spec(P)
            r = S.spec(b.path, [mk("p", b.path, i) for i in range(1, b.argc + 1)])
            ok = all(y.k == "E" or y.k == "p" or y.k == "agg" and y.a[0].endswith(LEAF) and show(field(y, "variants")).endswith("#1.variants") for y in alts(r))
            ctx.ob("with_new_children", ok, f"a rebuilt leaf keeps its variants: {show(r)[:200]}", ctx.where(b))
    # ---- specialization
    sites = 0
    for b, blk, t in ctx.calls(lambda n: last(n) in ("transform_down_with_dt_ctx", "transform_up_with_dt_ctx")):
        clo = [y for i in range(len(t[2])) for y in alts(V.arg(b, blk, t, i)) if y.k == "clo"]
        if not clo:
            continue
        body = P.bodies[clo[-1].a[0]]
        kinds = {y for x in ctx.closure([body]) for _, tt in x.calls() for y in [str(tt)] if LEAF in y}
        if not kinds:
            continue
        sites += 1
        k = last(V.root(b).path)
        for op in (LEAF, "ChildrenIsolatorUnionExec", "{any}"):
            S = PlanSpec(P, {"": dict(op=op, kids=0)})
            node = mk("p", body.path, 2)
            r = S.spec(body.path, [clo[-1]] + [mk("p", body.path, i) for i in range(2, body.argc + 1)])
            for y in alts(r):
                if y.k in ("E", "never"):
                    continue
                x = result(y)
                for z in alts(x):
                    if op == LEAF:
                        if contains(z, lambda q: q.k == "call" and "from_bytes" in last(q.a[0])):
                            continue          # a leaf with work unit feeds, re-encoded
                        v = variant_at(z)
                        ok = v is not None and own_index(v[1]) and v[1].a[0].k == "p" and v[1].a[0].a[0] == body.path and S.role(v[0]) == ""
                        ctx.ob(f"{k}:{op}", ok, f"a split leaf must become the variant of the task it is visited for: {show(z)[:200]}", ctx.where(body))
                    elif op == "{any}":
                        ok = contains(z, lambda q: q is node) and (z is node or contains(z, lambda q: q.k == "call" and "from_bytes" in last(q.a[0]) or last(str(q.a[0])) == "clone"))
                        ctx.ob(f"{k}:{op}", ok, f"any other node must stay as it is: {show(z)[:200]}", ctx.where(body))
                    else:
                        ok = contains(z, lambda q: q is node)
                        ctx.ob(f"{k}:{op}", ok, f"a union must be specialized from itself: {show(z)[:200]}", ctx.where(body))
        # where the traversal starts
        dc = next((V.arg(b, blk, t, i) for i in range(len(t[2])) for y in alts(V.arg(b, blk, t, i)) if y.k == "agg" and y.a[0].endswith("DistributedTaskContext")), None)
        if ctx.ob(f"{k}:start", dc is not None, "the traversal must start from a task context", ctx.where(b, blk)):
            ti, tc = field(dc, "task_index"), field(dc, "task_count")
            ctx.ob(f"{k}:start-task", ti.k == "p" and tc.k == "f" and tc.a[1] == "task_count", f"specialization must start from the task asked for and the number of tasks of the stage: {show(dc)[:200]}", ctx.where(b, blk))
    ctx.floor("traversals that specialize plans", sites)
    # ---- the plan that is sent is the one specialized for the task that gets it
    sent = 0
    from ..spec import Spec as Sp
    for b, blk, si, t in ctx.aggs("SetPlanRequest"):
        if "plan" not in t.a[2]:
            continue
        key, pl = field(t, "task_key"), field(t, "plan")
        if pl.k == "agg" and pl.a[1] == "Encoded" or not contains(pl, lambda z: z.k == "call" and last(z.a[0]).startswith("transform")) and b.file.startswith("src/protocol"):
            continue
        sent += 1
        ctx.ob(f"{last(V.root(b).path)}:sent-plan", all(contains(y, lambda z: z.k == "clo" and "dt_ctx" in z.a[0] or z.k == "call" and "dt_ctx" in z.a[0]) for y in alts(pl) if y.k != "E"), f"the plan that is sent must be specialized for its task: {show(pl)[:200]}", ctx.where(b, blk))
        num = field(field_of(key), "task_number") if key.k == "agg" else None
        idx = set()
        r = V.root(b)
        for x in ctx.closure([r]):
            for bk, tt in x.calls():
                cal = P.bodies.get(callee_name(tt) or "")
                if cal is not None and any(last(callee_name(q) or "").endswith("_with_dt_ctx") for _, q in cal.calls()) and x.path.startswith(r.path):
                    for i in range(len(tt[2])):
                        if P.ty_s(cal.ty(i + 1)) == "usize":
                            idx.add(V.arg(x, bk, tt, i))
        if num is not None and idx:
            ctx.ob(f"{last(r.path)}:sent-task", idx == {num}, f"the plan must be specialized for the task number of the request: {[show(x) for x in idx]} / {show(num)}", ctx.where(b, blk))
    ctx.floor("plans sent to tasks", sent)
    # ---- the traversal hands a union's children the tasks recorded for the visited task
    m = 0
    for b in P.own:
        if b.skip or "TreeNodeExt" not in b.path:
            continue
        for blk, t in b.calls():
            for i in range(len(t[2])):
                for y in alts(V.arg(b, blk, t, i)):
                    if y.k == "at" and y.a[0].k == "f" and y.a[0].a[1] == "task_idx_map":
                        m += 1
                        ctx.ob(f"{traversal(b)}:children", own_index(y.a[1]), f"the children of a union run the tasks recorded for the visited task: {show(y)[:160]}", ctx.where(b, blk))
    ctx.floor("places where a traversal descends into a union", m, 3)
    worklists(ctx)


def worklists(ctx):
    """A traversal from parents to children that keeps what belongs to the nodes still to come in a list, and takes the next from its end,
    must add the entries of the children in reverse: the first child comes next."""
    P, V = ctx.P, ctx.V
    n = 0
    for b in P.own:
        if b.skip or "TreeNodeExt" not in b.path:
            continue
        pops = [t for _, t in b.calls() if re.search(r"Vec<.*>::pop$", callee_name(t) or "") and t[2]]
        if not pops:
            continue
        flips = any(last(callee_name(t) or "") == "reverse" for _, t in b.calls())
        lists = {P.ty_s(b.ty(t[2][0][1][0])).replace("&mut ", "") for t in pops}
        loops = V.loops(b)
        for blk, t in b.calls():
            nm = last(callee_name(t) or "")
            if nm not in ("extend", "push") or len(t[2]) < 2 or P.ty_s(b.ty(t[2][0][1][0])).replace("&mut ", "") not in lists:
                continue
            y = V.arg(b, blk, t, 1)
            if nm == "push" and not any(blk in L for L in loop_blocks(loops)):
                continue
            n += 1
            same = nm == "extend" and all(uniform(z) for z in alts(y))
            turned = len([z for z in walk(y) if z.k == "call" and last(z.a[0]) == "rev"]) % 2 == 1
            for L in loop_blocks(loops) if nm == "push" else ():
                if blk in L:
                    turned = turned or any(bk in L and last(callee_name(u) or "") == "next" and u[2] and "Rev<" in P.ty_s(b.ty(u[2][0][1][0])) for bk, u in b.calls())
            ctx.ob(f"{traversal(b)}:order", same or turned or flips, f"what is kept for the children of a node must be taken in the order of the children, so it is added in reverse: {show(y)[:200]}", ctx.where(b, blk))
    ctx.floor("lists of what belongs to the nodes still to come", n)


def loop_blocks(loops):
    for L in loops.values() if isinstance(loops, dict) else loops:
        yield L if isinstance(L, (set, frozenset, list)) else set()


def uniform(z):
    """A sequence whose elements are all the same."""
    while z.k == "call" and len(z.a) > 2:
        z = z.a[2]
    return z.k == "coll" and show(z.a[0]) != "none()" and not contains(z.a[0], lambda x: x is z.a[1])


def traversal(b):
    import re
    m = re.search(r"::(\w+_(?:dt_ctx|task_count))", b.path)
    return m.group(1) if m else last(b.path)


def field_of(x):
    return x


def chosen(ctx, b, y, may):
    """The numbers of tasks for which the place that takes the term y is reached."""
    V = ctx.V
    out = set()
    for blk, t in b.calls():
        if last(callee_name(t) or "") in ("clone", "deref", "as_ref", "execute") or True:
            if t[2] and any(z is y for z in alts(V.arg(b, blk, t, 0))) and len(alts(V.arg(b, blk, t, 0))) == 1:
                out |= {n for n in CASES if not any(holds(f, n) is False for f in ctx.facts(b, blk))}
    for blk, si, st in b.assigns():
        if st[2][0] in ("ref", "use", "copyref"):
            v = V.rvalue(b, st[2], blk, si)
            if v is y:
                out |= {n for n in CASES if not any(holds(f, n) is False for f in ctx.facts(b, blk))}
    return sorted(out) or may


def same_sequence(y):
    """y is a parameter, or a collection with one element for every element of a parameter, that element itself."""
    if y.k == "p" or y.k == "f" and y.a[1] == "variants":
        return True
    if y.k == "coll":
        it, idx = y.a[0], y.a[1]
        if idx.k != "idx" or idx.a[0].k not in ("p", "f"):
            return False
        if len(y.a) > 2 and any(z.k not in ("none",) and z is not c(True) for z in y.a[2:] if isinstance(z, T)):
            return False
        return all(z.k == "E" or z.k == "at" and z.a[0] is idx.a[0] and z.a[1] is idx for z in alts(it))
    if y.k == "call" and last(y.a[0]) in ("collect", "from_iter", "into_iter", "to_vec", "into", "iter", "into_boxed_slice") and len(y.a) > 2:
        return same_sequence(y.a[2])
    return False


def guards_error(ctx, r, what):
    """(an error is reported where the two differ, …)"""
    V = ctx.V

    def cmp(f, neg=False, what=what):
        if f.k == "un" and f.a[0] == "Not":
            return cmp(f.a[1], not neg, what)
        if f.k == "op" and f.a[0] in ("Eq", "Ne"):
            if all(contains(z, lambda q: q.k == "call" and last(q.a[0]) == what) for z in f.a[1:]):
                return (f.a[0] == "Ne") is not neg
        return None
    ok, wrong = False, False
    for b in ctx.tree(r):
        fb = set(fail_blocks(ctx, b))
        for blk in fb | {x for x, si, st in b.assigns() if st[2][0] == "agg" and st[2][1][0] == "adt" and len(st[2][1]) > 2 and st[2][1][2] == "Err"}:
            for f in ctx.facts(b, blk):
                if cmp(f) is True:
                    ok = True
            fs = ctx.facts(b, blk)
            if any(cmp(f) is False for f in fs) and not any(cmp(f, what=w) is True for f in fs for w in ("partition_count", "schema")):
                wrong = True
    return ok and not wrong, None


def result(y):
    while y.k == "call" and last(y.a[0]) in ("yes", "no", "new_transformed", "new") and len(y.a) > 2:
        y = y.a[2]
    if y.k == "agg" and y.a[0].endswith("Transformed"):
        return field(y, "data")
    return y
