"""Identity of stages and queries. Every construction of a stage in the program is classified by where its query id and number come from:
copied together from one existing stage, fresh (a random id drawn once per plan, outside anything that runs per node; a number from a
counter that advances by at least one on every path past its use), the placeholder of an unprepared exchange, or decoded. The plan put
below the exchange must belong to the stage whose number is copied. Executing a plan must give every execution after the first a fresh
query id: the plan as planned may be dispatched only where an atomic exchange of a shared flag says that it never was before."""
from ..core import *

TECHNIQUE = "provenance dataflow over MIR for every stage construction, path check of the stage counter, control dependence of plan dispatch"
NOTE = "Random (v4) identifiers are taken to be unique. Decoded stages are decided by C12, identities used in requests by C02."

TRAV = ("transform_up", "transform_down", "transform", "transform_down_up", "apply", "map", "for_each", "flat_map", "filter_map", "transform_up_with_task_count", "transform_down_with_task_count")


def v4(y):
    return y.k == "call" and last(y.a[0].split("@")[0]) in ("new_v4", "now_v7", "new_v7")


def copied(t, names):
    """X if t is X.<name> / X.<name>()."""
    out = set()
    for y in alts(t):
        if y.k == "f" and y.a[1] in names:
            out.add(y.a[0])
        elif y.k == "call" and last(y.a[0]) in names and len(y.a) > 2:
            out.add(y.a[2])
        else:
            return None
    return out


def stem(bases):
    """A stage is the same whether it was looked at as local, remote or unknown."""
    out = set()
    for x in bases:
        while x.k == "var" or x.k == "f" and x.a[1] == "0":
            x = x.a[0]
        out.add(x)
    return out


def drawn_once(ctx, y):
    """The call that draws the id is not run per node: not in a loop, and in a function or coroutine, not in a closure given to a traversal."""
    V = ctx.V
    ok = False
    for b in ctx.P.own:
        if b.skip:
            continue
        for blk, t in b.calls():
            if last(callee_name(t) or "") in ("new_v4", "now_v7", "new_v7") and V.callv(b, blk, t) is y:
                ok = True
                if any(blk in s for s in V.loops(b).values()):
                    return False
                if b.kind == "Closure" and any(last(callee_name(z[2]) or "").startswith(("transform", "apply", "map", "for_each", "flat_map", "filter_map", "with_")) for z in V.closure_use(b.path)):
                    return False
    return ok


def helper_draw(ctx, y):
    return any(v4(z) for z in walk(y))


def place_of(ctx, b, o, blk, pos):
    """The captured or borrowed place a counter is read from: ((root local, projection), block of the read) after following copies and references."""
    seen = set()
    while o[0] in "cm":
        loc, pr = o[1]
        key = (loc, str(pr))
        if key in seen:
            return None, blk
        seen.add(key)
        path = str([x for x in pr if x != "*"])
        if loc <= b.argc and loc > 0 and pr:
            return (loc, path), blk
        ds = [d for d in ctx.V.rdefs(b, loc, blk, pos) if d != "entry"]
        if pr and any(x == "*" for x in pr) or not pr:
            if len(ds) != 1:
                return ((loc, path) if ds else None), blk
            d = ds[0]
            if d[3][0] == "rv" and d[3][1][0] == "use" and d[3][1][1][0] in "cm":
                o, blk, pos = d[3][1][1], d[0], d[1]
                continue
            if d[3][0] == "rv" and d[3][1][0] in ("ref", "refm"):
                o, blk, pos = ("c", d[3][1][1]), d[0], d[1]
                continue
        return (loc, path), blk
    return None, blk


def advances(ctx, b, blk, si, o):
    """The counter read by operand o at (blk, si) is increased on every path from there to a successful return."""
    pl, blk = place_of(ctx, b, o, blk, si)
    if pl is None:
        return False
    inc = []
    for bk, s, st in b.assigns():
        if st[2][0] == "use" or st[2][0] in ("bin", "binop", "op"):
            dst = place_of(ctx, b, ("c", st[1]), bk, s)[0] if st[1][1] else (st[1][0], "[]")
            if dst != pl:
                continue
            v = ctx.V.rvalue(b, st[2], bk, s)
            src = show(v)
            # x = x + k with k >= 1
            txt = [z for z in _adds(ctx, b, st[2], bk, s)]
            if any(k >= 1 for k in txt):
                inc.append(bk)
    if not inc:
        return False
    if blk in inc:
        return True
    ok, _ = ctx.must_pass(b, blk, inc, None)
    if ok:
        return True
    good = [r for r in b.returns()]
    rest = set(b.reach_from(blk, stop=set(inc)))
    return not any(r in rest and not ctx.err_only(b, blk) for r in good) or always_ok(ctx, b, blk, inc)


def always_ok(ctx, b, blk, through):
    """Every path from blk to a return that is not an error passes one of the blocks."""
    fb = set(fail_blocks(ctx, b))
    seen, st = set(), [blk]
    while st:
        x = st.pop()
        if x in seen or x in through or x in fb:
            continue
        seen.add(x)
        if x in b.returns():
            return False
        st.extend(b.succs(x))
    return True


def _adds(ctx, b, rv, blk, si, depth=4):
    """Constants added in the computation of an rvalue."""
    out = []
    if rv[0] in ("bin", "cbin", "binop", "op") and depth:
        if "Add" in str(rv[1]):
            for o in rv[2:]:
                if isinstance(o, list) and o and o[0] == "k" or isinstance(o, list) and o and o[0] not in ("c", "m"):
                    t = ctx.V.operand(b, o, blk, si)
                    if t.k == "c" and isinstance(t.a[0], int):
                        out.append(t.a[0])
    if rv[0] == "use" and rv[1][0] in "cm" and depth:
        for d in ctx.V.rdefs(b, rv[1][1][0], blk, si):
            if d != "entry" and d[3][0] == "rv":
                out += _adds(ctx, b, d[3][1], d[0], d[1], depth - 1)
    return out


def run(ctx):
    P, V = ctx.P, ctx.V
    n = fresh = 0
    for name in ("LocalStage", "RemoteStage"):
        for b, blk, si, t in ctx.aggs(name):
            if b.file == "src/stage.rs":
                continue          # display only: the head stage gets a number to be printed
            n += 1
            q, s = field(t, "query_id"), field(t, "num")
            w, k = ctx.where(b, blk), f"{last(V.root(b).path)}:{name}"
            qb, sb = copied(q, ("query_id",)), copied(s, ("num", "stage_id"))
            if qb is not None and sb is not None and contains_proto(q):
                continue
            if all(y.k == "call" and last(y.a[0]) == "from_slice" for y in alts(q)):
                continue          # decoded: C12
            # the query id
            if qb is not None and all(z.k == "p" or True for z in qb):
                okq = True
                kind = "copied"
            elif all(v4(y) for y in alts(q)):
                okq, kind = all(drawn_once(ctx, y) for y in alts(q)), "fresh"
                fresh += 1
            elif all(y.k == "call" and last(y.a[0].split("@")[0]) == "nil" for y in alts(q)):
                okq, kind = True, "nil"
            else:
                okq, kind = False, "?"
            ctx.ob(f"{k}:query", okq, f"the query id must be that of an existing stage or plan, or drawn once per plan: {show(q)[:200]}", w)
            # the number
            if kind == "nil":
                ctx.ob(f"{k}:unprepared", s is c(0), f"an exchange that was not prepared has no number: {show(s)[:100]}", w)
                continue
            if sb is not None:
                if kind == "copied":
                    ctx.ob(f"{k}:same-stage", stem(qb) == stem(sb), f"query id and number must be those of one stage: {show(q)[:150]} / {show(s)[:150]}", w)
                if name == "LocalStage":
                    pl = field(t, "plan")
                    st = stem(sb)
                    own = any(contains(y, lambda z: z in st) for y in alts(pl)) or bool(params(pl))
                    ctx.ob(f"{k}:own-plan", own, f"the plan below the exchange must be that of the stage whose number it has: {show(pl)[:200]}", w)
                continue
            okn = True
            for y in alts(s):
                if y.k == "call" and last(y.a[0]) == "fetch_add" and len(y.a) > 3:
                    okn &= y.a[3].k == "c" and isinstance(y.a[3].a[0], int) and y.a[3].a[0] >= 1
                elif y.k == "call" and last(y.a[0]) == "add" and len(y.a) > 3:
                    okn &= y.a[3] is c(1)
                elif y.k == "call" and last(y.a[0]) in ("replace", "swap") and len(y.a) > 3:
                    okn &= all(z.k == "sum" and any(not fs and k >= 1 for k, fs in z.a[0]) for z in alts(y.a[3]))
                else:
                    okn = False
            if not okn:
                o = operand_of(b, blk, si, "num")
                okn = o is not None and advances(ctx, b, blk, si, o)
            ctx.ob(f"{k}:number", okn, f"the number must come from a counter that advances every time it is used: {show(s)[:200]}", w)
    ctx.floor("constructions of stages", n, 6)
    ctx.floor("stages with a fresh query id", fresh)
    keys = 0
    for nm in sorted({last(a) for a, d in P.adts.items() if a in P.own_adts} if hasattr(P, "own_adts") else ("StageCoordinator", "TaskKey", "StageKey")):
        for b, blk, si, t in ctx.aggs(nm):
            if not {"query_id"} <= set(t.a[2]) or not set(t.a[2]) & {"stage_id", "num"}:
                continue
            q, s = field(t, "query_id"), field(t, "stage_id" if "stage_id" in t.a[2] else "num")
            while q.k == "call" and last(q.a[0]) not in ("query_id",) and len(q.a) == 3:
                q = q.a[2]
            qb, sb = copied(q, ("query_id",)), copied(s, ("num", "stage_id"))
            keys += 1
            ctx.ob(f"{last(V.root(b).path)}:{nm}:same-stage", qb is not None and sb is not None and stem(qb) == stem(sb), f"query id and number must be those of one stage: {show(q)[:150]} / {show(s)[:150]}", ctx.where(b, blk))
    ctx.floor("keys of stages and tasks", keys, 3)
    # ids of plans that are distributed while they run
    for b, blk, si, t in ctx.aggs("InjectNetworkBoundaryContext"):
        q = field(t, "query_id")
        ctx.ob(f"{last(V.root(b).path)}:context-query", all(v4(y) and drawn_once(ctx, y) for y in alts(q)), f"a plan gets its own query id when exchanges are added to it: {show(q)[:150]}", ctx.where(b, blk))
        sid = field(t, "stage_id")
        ctx.ob(f"{last(V.root(b).path)}:context-counter", all(y.k == "call" and last(y.a[0].split("@")[0]) == "new" for y in alts(sid)), f"a plan gets its own counter of stages: {show(sid)[:150]}", ctx.where(b, blk))
    # ---- executions
    execs = [b for b in ctx.method("ExecutionPlan", "execute") if "DistributedExec" in b.path]
    ctx.floor("executions of distributed plans", len(execs))
    for e in execs:
        tr = ctx.tree(e)
        disp = []
        for b in tr:
            for blk, t in b.calls():
                nm = callee_name(t) or ""
                bb = P.bodies.get(nm)
                if bb is not None and not bb.skip and any("QueryCoordinator" in P.ty_s(bb.ty(i)) for i in range(1, bb.argc + 1)) and any("ExecutionPlan" in P.ty_s(bb.ty(i)) for i in range(1, bb.argc + 1)):
                    i = next(i for i in range(1, bb.argc + 1) if "ExecutionPlan" in P.ty_s(bb.ty(i)))
                    disp.append((b, blk, V.arg(b, blk, t, i - 1), nm))
        ctx.floor("plans handed to preparation", len(disp))
        for b, blk, x, nm in disp:
            k = f"execute:{last(nm)}"
            static = not any(y.path.split("::")[-1] in ("inject_network_boundaries",) for y in ctx.closure([P.bodies[nm]]))
            if not static:
                continue
            for y in alts(x):
                if y.k == "E":
                    continue
                if y.k == "f" and y.a[1] in ("base_plan", "plan"):
                    ok = first_time(ctx, e, y)
                    ctx.ob(f"{k}:first", ok, "the plan may be executed under the id it was planned with only if an atomic flag shared by all its executions says that it never was", ctx.where(b, blk))
                else:
                    ok = contains_fresh(ctx, y)
                    ctx.ob(f"{k}:fresh", ok, f"any other execution must get a fresh query id: {show(y)[:200]}", ctx.where(b, blk))
    # the flag is shared by plans rebuilt from this one
    for b, blk, si, t in ctx.aggs("DistributedExec"):
        if b.trait and "ExecutionPlan" in str(b.trait):
            for nm, v in zip(t.a[2], t.a[3:]):
                if "Atomic" in fieldty(P, t, nm):
                    ctx.ob(f"flag:{last(b.path)}", all(y.k == "f" and y.a[1] == nm for y in alts(v)), f"a plan rebuilt from another shares what tells whether it was executed: {show(v)[:120]}", ctx.where(b, blk))


def fieldty(P, t, nm):
    ad = P.adts.get(t.a[0])
    for v in ad["variants"] if ad else []:
        for n, ty in v["fields"]:
            if n == nm:
                return P.ty_s(ty)
    return ""


def contains_proto(q):
    return False


def operand_of(b, blk, si, name):
    st = b.blocks[blk][0][si]
    rv = st[2]
    names = None
    for x in (rv[1][-1], rv[1][3] if len(rv[1]) > 3 else None):
        if isinstance(x, (list, tuple)) and name in x:
            names = list(x)
    if names is None:
        return None
    return rv[2][names.index(name)]


def contains_fresh(ctx, y):
    """A call of a local function that builds stages with a fresh query id."""
    P = ctx.P
    for z in walk(y):
        if z.k == "call" and z.a[0] in P.bodies or z.k == "clo" and z.a[0] in P.bodies:
            for b in ctx.closure([P.bodies[z.a[0]]]):
                for blk, si, st in b.assigns():
                    if st[2][0] == "agg" and st[2][1][0] == "adt" and str(st[2][1][1]).endswith("LocalStage"):
                        if all(v4(q) for q in alts(field(ctx.V.rvalue(b, st[2], blk, si), "query_id"))):
                            return True
        if v4(z):
            return True
    return False


def first_time(ctx, e, y):
    """The place where the planned plan itself is taken is guarded by swap(true) having returned false."""
    V = ctx.V
    sites = []
    for b in ctx.tree(e):
        for blk, t in b.calls():
            if last(callee_name(t) or "") == "clone" and t[2] and V.arg(b, blk, t, 0) is y:
                sites.append((b, blk))
    if not sites:
        return False
    for b, blk in sites:
        ok = False
        for f in ctx.facts(b, blk):
            x, truth = flag(f)
            if x is not None and x.k == "call" and last(x.a[0]) in ("swap", "fetch_or") and any(z is c(1) or z is c(True) for z in x.a[3:]) and truth is False:
                ok = True
            if x is not None and x.k == "call" and last(x.a[0]) in ("compare_exchange",) and x.a[3:5] in ((c(0), c(1)), (c(False), c(True))):
                ok = True
        if not ok:
            return False
    return True


def flag(f):
    """(term, truth value) of a fact about a boolean."""
    if f.k == "un" and f.a[0] == "Not":
        return f.a[1], False
    if f.k == "isv":
        return f.a[0], None
    return f, True
