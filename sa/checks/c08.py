"""Ending a query. The task that runs a distributed query makes the guard that announces its end before anything can fail or be suspended,
keeps it while the result stream is read, and is itself owned by the stream it returns; the guard announces, whenever it is dropped, to
everyone that waits on the same notification. The request side of every worker's channel ends with a wait that is registered when the
channel is made, before any task of the query runs. After the last row all background work of the query is joined and its failures are
returned. On the worker, the entry of a task is removed however the coordinator's messages end."""
from ..core import *

TECHNIQUE = "ownership and must-pass analysis over compiler MIR: creation, moves and drops of the guard; effects of Drop; provenance of the notification; where waits are registered"
NOTE = "tokio: a Notified future is woken by notify_waiters called after it was made; dropping a JoinSet aborts its tasks; DataFusion: dropping the stream of a RecordBatchReceiverStreamBuilder aborts its tasks."

OWNED = r"RecordBatchReceiverStreamBuilder(<.*>)?::spawn|ReceiverStreamBuilder(<.*>)?::spawn|JoinSet<.*>::spawn|SpawnedTask<.*>::spawn"


def named(y, *names):
    return y.k == "call" and last(y.a[0]) in names


def announcers(ctx):
    """types whose Drop announces to all waiters -> (drop body, field)"""
    P, V = ctx.P, ctx.V
    out = {}
    for b in P.own:
        if b.skip or not b.path.endswith("Drop>::drop"):
            continue
        for k, t in b.calls():
            if re.search(r"Notify::notify_(waiters|one|last)$", callee_name(t) or ""):
                y = V.arg(b, k, t, 0)
                if y.k == "f" and y.a[0].k == "p" and not any(re.search(r"shrink$", callee_name(u) or "") for _, u in b.calls()):
                    ctx.ob("end:everyone", last(callee_name(t)) == "notify_waiters", "the end of a query is announced to one waiter only", ctx.where(b, k))
                    ctx.ob("end:always", always(ctx, b, k), "the guard can be dropped without announcing the end of the query", ctx.where(b, k))
                    out[b.self_ty] = (b, y.a[1])
    ctx.floor("guards that announce the end of a query", len(out))
    return out


def drops_of(b, l):
    """Blocks at which the value in local l, or where it was moved to, is dropped."""
    S, out, ch = {l}, set(), True
    while ch:
        ch = False
        for x, si, st in b.assigns():
            if st[2][0] == "use" and st[2][1][0] == "m" and st[2][1][1][0] in S and not st[2][1][1][1] and st[1][0] not in S:
                S.add(st[1][0])
                ch = True
    for x in range(len(b.blocks)):
        t = b.blocks[x][1]
        if t[0] == "drop" and t[1][0] in S and not t[1][1]:
            out.add(x)
        if t[0] == "call" and any(o[0] == "m" and o[1][0] in S and not o[1][1] for o in t[2]):
            out.add(x)
    return S, out


def run(ctx):
    P, V = ctx.P, ctx.V
    gs = announcers(ctx)
    made = 0
    fields = set()
    for b in P.own:
        if b.skip or not b.coroutine:
            continue
        for k, t in b.calls():
            ty = P.ty_s(b.ty(t[3][0]))
            if ty in gs and not t[3][1]:
                made += 1
                guard(ctx, b, k, t[3][0])
                y = V.arg(b, k, t, 0) if t[2] else None
                f = P.bodies.get(callee_name(t) or "")
                r = V.ret(f.path) if f is not None else None
                if r is not None and r.k == "agg":
                    z = r.a[3]
                    fields.add(z.a[1] if z.k == "f" else show(z))
        for blk, si, a in b.assigns():
            if a[2][0] == "agg" and a[2][1][0] == "adt" and a[2][1][1] in gs and not a[1][1]:
                made += 1
                guard(ctx, b, blk, a[1][0])
                z = V.rvalue(b, a[2], blk, si).a[3]
                fields.add(z.a[1] if z.k == "f" else show(z))
    ctx.floor("guards made by the task of a query", made)
    waits(ctx, fields)
    drain(ctx)
    worker(ctx)


def guard(ctx, b, k, l):
    P, V = ctx.P, ctx.V
    # before anything can fail or be suspended
    ys = {x for x in range(len(b.blocks)) if b.blocks[x][1][0] == "yield"}
    for x in ys | set(b.returns()):
        ok, path = ctx.must_pass(b, 0, {k}, [x])
        ctx.ob("guard:first", ok, "the query can fail or be dropped before the guard that announces its end exists", ctx.where(b, x))
    S, ds = drops_of(b, l)
    reads = {x for x, t in b.calls() if re.search(r"StreamExt::next$|TryStreamExt::try_next$", callee_name(t) or "")}
    starts = {x for x, t in b.calls() if re.search(r"::prepare_\w+$|ExecutionPlan::execute$", callee_name(t) or "")}
    ctx.floor("reads of the result", len(reads))
    for d in ds:
        if last(callee_name(b.blocks[d][1]) or "") in ("forget", "leak") or "ManuallyDrop" in (callee_name(b.blocks[d][1]) or "") if b.blocks[d][1][0] == "call" else False:
            ctx.bad("guard:leaked", "the guard is leaked: the end of the query is never announced", ctx.where(b, d))
        late = [x for x in reads | starts if x in b.reach_from(d)]
        ctx.ob("guard:kept", not late, "the end of the query is announced while its result is still being produced", ctx.where(b, d))
    ctx.ob("guard:dropped", bool(ds), "the guard is never dropped", ctx.where(b, k))
    for q, blk, t, ai in V.closure_use(b.path):
        nm = callee_name(t) or ""
        ok = bool(re.search(OWNED, nm))
        ctx.ob("query:owned", ok, f"the task that runs a query is not owned by the stream it returns ({last(nm)}): dropping the stream does not end it", ctx.where(q, blk))
        if re.search(r"Builder(<.*>)?::spawn$", nm):
            y = V.arg(q, blk, t, 0)
            ctx.ob("query:returned", contains(V.ret(q.path), lambda z: z is y) or contains(V.ret(q.path), lambda z: named(z, "build")), "the stream that owns the task of the query is not the one that is returned", ctx.where(q, blk))


def waits(ctx, fields):
    """what keeps a worker's channel open"""
    P, V = ctx.P, ctx.V
    n = m = 0
    for b in P.own:
        if b.skip or "coordinator" not in b.file:
            continue
        for k, t in b.calls():
            if re.search(r"Notify::(notified|notified_owned)$", callee_name(t) or ""):
                n += 1
                ctx.ob("wait:registered", not b.coroutine and b.kind != "Closure" and always(ctx, b, k), "the wait for the end of the query is only registered once the channel is polled: an end announced before is missed", ctx.where(b, k))
                y = ctx.lift(V.arg(b, k, t, 0))
                ctx.ob("wait:same", bool(fields) and (y.k == "f" and y.a[1] in fields), f"the wait is for the announcement the guard makes: {show(y)[:80]}", ctx.where(b, k))
                spawned = spawned_callers(ctx, b)
                for q, blk in spawned:
                    ctx.bad("wait:early", "the wait for the end of the query is registered by a task that may start after the end was announced", ctx.where(q, blk))
        for k, t in b.calls():
            if last(callee_name(t) or "") == "coordinator_channel":
                m += 1
                for i in range(len(t[2])):
                    if "tream" in P.ty_s(b.ty(t[2][i][1][0])) if t[2][i][0] in "mc" else False:
                        y = V.arg(b, k, t, i)
                        if not contains(y, lambda z: named(z, "unbounded_channel", "channel")):
                            continue
                        ctx.ob("channel:open", contains(y, lambda z: named(z, "notified_owned", "notified")), f"a worker's channel does not stay open until the query ends: {show(y)[:160]}", ctx.where(b, k))
                        cut = [z for z in walk(y) if named(z, "take_until", "take", "take_while", "timeout")]
                        ctx.ob("channel:whole", not cut, "a worker's channel can be closed before the query ends", ctx.where(b, k))
    ctx.floor("waits for the end of a query", n)
    ctx.floor("channels to workers", m)


def spawned_callers(ctx, b, depth=4):
    out = []
    seen = {b.path}
    st = [(b, depth)]
    while st:
        f, d = st.pop()
        for q, blk, u in ctx.call_sites(f):
            if q.coroutine and any(re.search(r"spawn", callee_name(t) or "") for _, _, t, _ in ctx.V.closure_use(q.path)) and "query_coordinator" in q.file:
                out.append((q, blk))
            if d and q.path not in seen and "query_coordinator" in q.file:
                seen.add(q.path)
                st.append((q, d - 1))
    return out


def drain(ctx):
    P, V = ctx.P, ctx.V
    n = 0
    for b in P.own:
        if b.skip or "coordinator" not in b.file:
            continue
        for k, t in b.calls():
            if re.search(r"JoinSet<.*>::(join_all|join_next)$", callee_name(t) or ""):
                n += 1
                ctx.ob("drain:failures", bool(errors(ctx, b, k)), "a failure of the query's background work is not returned", ctx.where(b, k))
                if last(callee_name(t)) == "join_next":
                    none = emptied(ctx, b, t[3][0])
                    ok, path = ctx.must_pass(b, k, none | fail_blocks(ctx, b))
                    ctx.ob("drain:all", ok and bool(none), "only some of the query's background work is joined", ctx.where(b, k))
            if re.search(r"JoinSet<.*>::(detach_all|abort_all)$", callee_name(t) or ""):
                ctx.bad("drain:detached", "background work of the query is let go of", ctx.where(b, k))
    ctx.floor("joins of background work", n)
    # the task of the query joins before it reports success
    m = 0
    for b in P.own:
        if b.skip or not b.coroutine or "coordinator" not in b.file:
            continue
        reads = {x for x, t in b.calls() if re.search(r"StreamExt::next$|TryStreamExt::try_next$", callee_name(t) or "") and contains(V.arg(b, x, t, 0), lambda z: named(z, "execute") and "ExecutionPlan" in z.a[0])}
        if not reads:
            continue
        m += 1
        joins = {k for k, t in b.calls() if joins_all(ctx, callee_name(t) or "")}
        for k in reads:
            ok, path = ctx.must_pass(b, k, joins | fail_blocks(ctx, b))
            ctx.ob("drain:joined", ok and bool(joins), "the query can be reported as finished without joining its background work", ctx.where(b, k))
        for k in joins:
            ctx.ob("drain:reported", bool(errors(ctx, b, k)), "a failure of the query's background work is not reported to its reader", ctx.where(b, k))
    ctx.floor("tasks that run a query", m)


def errors(ctx, b, k):
    """blocks after the call at k that return an error, or what the call gave"""
    return [d[0] for d in b.defs().get(0, []) if not d[2] and b.dominates(k, d[0]) and (any(y.k == "E" for y in alts(ctx.V.rhs(b, d, 0))) or "res" in kinds(ctx, b, k, d))]


def kinds(ctx, b, k, d):
    """the future's own result is what is returned"""
    S = gives(b, b.blocks[k][1][3][0])
    r = d[3]
    os = r[1][2] if r[0] == "call" else ops(r[1]) if r[0] == "rv" else []
    return {"res"} if any(o_local(o) in S for o in os) and ctx.P.ty_s(b.ty(0)).startswith("core::result::Result") and not (r[0] == "rv" and r[1][0] == "agg") else set()


def gives(b, l):
    """locals that hold the future in l, or what awaiting it gave"""
    S, ch = {l}, True
    while ch:
        ch = False
        for x, si, st in b.assigns():
            if st[1][0] not in S and any(o_local(o) in S for o in ops(st[2])):
                S.add(st[1][0])
                ch = True
        for x, t in b.calls():
            if t[3][0] not in S and last(callee_name(t) or "") in ("into_future", "new_unchecked", "poll") and t[2] and o_local(t[2][0]) in S:
                S.add(t[3][0])
                ch = True
    return S


def emptied(ctx, b, l):
    """blocks entered when joining gave None"""
    S, out = gives(b, l), set()
    dis = {}
    for x, si, a in b.assigns():
        if a[2][0] == "discr" and a[2][1][0] in S and ctx.P.ty_s(a[2][2]).startswith("core::option::Option<"):
            dis[a[1][0]] = x
    for x in range(len(b.blocks)):
        t = b.blocks[x][1]
        if t[0] == "switch" and o_local(t[1]) in dis:
            m = dict((v, g) for v, g in t[2])
            out.add(m.get(0, t[3]))
    return out


def joins_all(ctx, name, depth=2):
    if re.search(r"JoinSet<.*>::(join_all|join_next)$", name):
        return True
    for p in (name, name + "::{closure#0}"):
        q = ctx.P.bodies.get(p)
        if q is not None and depth and not q.skip and any(joins_all(ctx, callee_name(t) or "", depth - 1) for _, t in q.calls()):
            return True
    return False


def worker(ctx):
    """the worker forgets a task when the coordinator's messages end"""
    P, V = ctx.P, ctx.V
    n = 0
    for b in P.own:
        if b.skip or "impl_coordinator_channel" not in b.file or not b.coroutine:
            continue
        reads = {k for k, t in b.calls() if re.search(r"StreamExt::next$|TryStreamExt::try_next$", callee_name(t) or "")}
        if not reads:
            continue
        n += 1
        gone = {k for k, t in b.calls() if forgets(ctx, callee_name(t) or "")}
        ok, path = ctx.must_pass(b, 0, gone)
        ctx.ob("worker:forgets", ok and bool(gone), "the worker can keep the entry of a task whose query has ended", ctx.where(b, path[-1] if path else 0))
        for q, blk, t, ai in V.closure_use(b.path):
            ctx.ob("worker:runs", "spawn" in (callee_name(t) or ""), "the coordinator's messages are not read by a task of their own", ctx.where(q, blk))
    ctx.floor("tasks that read the coordinator's messages", n)


def forgets(ctx, name, depth=2):
    if re.search(r"Cache<.*>::(invalidate|remove)$", name):
        return True
    for p in (name, name + "::{closure#0}"):
        q = ctx.P.bodies.get(p)
        if q is not None and depth and not q.skip:
            ks = [k for k, t in q.calls() if forgets(ctx, callee_name(t) or "", depth - 1)]
            if ks and ctx.must_pass(q, 0, ks)[0]:
                return True
    return False
