"""End markers. Work units: the coordinator's end marker is sent by the destructor of a guard on every path of it; the guard exists before
the first suspension or return of the task that feeds and lives across all its suspensions; every dispatched task gets such a feeding
task. On the marker the worker gives up all senders of the feeds before it reads the next message, and nobody else keeps one. Load
reports: the stream is the reports followed by exactly one marker, the reporter is gone when the sampled stream is handed out (it does
not wait for the data), and on the marker the coordinator gives up its sender."""
from ..core import *

TECHNIQUE = "must-pass and liveness analysis of guard values over compiler MIR (drop points against suspension points); def-use provenance of the report stream"
NOTE = "Channels close when all their senders are dropped (tokio); destructors run when a task is aborted."


def named(y, *names):
    return y.k == "call" and last(y.a[0]) in names


def variant_sites(ctx, adt, variant):
    out = []
    for b in ctx.P.own:
        if "/grpc/" in b.file:
            continue
        for blk, si, a in b.assigns():
            rv = a[2]
            if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1].endswith(adt) and rv[1][2] == variant:
                out.append((b, blk, a[1][0]))
    return out


def guard(ctx):
    P, V = ctx.P, ctx.V
    sites = variant_sites(ctx, "worker_channel::CoordinatorToWorkerMsg", "WorkUnitEos")
    ctx.floor("end markers of work units", len(sites))
    drops = []
    for b, blk, local in sites:
        sends = [k for k, t in b.calls() if last(callee_name(t) or "") == "send" and contains(V.arg(b, k, t, 1), lambda z: z.k == "agg" and z.a[1] == "WorkUnitEos")]
        roots = [b] + [r for r in ctx.users(b)]
        d = [r for r in roots if r.path.endswith("Drop>::drop")]
        ctx.ob("eos:destructor", bool(d), "the end marker of the work units must be sent by a destructor, so that it is sent however the feeding ends", ctx.where(b, blk))
        for r in d:
            through = set(sends) if r is b else {k for k, t in r.calls() if callee_name(t) == b.path}
            ok, path = ctx.must_pass(r, 0, through)
            ctx.ob("eos:always", ok and bool(through) and (r is b or ctx.must_pass(b, 0, sends)[0]), "the guard can be dropped without sending the end marker", ctx.where(r, path[-1] if path else None))
            drops.append(r)
    guards = {re.match(r"<(.*?)(<.*>)? as ", r.path).group(1).split("::")[-1] for r in drops}
    makers = []
    for b in P.own:
        for blk, si, a in b.assigns():
            rv = a[2]
            if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1].split("::")[-1] in guards:
                makers.append((b, blk, a[1][0]))
    ctx.floor("guards that send the end marker", len(makers))
    feeders = []
    for b, blk, local in makers:
        ys = yields(b)
        if b.coroutine:
            ok, path = ctx.must_pass(b, 0, {blk}, ys | set(b.returns()))
            ctx.ob("guard:first", ok, "the task can suspend or end before its guard exists, and would then end without the end marker", ctx.where(b, path[-1] if path else blk))
            late = [y for r in released(b, local) for y in ys & set(b.reach_from(r))]
            ctx.ob("guard:lives", not late, "the guard is released while the task still has to wait for the feeds: the end marker would overtake the work units", ctx.where(b, late[0] if late else blk))
            ctx.ob("guard:feeds", bool(ys), "the guard's task must wait for the feeds", ctx.where(b, blk))
            feeders.append(b)
            starts(ctx, b)
        else:
            # made outside and moved into the task that feeds
            task = [q for q in P.own if q.coroutine and V.root(q) is V.root(b)]
            feeders += task[:1]
            bad = released(b, local)
            moved = [k for k, t in b.calls() if k in bad]
            ctx.ob("guard:moved", bool(moved) or any(q for q in task), "the guard must be owned by the task that feeds", ctx.where(b, blk))
    # the batches are sent by what the guard's task waits for
    n = 0
    for b in P.own:
        if "/grpc/" in b.file:
            continue
        for blk, t in b.calls():
            if last(callee_name(t) or "") == "send" and len(t[2]) == 2 and t[2][1][0] in ("m", "c") and "worker_channel::CoordinatorToWorkerMsg" in P.ty_s(b.ty(t[2][1][1][0])):
                if all(y.k == "agg" and y.a[1] == "WorkUnitEos" for y in alts(V.arg(b, blk, t, 1))):
                    continue
                n += 1
                ok = b.coroutine is not None and any(V.root(b) is V.root(f) for f in feeders) or any(V.root(f) in ctx.users(b) for f in feeders)
                ctx.ob("guard:batches", ok, "work units are sent by something the end marker does not wait for", ctx.where(b, blk))
                spawned(ctx, b, feeders)
    ctx.floor("sends of work units", n)
    dispatch(ctx, feeders)


def starts(ctx, task):
    """Whoever makes the task that feeds starts it, unless it fails."""
    P = ctx.P
    for b in P.own:
        made = {blk for blk, si, a in b.assigns() if a[2][0] == "agg" and a[2][1][0] in ("coroutine", "closure") and a[2][1][1] == task.path}
        if made and b is not task:
            ok, path = ctx.must_pass(b, 0, made | set(fail_blocks(ctx, b)), set(b.returns()))
            ctx.ob("guard:started", ok, "the task that ends the work units is not started", ctx.where(b, path[-1] if path else None))


def spawned(ctx, b, feeders):
    """The sending future is not detached from the guard's task."""
    for q in ctx.P.own:
        for blk, t in q.calls():
            if last(callee_name(t) or "") in ("spawn", "spawn_local", "spawn_on") and t[2]:
                for i in range(len(t[2])):
                    y = ctx.V.arg(q, blk, t, i)
                    if any(z.k == "clo" and z.a[0] == b.path for z in alts(y)):
                        ctx.ob("guard:detached", b in feeders, "work units are sent by a task of its own: the end marker does not wait for it", ctx.where(q, blk))


def dispatch(ctx, feeders):
    """Every dispatched task is fed."""
    P, V = ctx.P, ctx.V
    names = {V.root(f).path for f in feeders}
    makers = {b.path for b in P.own if any(a[2][0] == "agg" and a[2][1][0] == "adt" and a[2][1][1].endswith("::SetPlanRequest") for _, _, a in b.assigns()) and "/grpc/" not in b.file}
    makers = {V.root(P.bodies[p]).path for p in makers}
    n = 0
    for b in P.own:
        for blk, t in b.calls():
            if callee_name(t) in makers:
                n += 1
                through = {k for k, u in b.calls() if callee_name(u) in names}
                # calls of helpers that feed
                for k, u in b.calls():
                    h = P.bodies.get(callee_name(u) or "")
                    if h is not None and any(nm in ctx.callees(h) for nm in names) and always(ctx, h, {j for j, w in h.calls() if callee_name(w) in names}):
                        through.add(k)
                fails = set(fail_blocks(ctx, b))
                loops = [h for h, s in V.loops(b).items() if blk in s]
                ok, path = ctx.must_pass(b, blk, through | fails, set(b.returns()) | set(loops))
                if not through and ctx.users(b):
                    # the pair is returned to callers that feed
                    ok = all(any(callee_name(u) in names for _, u in r.calls()) for r in ctx.users(b))
                ctx.ob("dispatch:fed", ok, "a task is dispatched without the task that feeds and ends its work units", ctx.where(b, path[-1] if path else blk))
    ctx.floor("dispatches", n)


def giving_up(b, P, ty):
    """Blocks that give up a value whose type mentions `ty` (take, clear, drop, replace, assignment)."""
    out = set()
    for blk, t in b.calls():
        n = callee_name(t) or ""
        if last(n) in ("take", "clear", "drop", "replace", "drain", "close_channel", "into_iter", "into_values") and t[2] and t[2][0][0] in ("m", "c") and ty(P.ty_s(b.ty(t[2][0][1][0]))):
            out.add(blk)
    for i, x in enumerate(b.blocks):
        if x[1][0] == "drop" and ty(P.ty_s(b.ty(x[1][1][0]))) and not x[1][1][1]:
            out.add(i)
    out |= gone(b, P, ty)
    for blk, si, a in b.assigns():
        if a[2][0] == "agg" and a[2][1][0] == "adt" and a[2][1][2] == "None" and ty(P.ty_s(b.ty(a[1][0]))):
            out.add(blk)
    return out


def gone(b, P, ty):
    """Blocks entered when there is no such value any more."""
    tys = {}
    for blk, si, a in b.assigns():
        if a[2][0] == "discr" and not a[1][1]:
            s = P.ty_s(a[2][2]).replace("&mut ", "").replace("&", "").replace("core::option::Option<core::option", "core::option")
            if s.startswith("core::option::Option<") and ty(s):
                tys[a[1][0]] = a[2][1]
    out = set()
    for i, x in enumerate(b.blocks):
        t = x[1]
        if t[0] == "switch" and t[1][0] in ("m", "c") and t[1][1][0] in tys and not t[1][1][1]:
            vs = dict((v, k) for v, k in t[2])
            out.add(vs[0] if 0 in vs else t[3])
    return out


def next_calls(b):
    return {k for k, t in b.calls() if last(callee_name(t) or "") in ("next", "try_next", "recv", "next_some") and not (callee_name(t) or "").startswith("<") or re.search(r"(StreamExt::next|TryStreamExt::try_next|Receiver<.*>::recv)$", callee_name(t) or "")}


def marker_arm(ctx, adt, variant, ty, what):
    P, V = ctx.P, ctx.V
    n = 0
    for b in P.own:
        if "/grpc/" in b.file or b.skip:
            continue
        for sw, tgt in arms(ctx, b, adt, variant):
            if b.path.split("::{")[0].endswith(("::fmt", "::clone", "::eq", "::send_time")):
                continue
            gv = giving_up(b, P, ty)
            helpers = set()
            for k, t in b.calls():
                q = P.bodies.get(callee_name(t) or "")
                if q is not None and any(o[0] in ("m", "c") and ty(P.ty_s(b.ty(o[1][0])).replace("&mut ", "")) for o in t[2]):
                    g = giving_up(q, P, lambda s: True)
                    if g and ctx.must_pass(q, 0, g, set(q.returns()))[0]:
                        helpers.add(k)
            if not any(ty(P.ty_s(b.ty(l))) for l in range(len(b.locals))) and not helpers:
                continue
            n += 1
            dst = (next_calls(b) | set(b.returns())) - gv
            ok, path = ctx.must_pass(b, tgt, gv | helpers, dst)
            ctx.ob(f"{what}:closed", ok, f"on the end marker the {what} are not closed before the next message is read", ctx.where(b, path[-1] if path else tgt))
    ctx.floor(f"places that handle the end of the {what}", n)


def worker(ctx):
    P, V = ctx.P, ctx.V
    wu = lambda s: "mpsc" in s and "Sender<" in s and "WorkUnitMsg" in s and ("HashMap<" in s or "Map<" in s or "Vec<" in s or "Option<" in s) and not s.startswith(("&tokio", "core::option::Option<&", "core::result"))
    marker_arm(ctx, "worker_channel::CoordinatorToWorkerMsg", "WorkUnitEos", wu, "work unit feeds")
    # nobody else keeps a sender of a feed
    n = 0
    for b in P.own:
        for blk, t in b.calls():
            nm = callee_name(t) or ""
            if re.search(r"core::clone::Clone(>|)::clone$", nm) and t[2][0][0] in ("m", "c") and re.search(r"mpsc.*Sender<.*WorkUnitMsg", P.ty_s(b.ty(t[2][0][1][0]))):
                ctx.bad("feeds:cloned", "a sender of a feed is cloned, so the feed does not end when the worker gives its senders up", ctx.where(b, blk))
            if re.search(r"mpsc::.*channel$", nm) and "WorkUnitMsg" in P.ty_s(b.ty(t[3][0] if isinstance(t[3], list) else t[2][0])):
                n += 1
    # whatever ends the task ends the feeds: the senders are owned by the body that reads the channel
    owners = 0
    for b in P.own:
        if "/grpc/" in b.file or not arms(ctx, b, "worker_channel::CoordinatorToWorkerMsg", "WorkUnitBatch"):
            continue
        ls = [l for l in range(len(b.locals)) if wu(P.ty_s(b.ty(l)))]
        if not ls:
            continue
        owners += 1
    ctx.floor("bodies that distribute work units", owners)


def load_reports(ctx):
    P, V = ctx.P, ctx.V
    sites = variant_sites(ctx, "worker_channel::WorkerToCoordinatorMsg", "LoadInfoEos")
    ctx.floor("end markers of load reports", len(sites))
    ctx.ob("load:one-marker", len(sites) == 1, f"the end marker of the load reports is made at one place: {len(sites)}", ctx.where(sites[0][0], sites[0][1]) if sites else None)
    n = 0
    for b in P.own:
        if "/grpc/" in b.file or b.skip or not (b.coroutine or b.kind != "Closure"):
            continue
        if "WorkerToCoordinatorMsg" not in P.ty_s(b.ty(0)) or not ("Stream" in P.ty_s(b.ty(0))):
            continue
        r = V.ret(b.path)
        for y in alts(r):
            if y.k in ("E", "never") or not any(q for q in sites if q[0] is b or V.root(q[0]) is V.root(b) or V.root(q[0]) in [V.root(P.bodies[p]) for p in ctx.closure([b]) if p in P.bodies]):
                continue
            if y.k == "clo":
                continue
            n += 1
            chains = {z for z in walk(y) if named(z, "chain") and contains(z, lambda w: w.k == "agg" and w.a[1] == "LoadInfoEos")}
            ok = len(chains) == 1
            ctx.ob("load:chained", ok, f"the load reports of a task are followed by their end marker: {show(y)[:300]}", ctx.where(b))
            for z in chains:
                first, then = z.a[2], z.a[3]
                ctx.ob("load:last", contains(first, lambda w: w.k == "agg" and w.a[1] == "LoadInfo") and not contains(first, lambda w: w.k == "agg" and w.a[1] == "LoadInfoEos"), f"the marker comes after the reports: {show(z)[:250]}", ctx.where(b))
                one = then.k == "tuple" and len(then.a) == 1 or named(then, "once", "ready", "iter") or then.k not in ("coll",)
                ctx.ob("load:once", one, f"the marker is sent once: {show(then)[:200]}", ctx.where(b))
                cut = [w for w in walk(y) if named(w, "take", "take_while", "take_until", "select_early", "skip", "skip_while", "zip", "cycle") and contains(w, lambda v: v is z)]
                ctx.ob("load:uncut", not cut, f"the stream must not end before the marker: {show(cut[0])[:200] if cut else ''}", ctx.where(b))
    ctx.floor("report streams", n)
    lt = lambda s: "Sender<" in s and "LoadInfo" in s and not s.startswith("&")
    marker_arm(ctx, "worker_channel::WorkerToCoordinatorMsg", "LoadInfoEos", lambda s: "Sender<" in s and "::LoadInfo>" in s and "Option<" in s or lt(s), "load reports")
    reporter(ctx)


def reporter(ctx):
    """One report per sampled partition, made without waiting for the data."""
    P, V = ctx.P, ctx.V
    drops = [b for b in P.own if b.path.endswith("Drop>::drop") and any("oneshot" in (callee_name(t) or "") and last(callee_name(t)) == "send" and "LoadInfo" in P.ty_s(b.ty(t[2][0][1][0])) for _, t in b.calls() if t[2] and t[2][0][0] in ("m", "c"))]
    ctx.floor("reporters", len(drops))
    names = {re.match(r"<(.*?)(<.*>)? as ", r.path).group(1).split("::")[-1] for r in drops}
    n = 0
    for b in P.own:
        if not b.coroutine:
            continue
        # the task that samples: it owns a reporter
        caps = [l for l in range(len(b.locals)) if P.ty_s(b.ty(l)).split("::")[-1] in names]
        uses = any(contains_cap(b, nm) for nm in names)
        if not caps and not uses:
            continue
        n += 1
        r = V.ret(b.path)
        held = [z for y in alts(r) if y.k != "E" for z in walk(y) if z.k == "agg" and z.a[0].split("::")[-1] in names]
        held = held or [q for q in P.own if q.path.startswith(b.path + "::{") and any(P.ty_s(q.ty(l)).split("::")[-1] in names for l in range(len(q.locals)))]
        ctx.ob("report:released", not held, f"the sampled stream keeps the reporter, so the report waits until the data was read", ctx.where(b))
        lps = V.loops(b)
        bad = [k for k in next_calls(b) if (callee_name(b.blocks[k][1]) or "").startswith("futures") and any(k in s for s in lps.values())]
        ctx.ob("report:no-wait", not bad, "the report waits for more than the data that is ready", ctx.where(b, bad[0] if bad else None))
    ctx.floor("sampling tasks", n)
    for b in P.own:
        for blk, t in b.calls():
            if last(callee_name(t) or "") == "kick_off" and b.path.split("::{")[0].endswith("kick_off_first_sampler"):
                lp = [s for s in V.loops(b).values() if blk in s]
                ok = bool(lp)
                ctx.ob("report:every-partition", ok, "every partition of the sampler reports", ctx.where(b, blk))


def contains_cap(b, name):
    return any(name in str(x) for x in b.blocks)


def run(ctx):
    guard(ctx)
    worker(ctx)
    load_reports(ctx)
