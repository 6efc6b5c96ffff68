"""The way of a work unit. (1) The coordinator opens, for a node with P partitions in a task, the feed partitions t*P + i for i in 0..P and
tags what comes out of each with i and with the id of that feed, t being the index the plan walk gives to that node. (2) Tagging, batching
and merging keep every unit, its tag and the order of each feed. (3) The messages go to the task they were made for. (4) A worker sends a
unit to the channel registered under exactly its (id, partition); a unit without a channel does not stop the ones behind it; a channel
is registered for every declared partition, and the declared count is the node's P. (5) A reader of partition i of a feed reads the
channel (id, i), every unit of it, in order."""
from ..core import *
from ..arith import Arith, N, sym

TECHNIQUE = "symbolic normal forms (polynomials) of the feed indexes; def-use provenance of the tags, keys and collections over compiler MIR; loop-exit analysis"
NOTE = "For all task and partition counts, over mathematical integers. select_all, ready_chunks and tokio's channels keep the order of one sender; the user's provider and getter are trusted; feed ids are unique (uuid v4)."

GOOD = ("map", "ready_chunks", "select_all", "boxed", "into_iter", "iter", "enumerate", "collect", "new", "fuse", "boxed_local", "map_ok", "map_err", "inspect", "into_stream", "filter_map")


def named(y, *names):
    return y.k == "call" and last(y.a[0]) in names


def polys(ctx, b):
    """Polynomials over the terms themselves: every opaque term is a symbol."""
    table = {}

    def atom(t):
        if t.k in ("c", "sum", "op") or t.k == "call" and last(t.a[0]) in ("saturating_add", "saturating_mul", "wrapping_mul", "from", "into"):
            return None
        table[f"<{show(t)}>"] = t
        return sym(f"<{show(t)}>")
    return Arith(atom)


def feeds(ctx):
    P, V = ctx.P, ctx.V
    opened = []
    for b in P.own:
        if b.skip or (V.root(b).trait or "").endswith("ErasedWorkUnitFeed"):
            continue
        for blk, t in b.calls():
            if (callee_name(t) or "").endswith("ErasedWorkUnitFeed::feed"):
                opened.append((b, blk, t))
    ctx.floor("places that open feeds", len(opened))
    for b, blk, t in opened:
        who, idx = V.arg(b, blk, t, 0), V.arg(b, blk, t, 1)
        walkers = [q for q in ctx.tree(b) if q.kind == "Closure" and q.argc == 3 and (b is q or b.path.startswith(q.path + "::{")) and "DistributedTaskContext" in P.ty_s(q.ty(3))]
        ctx.ob("open:walk", len(walkers) == 1, "the feeds are opened inside the plan walk that narrows the task context", ctx.where(b, blk))
        if len(walkers) != 1:
            continue
        w = walkers[0]
        node, dt = mk("p", w.path, 2), mk("p", w.path, 3)
        node = next((z for z in walk(who) if z.k == "p" and z.a[0] == w.path and z.a[1] == 2), node)
        ar = polys(ctx, b)
        F = ar.poly(idx)
        ctx.ob("open:of-node", contains(who, lambda z: z is node), f"the feed that is opened is the one of the node visited: {show(who)[:200]}", ctx.where(b, blk))
        its = {z for z in walk(idx) if z.k == "idx"}
        if len(its) != 1 or F is None:
            ctx.bad("open:index", f"the feed index cannot be read: {show(idx)[:300]}", ctx.where(b, blk))
            continue
        it = its.pop()
        T = ar.poly(it)
        rng = it.a[0]
        if rng.k != "range":
            ctx.bad("open:range", f"the feeds opened are counted: {show(rng)[:200]}", ctx.where(b, blk))
            continue
        lo, hi = ar.poly(rng.a[0]), ar.poly(rng.a[1])
        pcs = [z for z in walk(idx) if named(z, "partition_count") and contains(z, lambda x: x is node)]
        ks = [z for z in walk(idx) if z.k == "f" and z.a[1] == "task_index"]
        ok = bool(pcs) and bool(ks)
        if ok:
            n, k = ar.poly(pcs[0]), ar.poly(ks[0])
            ctx.ob("open:count", None not in (hi, lo) and hi - lo == n, f"as many feeds as the node has partitions: {hi} - {lo}", ctx.where(b, blk))
            ctx.ob("open:index", T is not None and F - T == n * k, f"feed index = task * partitions + partition: {F}", ctx.where(b, blk))
            ctx.ob("open:task", all(z.a[0].k == "p" and z.a[0].a[0] == w.path and z.a[0].a[1] == 3 for z in ks), f"the task index is the one of the visited node (isolated branches count their own): {show(ks[0])[:100]}", ctx.where(b, blk))
        else:
            ctx.bad("open:index", f"the feed index is made of the node's partition count and its task index: {show(idx)[:300]}", ctx.where(b, blk))
        whole = each(ctx, b, blk)
        ctx.ob("open:every", whole is not None, "every feed of the task is opened", ctx.where(b, blk))
        tagging(ctx, w, b, blk, who, it)
        # how many tasks share it
        for q in ctx.tree(b):
            for k2, si, a in q.assigns():
                rv = a[2]
                if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1].endswith("DistributedWorkUnitFeedContext"):
                    y = V.rvalue(q, rv, k2, si)
                    z = field(y, "fan_out_tasks")
                    ctx.ob("open:fan-out", z is not None and z.k == "f" and z.a[1] == "task_count" and z.a[0].k == "p" and z.a[0].a[1] == 3, f"the provider is told the number of tasks its feeds are divided among: {show(y)[:150]}", ctx.where(q, k2))
    return opened


def tagging(ctx, w, b, blk, who, it):
    """What the batches are made of."""
    P, V = ctx.P, ctx.V
    sends = []
    for q in ctx.tree(b):
        for k, u in q.calls():
            n = callee_name(u) or ""
            if re.search(r"Sender<.*>::send$", n) and len(u[2]) == 2:
                sends.append((q, k, u))
    ctx.ob("send:site", bool(sends), "the batches are sent where the feeds are opened", ctx.where(b, blk))
    for q, k, u in sends:
        y = V.arg(q, k, u, 1)
        if contains(y, lambda z: z.k == "agg" and z.a[1] == "WorkUnitEos"):
            continue
        msgs = {z for z in walk(y) if z.k == "agg" and last(z.a[0]) == "WorkUnitMsg"}
        ctx.ob("send:message", len(msgs) == 1, f"what is sent is a batch of work units: {show(y)[:200]}", ctx.where(q, k))
        for m in msgs:
            i, p, body = field(m, "id"), field(m, "partition"), field(m, "body")
            ctx.ob("tag:id", named(i, "id") and i.a[2] is who, f"a unit carries the id of the feed it came from: {show(i)[:200]}", ctx.where(q, k))
            src = pairs(y, who)
            ctx.ob("tag:kept", src is not None, f"each unit keeps its tag through merging and batching: {show(p)[:160]} / {show(body)[:160]}", ctx.where(q, k))
            if src is not None:
                tag, el = src
                ctx.ob("tag:partition", tag is it, f"a unit carries the partition its feed was opened for: {show(tag)[:200]}", ctx.where(q, k))
        for z in walk(y):
            if z.k == "filtered":
                ctx.bad("send:filtered", f"work units are left out: {show(z)[:200]}", ctx.where(q, k))
            if z.k == "call" and re.search(r"(^|::)(StreamExt|TryStreamExt|Iterator|stream)\b.*::", "::" + z.a[0]) and last(z.a[0]) in ("take", "skip", "step_by", "rev", "take_while", "skip_while", "take_until", "buffer_unordered", "buffered", "zip", "scan", "cycle", "chunks_timeout", "filter", "filter_map", "dedup"):
                ctx.bad("send:reordered", f"work units are left out, repeated or reordered by {last(z.a[0])}", ctx.where(q, k))
        others = [f for f in ctx.facts(q, k) if f.k != "isv"]
        ctx.ob("send:condition", not others, f"a batch is sent only under a condition: {[show(f)[:160] for f in others]}", ctx.where(q, k))
        ctx.ob("send:each", all(closed_only(ctx, q, k, e) for e in leaves_early(ctx, q, k)), "a batch that was read is not sent", ctx.where(q, k))


def closed_only(ctx, q, k, e):
    """The loop is left because the channel is closed."""
    x, s = e
    for f in ctx.facts(q, s):
        if f.k == "isv" and named(f.a[0], "send") and (1 in f.a[1]) != f.a[2] or named(f, "is_err", "is_closed"):
            return True
        # the stream has ended
        if f.k == "isv" and f.a[0].k == "at" and f.a[0].a[1].k == "idx" and f.a[0].a[1].a[0] is f.a[0].a[0] and (f.a[1] == (1,) and f.a[2]):
            return True
    return False


def pairs(y, who):
    """(tag, element) of the tagged stream the batch is made of."""
    for z in walk(y):
        if z.k == "tup" and len(z.a) == 2 and contains(z.a[1], lambda x: named(x, "feed") and x.a[2] is who):
            return z.a[0], z.a[1]
    return None


def batch(ctx):
    """The batch builder keeps id, tag and body of every unit."""
    P, V = ctx.P, ctx.V
    n = 0
    for b, blk, si, y in ctx.aggs("WorkUnitMsg"):
        if "/grpc/" in b.file or "derive" in b.path:
            continue
        r = V.root(b)
        n += 1
        body, p = field(y, "body"), field(y, "partition")
        dec = [z for z in walk(body) if z.k == "agg" and z.a[1] == "Decoded"]
        ok = False
        for d in dec:
            el = d.a[3] if len(d.a) > 3 else None
            ok = p is not None and p.k in ("f", "at") and el is not None and el.k == p.k and el.a[0] is p.a[0] and str(p.a[1]) == "0" and str(el.a[1]) == "1"
        ctx.ob("batch:pair", ok, f"tag and body of a unit come from the same element: {show(p)[:120]} / {show(body)[:150]}", ctx.where(b, blk))
        for z in alts(V.ret(r.path)):
            if z.k in ("E", "err", "never"):
                continue
            cs = [x for x in walk(z) if x.k == "coll" and contains(x.a[0], lambda v: v.k == "agg" and last(v.a[0]) == "WorkUnitMsg")]
            ok = bool(cs) and all(x.a[1].k == "idx" and x.a[1].a[0].k == "p" for x in cs)
            ctx.ob("batch:all", ok, f"every unit of the chunk is in the batch: {show(z)[:250]}", ctx.where(r))
            ctx.ob("batch:id", all(field(m, "id").k == "p" for x in cs for m in walk(x.a[0]) if m.k == "agg" and last(m.a[0]) == "WorkUnitMsg"), "the id is the one given", ctx.where(r))
    ctx.floor("builders of work units", n)


def dispatch(ctx):
    """Plan and work units of one index go to one worker."""
    P, V = ctx.P, ctx.V
    n = 0
    for b in P.own:
        plans = [(k, t) for k, t in b.calls() if (callee_name(t) or "").endswith("::send_plan_task")]
        for blk, t in b.calls():
            if not (callee_name(t) or "").endswith("::coordinator_to_worker_task"):
                continue
            n += 1
            i, tx = V.arg(b, blk, t, 1), V.arg(b, blk, t, 2)
            me = V.arg(b, blk, t, 0)
            mine = [(k, u) for k, u in plans if V.arg(b, k, u, 1) is i and V.arg(b, k, u, 0) is me and b.dominates(k, blk)]
            ctx.ob("dispatch:same-task", bool(mine), f"the work units are made for the task the plan was sent to: {show(i)[:120]}", ctx.where(b, blk))
            made = contains(tx, lambda z: z.k == "call" and "send_plan_task" in z.a[0]) or contains(tx, lambda z: "send_plan_task" in str(z.a))
            ctx.ob("dispatch:same-channel", made, f"the work units go over the channel of that task: {show(tx)[:120]}", ctx.where(b, blk))
    ctx.floor("feeding tasks started", n)
    for b in P.own:
        if not b.path.endswith("::coordinator_to_worker_task"):
            continue
        for blk, t in b.calls():
            if (callee_name(t) or "").endswith("apply_with_dt_ctx"):
                y = V.arg(b, blk, t, 1)
                ctx.ob("dispatch:walk", y.k == "agg" and field(y, "task_index") is not None and field(y, "task_index").k == "p" and field(y, "task_index").a[1] == 2 and field(y, "task_count").k == "f" and field(y, "task_count").a[1] == "task_count", f"the walk starts as the task: {show(y)[:150]}", ctx.where(b, blk))
                ctx.ob("dispatch:plan", V.arg(b, blk, t, 0).k == "f" and V.arg(b, blk, t, 0).a[1] == "plan", f"the walk is over the stage's plan", ctx.where(b, blk))


def chans(s):
    return "mpsc" in s and "Sender<" in s and "WorkUnitMsg" in s


def worker(ctx):
    P, V = ctx.P, ctx.V
    n = 0
    for b in P.own:
        if b.skip:
            continue
        for blk, t in b.calls():
            if not (re.search(r"mpsc::.*Sender<.*>::send$", callee_name(t) or "") and t[2][0][0] in ("m", "c") and chans(P.ty_s(b.ty(t[2][0][1][0])))):
                continue
            to, m = V.arg(b, blk, t, 0), V.arg(b, blk, t, 1)
            if all(y.k == "E" for y in alts(m)):
                continue
            n += 1
            key = to.a[1] if to.k == "at" else (to.a[3] if named(to, "get", "get_mut") else None)
            ok = key is not None and key.k == "tup" and len(key.a) == 2 and all(key.a[j].k == "f" and key.a[j].a[0] is m and key.a[j].a[1] == f for j, f in ((0, "id"), (1, "partition")))
            ctx.ob("worker:routed", ok, f"a unit goes to the channel of its own id and partition: {show(to)[:200]} <- {show(m)[:120]}", ctx.where(b, blk))
            src = [z for z in walk(m) if z.k == "idx"]
            ctx.ob("worker:batch", m.k == "at" and m.a[1].k == "idx" and m.a[1].a[0] is m.a[0], f"each unit of the batch, in order: {show(m)[:160]}", ctx.where(b, blk))
            le = leaves_early(ctx, b, blk)
            ctx.ob("worker:rest", not le, "after a unit that cannot be delivered the rest of the batch is dropped", ctx.where(b, le[0][0] if le else blk))
            others = [f for f in ctx.facts(b, blk) if not allowed(f, to, m)]
            ctx.ob("worker:condition", not others, f"a unit is delivered whenever its channel is there: {[show(f)[:160] for f in others]}", ctx.where(b, blk))
    ctx.floor("deliveries of work units", n)
    removals(ctx)
    # registrations: the two ends of one channel under one key, for every declared partition
    m = 0
    for b in P.own:
        ins = {}
        for blk, t in b.calls():
            if re.search(r"Map<.*>::(insert|try_insert)$|or_insert$", callee_name(t) or "") and len(t[2]) == 3:
                ts = P.ty_s(b.ty(t[2][2][1][0])) if t[2][2][0] in ("m", "c") else ""
                if "WorkUnitMsg" in ts and "mpsc" in ts:
                    ins["rx" if "Receiver<" in ts else "tx"] = (blk, V.arg(b, blk, t, 1), V.arg(b, blk, t, 2))
        if not ins:
            continue
        m += 1
        ok = set(ins) == {"rx", "tx"} and ins["rx"][1] is ins["tx"][1]
        ctx.ob("register:key", ok, f"both ends of a channel are registered under one key: {[show(x[1])[:80] for x in ins.values()]}", ctx.where(b, list(ins.values())[0][0]))
        if not ok:
            continue
        ends = [ins["tx"][2], ins["rx"][2]]
        base = {z for e in ends for z in walk(e) if z.k == "call" and "channel" in z.a[0]}
        ctx.ob("register:channel", len(base) == 1, f"both are ends of the same channel: {[show(e)[:100] for e in ends]}", ctx.where(b, ins["tx"][0]))
        key = ins["rx"][1]
        ok = key.k == "tup" and key.a[0].k == "p" and key.a[1].k == "idx" and key.a[1].a[0].k == "range" and show(key.a[1].a[0].a[0]) == "0" and key.a[1].a[0].a[1].k == "p"
        ctx.ob("register:partitions", ok, f"a channel for every declared partition of the feed: {show(key)[:150]}", ctx.where(b, ins["rx"][0]))
        le = leaves_early(ctx, b, ins["rx"][0])
        ctx.ob("register:every", not le, "a channel for every declared partition of the feed", ctx.where(b, le[0][0] if le else None))
        for q, k, u in ctx.call_sites(b):
            a1, a2 = V.arg(q, k, u, 1), V.arg(q, k, u, 2)
            ok = a1.k == "f" and a1.a[1] == "id" and a2.k == "f" and a2.a[1] == "partitions" and a1.a[0] is a2.a[0] and a1.a[0].k == "at" and each(ctx, q, k) is not None
            ctx.ob("register:declared", ok, f"every declared feed is registered: {show(a1)[:100]}, {show(a2)[:100]}", ctx.where(q, k))
    ctx.floor("registrations of channels", m)


def allowed(f, to, m):
    if f.k == "isv":
        # enum branches: the message's kind, the presence of the channel, iterators, the stream's results
        return True
    if f.k == "un" and named(f.a[1], "is_closed"):
        return True
    return False


def removals(ctx):
    """A channel is only given up when its reader is gone, and only that one."""
    P, V = ctx.P, ctx.V
    for b in P.own:
        for blk, t in b.calls():
            if re.search(r"Map<.*>::(remove|remove_entry|retain|clear|drain)$", callee_name(t) or "") and t[2][0][0] in ("m", "c") and chans(P.ty_s(b.ty(t[2][0][1][0]))) and "Result<" in P.ty_s(b.ty(t[2][0][1][0])) :
                if last(callee_name(t)) not in ("remove", "remove_entry"):
                    sends = [k for k, u in b.calls() if re.search(r"mpsc::.*Sender<.*>::send$", callee_name(u) or "") and chans(P.ty_s(b.ty(u[2][0][1][0]))) and not all(y.k == "E" for y in alts(V.arg(b, k, u, 1)))]
                    near = any(blk in min((s for s in V.loops(b).values() if k in s), key=len, default=()) for k in sends)
                    ctx.ob("worker:given-up", not near, f"channels of other readers are given up while units are delivered ({last(callee_name(t))})", ctx.where(b, blk))
                    continue
                key = V.arg(b, blk, t, 1)
                sent = []
                for k, u in b.calls():
                    if re.search(r"mpsc::.*Sender<.*>::send$", callee_name(u) or "") and chans(P.ty_s(b.ty(u[2][0][1][0]))) and b.dominates(k, blk):
                        to = V.arg(b, k, u, 0)
                        if to.k == "at" and to.a[1] is key:
                            sent.append(k)
                failed = any(contains(f, lambda z: named(z, "send")) and (contains(f, lambda z: named(z, "is_err")) and f.k != "un" or f.k == "isv" and (1 in f.a[1]) != f.a[2]) for f in ctx.facts(b, blk))
                ctx.ob("worker:given-up", bool(sent) and failed, f"a channel is given up although its reader is there: {show(key)[:120]}", ctx.where(b, blk))


def declared(ctx):
    P, V = ctx.P, ctx.V
    n = 0
    for b, blk, si, y in ctx.aggs("WorkUnitFeedDeclaration"):
        if "/grpc/" in b.file:
            continue
        n += 1
        i, p = field(y, "id"), field(y, "partitions")
        nd = [z for z in walk(i) if z.k == "p" and z.a[0] == b.path]
        ok = named(i, "id") and named(p, "partition_count") and nd and all(contains(p, lambda z: z is x) for x in nd)
        ctx.ob("declare:node", ok, f"a feed is declared with its id and its node's partition count: {show(i)[-80:]} / {show(p)[:120]}", ctx.where(b, blk))
    ctx.floor("declarations of feeds", n)


def reader(ctx):
    P, V = ctx.P, ctx.V
    n = 0
    for b in P.own:
        for blk, t in b.calls():
            nm = callee_name(t) or ""
            if not (nm.endswith("mem::take") or re.search(r"Option<T>::take$", nm)) or "WorkUnitMsg" not in P.ty_s(b.ty(t[3][0])) or "Receiver" not in P.ty_s(b.ty(t[3][0])):
                continue
            n += 1
            y = ctx.lift(V.arg(b, blk, t, 0))
            key = y.a[1] if y.k == "at" else None
            ok = key is not None and key.k == "tup" and len(key.a) == 2 and key.a[0].k == "f" and key.a[0].a[1] == "id" and contains(key.a[0], lambda z: z.k == "p" and z.a[1] == 1) and key.a[1].k == "p"
            ctx.ob("read:own", ok, f"a reader takes the channel of its own id and partition: {show(y)[:200]}", ctx.where(b, blk))
            r = V.root(b)
            for f in [r] + ctx.users(r):
                if "Stream<" not in P.ty_s(f.ty(0)) or not f.path.startswith("crate::work_unit_feed::remote"):
                    continue
                for z in alts(V.ret(f.path)):
                    if z.k in ("E", "err", "never"):
                        continue
                    bad = [x for x in walk(z) if x.k == "filtered" or x.k == "call" and last(x.a[0]) in ("take", "skip", "filter", "filter_map", "take_while", "skip_while", "buffer_unordered", "step_by", "chain", "scan", "take_until")]
                    bad = [x for x in bad if not (x.k == "call" and ("mem::take" in x.a[0] or "Option<" in x.a[0]))]
                    ctx.ob("read:all", not bad, f"every unit of the channel is handed on: {show(bad[0])[:160] if bad else ''}", ctx.where(f))
    ctx.floor("readers of feeds", n)
    # the layers between hand the partition on
    m = 0
    for b in P.own:
        if not re.search(r"work_unit_feed::", b.path) or b.kind == "Closure":
            continue
        for blk, t in b.calls():
            if re.search(r"::feed$", callee_name(t) or "") and b.path.split("::")[-1].rstrip(">") == "feed":
                m += 1
                y = V.arg(b, blk, t, 1)
                ctx.ob("read:partition", y.k == "p" and y.a[1] == 2, f"the partition asked for is the one read: {show(y)[:100]}", ctx.where(b, blk))
    ctx.floor("layers over a feed", m)


def run(ctx):
    feeds(ctx)
    batch(ctx)
    dispatch(ctx)
    worker(ctx)
    declared(ctx)
    reader(ctx)
