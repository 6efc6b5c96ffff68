"""Sampling. The task that samples a partition pulls from the stream of its own partition only; each batch it pulled is put, once and in
order, into a first-in-first-out buffer; on every successful path it gives that buffer followed by the rest of the very stream it pulled from,
and it has reported by then, not before the buffer was filled. What it gives is stored for its partition and handed to the first consumer
that asks. The report is sent exactly once however the task ends (from Drop, with the only sender), unless the partition is already running,
which only execute can say. Every partition of the input has a sampler, and all samplers of a plan are started and their receivers returned."""
from ..core import *

TECHNIQUE = "symbolic terms over compiler MIR (what the sampling task gives, what is stored, what is handed out); must-pass and exactly-once-per-element analysis; field effect analysis of the buffer; effects of Drop"
NOTE = "futures: ready_chunks over a borrowed stream holds nothing back, chain and try_flatten_stream preserve all items and their order, a fused stream stays ended; DataFusion: a stream adapter forwards all items."
GIVE = {"new", "try_flatten_stream", "boxed", "pin", "flatten_stream", "into_stream", "from", "fuse"}


def called(y, *names):
    return y.k == "call" and last(y.a[0]) in names


def buffers(ctx):
    """own streams that give what a queue of theirs holds -> field"""
    out = {}
    for b in ctx.P.own:
        if b.skip or not re.search(r"Stream>::poll_next$", b.path):
            continue
        for k, t in b.calls():
            if re.search(r"VecDeque<.*>::pop_(front|back)$", callee_name(t) or ""):
                y = ctx.V.arg(b, k, t, 0)
                if y.k == "f" and y.a[0].k == "p":
                    out[b.self_ty.split("<")[0]] = (b, k, y.a[1])
    return out


def fifo(ctx, b, k, f, pushes):
    P, V = ctx.P, ctx.V
    t = b.blocks[k][1]
    ctx.ob("buffer:order", last(callee_name(t)) == "pop_front", "the buffer gives its latest batch first", ctx.where(b, k))
    ctx.ob("buffer:gives", always(ctx, b, k), "polling the buffer can go past without looking at it", ctx.where(b, k))
    r = V.ret(b.path)
    ok = all(x.k == "none" or show(x) == "none()" or x.k == "at" and x.a[0].k == "f" and x.a[0].a[1] == f for x in alts(r)) and any(x.k == "at" for x in alts(r))
    ctx.ob("buffer:items", ok, f"the buffer gives something else than the batch it holds: {show(r)[:160]}", ctx.where(b, k))
    for d in b.defs().get(0, []):
        if not d[2] and all(show(x) == "none()" for x in alts(V.rhs(b, d, 0))):
            fs = ctx.facts(b, d[0])
            ok = any(z.k == "isv" and z.a[0].k == "at" and z.a[0].a[0].k == "f" and z.a[0].a[0].a[1] == f for z in fs)
            ctx.ob("buffer:end", ok, "the buffer can end while it still holds batches", ctx.where(b, d[0]))
    for q in P.own:
        if q.skip or q.file != b.file:
            continue
        for x, u in q.calls():
            nm = callee_name(u) or ""
            m = re.search(r"VecDeque<.*>::(\w+)$", nm)
            if not m or not u[2]:
                continue
            y = V.arg(q, x, u, 0)
            if not (y.k == "f" and y.a[1] == f):
                continue
            op = m.group(1)
            if op == "push_back":
                pushes.append((q, x))
                ctx.ob("buffer:keeps", always(ctx, q, x), "a batch can be left out of the buffer", ctx.where(q, x))
                v = V.arg(q, x, u, 1)
                ctx.ob("buffer:whole", v.k == "p", f"the buffer does not keep the batch it was given: {show(v)[:100]}", ctx.where(q, x))
            elif op not in ("pop_front", "len", "is_empty", "iter", "into_iter", "reserve", "front", "back", "get", "as_slices", "capacity"):
                ctx.bad("buffer:order", f"batches are taken from or put into the buffer out of order ({op})", ctx.where(q, x))
            elif op == "pop_front" and (q, x) != (b, k):
                ctx.bad("buffer:order", "batches are taken from the buffer by someone else", ctx.where(q, x))


def reporters(ctx):
    """types whose Drop sends a report: drop body, send block"""
    out = {}
    for b in ctx.P.own:
        if b.skip or not b.path.endswith("Drop>::drop"):
            continue
        for k, t in b.calls():
            if re.search(r"oneshot::Sender<.*>::send$", callee_name(t) or ""):
                out[b.self_ty.split("<")[0]] = (b, k)
    return out


def reported(ctx, b, k, flags):
    """the report is sent on every path, unless it is omitted or was sent"""
    V = ctx.V
    t = b.blocks[k][1]
    through = {k}
    tx = V.arg(b, k, t, 0)
    for s in range(len(b.blocks)):
        u = b.blocks[s][1]
        if u[0] != "switch":
            continue
        y = V.operand(b, u[1], s, len(b.blocks[s][0]))
        m = dict((v, g) for v, g in u[2])
        z = y
        neg = False
        while z.k == "un":
            z, neg = z.a[1], not neg
        if z.k == "call" and last(z.a[0]) == "load":
            z = z.a[2]
        if z.k == "f" and z.a[0].k == "p" and ctx.P.ty_s(u[4]) == "bool" if len(u) > 4 else z.k == "f" and z.a[0].k == "p":
            flags.add(z.a[1])
            through.add(m.get(0, u[3]) if neg else (u[3] if 0 in m else m.get(1, u[3])))
        elif y.k == "discr" and y.a[0] is tx:
            through.add(m.get(0, u[3]))
    ok, path = ctx.must_pass(b, 0, through)
    ctx.ob("report:sent", ok, "the end of a sampler is not always reported", ctx.where(b, path[-1] if path else k))
    v = V.arg(b, k, t, 1)
    ctx.ob("report:content", v.k == "f" and v.a[0].k == "p", f"what is reported is not what was measured: {show(v)[:100]}", ctx.where(b, k))
    once = tx.k == "f" and any(re.search(r"Option<.*>::take$", callee_name(u) or "") and V.arg(b, x, u, 0) is tx for x, u in b.calls())
    ctx.ob("report:once", once, "a report can be sent twice", ctx.where(b, k))


def tasks(ctx, bufs):
    """coroutines that give a buffer followed by a stream"""
    for b in ctx.P.own:
        if b.skip or not b.coroutine:
            continue
        r = ctx.V.ret(b.path)
        if any(called(x, "chain") and x.a[2].k == "agg" and any(x.a[2].a[0].endswith(last(n)) for n in bufs) for x in alts(r)) and \
                any(last(callee_name(t) or "") == "chain" for _, t in b.calls()):
            yield b


def task(ctx, b, bufs, reps, pushers):
    P, V = ctx.P, ctx.V
    src = None
    for d in b.defs().get(0, []):
        if d[2]:
            continue
        for x in alts(V.rhs(b, d, 0)):
            if x.k in ("E", "err", "never"):
                continue
            ok = called(x, "chain") and x.a[2].k == "agg" and any(x.a[2].a[0].endswith(last(n)) for n in bufs)
            ctx.ob("task:prefix", ok, f"what was pulled while sampling does not come first: {show(x)[:140]}", ctx.where(b, d[0]))
            if ok:
                rest = x.a[3]
                ctx.ob("task:rest", called(rest, "execute") and (src is None or rest is src), f"the rest is not the stream that was sampled: {show(rest)[:140]}", ctx.where(b, d[0]))
                src = rest
    if src is None:
        return None
    i = src.a[2:]
    ctx.ob("task:partition", len(i) == 3 and i[0].k == "f" and i[1].k == "f" and i[0].a[0] is i[1].a[0] and "partition" in i[1].a[1], f"a sampler does not read its own partition: {show(src)[:140]}", ctx.where(b))
    # what is pulled
    push = set()
    for k, t in b.calls():
        f = P.bodies.get(callee_name(t) or "")
        if f is not None and any(q is f for q, _ in pushers):
            push.add(k)
    push |= {x for q, x in pushers if q is b}
    inside = []
    for q in P.own:
        if not q.skip and q.kind == "Closure" and not q.coroutine and q.path.startswith(b.path + "::"):
            for k, t in q.calls():
                f = P.bodies.get(callee_name(t) or "")
                if f is not None and any(z is f for z, _ in pushers):
                    for o, blk, u, ai in V.closure_use(q.path):
                        if o is b:
                            inside.append((q, k, blk))
    pulls = [(s, none, some) for s, none, some in ends_of_stream(ctx, b) if contains(s, lambda z: z is src)]
    ctx.floor("reads while sampling", len(pulls))
    heads = {}
    for h, body in ctx.loops(b).items():
        for k in push:
            if k in body and (k not in heads or len(body) < len(ctx.loops(b)[heads[k]])):
                heads[k] = h
    n = 0
    for s, none, some in pulls:
        n += 1
        item = mk("at", s, mk("idx", s))
        hits = set()
        for k in push:
            y = V.arg(b, k, b.blocks[k][1], 1)
            if called(s, "ready_chunks", "chunks", "try_ready_chunks"):
                ok = per_elem(ctx, b, k, y) is item
                if ok and k in heads:
                    hits.add(heads[k])
            elif y is item and not (k in heads and heads[k] in b.reach_from(k) and not any(some in ctx.loops(b)[h] for h in ctx.loops(b) if k in ctx.loops(b)[h])):
                hits.add(k)
        for q, k, blk in inside:
            if per_elem(ctx, q, k, V.arg(q, k, q.blocks[k][1], 1)) is item:
                hits.add(blk)
        if s is not None and none != some:
            if y_elem(ctx, b, s):
                # the elements of a chunk, reached by iterating it: handled with the chunk
                continue
            ok, path = ctx.must_pass(b, some, hits | fail_blocks(ctx, b))
            ctx.ob("task:keeps", ok and bool(hits), "a batch pulled while sampling is not kept for delivery", ctx.where(b, some))
    # nothing else reads the stream
    for k, t in b.calls():
        nm = last(callee_name(t) or "")
        if nm in ("next", "try_next", "poll_next", "skip", "take", "collect", "try_collect", "for_each", "skip_while") and t[2] and re.search(r"Stream(Ext)?(>|)::", callee_name(t)):
            y = V.arg(b, k, t, 0)
            if contains(y, lambda z: z is src) and not any(p[0] is y or y.k == "at" for p in pulls) and not (y.k == "at" or y.k == "f"):
                ctx.bad("task:keeps", f"batches are pulled from the stream without being kept ({nm})", ctx.where(b, k))
    # the report
    rep = set()
    for k, t in b.calls():
        f = P.bodies.get(callee_name(t) or "")
        if f is not None and not f.skip and (f.self_ty or "").split("<")[0] in reps and t[2] and t[2][0][0] == "m" and not P.ty_s(b.ty(t[2][0][1][0])).startswith("&"):
            rep.add(k)
        if last(callee_name(t) or "") == "drop" and t[2] and t[2][0][0] == "m" and P.ty_s(b.ty(t[2][0][1][0])).split("<")[0] in reps:
            rep.add(k)
    ctx.ob("task:reports", bool(rep) and always(ctx, b, rep), "a sampler can succeed without reporting what it measured", ctx.where(b))
    for k in rep:
        late = [p for p in push if p in b.reach_from(k)]
        ctx.ob("task:complete", not late, "the report is made before everything that was pulled is counted", ctx.where(b, k))
    return src


def per_elem(ctx, b, k, y):
    """the collection each of whose elements is y in one round each"""
    src = each(ctx, b, k)
    if src is None or y.k != "at":
        return None
    if src is y.a[0] and y.a[1].k == "idx" and y.a[1].a[0] is src:
        return src
    i = y.a[1]
    if i.k == "idx" and i.a[0].k == "range" and c0(i.a[0].a[0]) and i.a[0].a[1].k == "len" and i.a[0].a[1].a[0] is y.a[0] and (src is i.a[0] or src is y.a[0]):
        return y.a[0]
    return None


def y_elem(ctx, b, s):
    """s is one pulled chunk, not a stream"""
    return s.k == "at"


def strip(y):
    while y.k == "call" and last(y.a[0]) in GIVE and len(y.a) > 2:
        y = y.a[-1]
    return y


def run(ctx):
    P, V = ctx.P, ctx.V
    bufs, reps = buffers(ctx), reporters(ctx)
    ctx.floor("buffers of pulled batches", len(bufs))
    ctx.floor("reporters", len(reps))
    pushers = []
    for ty, (b, k, f) in bufs.items():
        fifo(ctx, b, k, f, pushers)
    ctx.floor("insertions into the buffer", len(pushers))
    flags = set()
    for ty, (b, k) in reps.items():
        reported(ctx, b, k, flags)
    # only execute says that a partition is running
    for f in flags:
        for q in P.own:
            if q.skip:
                continue
            for x, u in q.calls():
                if re.search(r"Atomic<bool>::(store|swap|fetch_or|fetch_xor|fetch_not|compare_exchange\w*)$", callee_name(u) or ""):
                    y = ctx.V.arg(q, x, u, 0)
                    if not (y.k == "f" and "sampler" in q.file):
                        continue
                    ctx.ob("report:omitted", q.path.endswith("ExecutionPlan>::execute"), "reports are omitted though the partition is not running", ctx.where(q, x))
        for q, blk, i, v in aggregates(ctx, reps, f):
            z = ctx.lift(v)
            zs = [z]
            if z.k == "f":
                zs = [w for ty in {x.self_ty.split("<")[0] for x in P.own if not x.skip and x.self_ty and "sampler" in x.file} for _, _, _, w in aggregates(ctx, [ty], z.a[1])]
                zs = [y for w in zs for y in [w] + [x.a[i] for x in walk(w) if x.k == "agg" and z.a[1] in list(x.a[2]) for i in [3 + list(x.a[2]).index(z.a[1])]]]
            ok = bool(zs) and all(re.search(r"Atomic<bool>::new\(0\)$", show(y)) for y in zs if y.k == "call" and "Atomic" in y.a[0]) and any(y.k == "call" and "Atomic" in y.a[0] for y in zs)
            ctx.ob("report:starts", ok, f"reports are omitted from the start: {[show(y)[:80] for y in zs]}", ctx.where(q, blk))
    # the tasks
    n = 0
    given = {}
    for b in tasks(ctx, bufs):
        n += 1
        given[b.path] = task(ctx, b, bufs, reps, pushers)
    ctx.floor("sampling tasks", n)
    # reporters are made for the right partition, and moved into the task
    for ty in reps:
        for q, blk, i, v in aggregates(ctx, [ty], "load_info"):
            lp = field(v, "partition") if v.k == "agg" else None
            srcs = [s for s in given.values() if s is not None]
            ctx.ob("report:partition", lp is not None and any(lp is s.a[3] for s in srcs), f"a report is not about the partition that was sampled: {show(lp)[:80] if lp is not None else show(v)[:80]}", ctx.where(q, blk))
    # what is stored
    m = 0
    slots = set()
    for b in P.own:
        if b.skip or "sampler" not in b.file:
            continue
        for k, t in b.calls():
            if re.search(r"Option<.*>::(replace|insert|get_or_insert)$", callee_name(t) or ""):
                y = V.arg(b, k, t, 0)
                if y.k != "f":
                    continue
                v = strip(V.arg(b, k, t, 1))
                if v.k != "clo":
                    continue
                m += 1
                slots.add(y.a[1])
                r = V.ret(v.a[0])
                ok = False
                for x in alts(r):
                    if x.k in ("E", "err", "never"):
                        continue
                    ok = called(x, "chain") and any(x.a[3] is s for s in given.values() if s is not None)
                    ctx.ob("stored:whole", ok, f"what is stored is not what the sampling task gives: {show(x)[:140]}", ctx.where(b, k))
                ctx.ob("stored:some", ok, "the stream of the sampling task is not stored", ctx.where(b, k))
                ctx.ob("stored:always", always(ctx, b, k), "a partition can be sampled without its stream being stored", ctx.where(b, k))
                ctx.ob("stored:own", y.a[0].k == "p" and any(s.a[2].a[0] is y.a[0] for s in given.values() if s is not None), "the stream is stored for another partition", ctx.where(b, k))
    ctx.floor("stored streams", m)
    # what is handed out
    e = 0
    for b in P.own:
        if b.skip or not b.path.endswith("ExecutionPlan>::execute") or "sampler" not in b.file:
            continue
        e += 1
        ok = False
        for x in alts(V.ret(b.path)):
            if x.k in ("E", "err", "never"):
                continue
            ok = x.k == "f" and x.a[1] in slots and x.a[0].k == "at" and x.a[0].a[1].k == "p"
            ctx.ob("handed:own", ok, f"executing a partition does not give the stream sampled for it: {show(x)[:140]}", ctx.where(b))
            if ok:
                coll_ = x.a[0].a[0].a[1]
                made(ctx, b, coll_)
        ctx.ob("handed:some", ok, "executing a partition does not give the sampled stream", ctx.where(b))
    ctx.floor("executions of samplers", e)
    start(ctx)


def aggregates(ctx, types, f):
    P = ctx.P
    for q in P.own:
        if q.skip:
            continue
        for blk, si, a in q.assigns():
            rv = a[2]
            if rv[0] == "agg" and rv[1][0] == "adt" and any(rv[1][1].endswith(last(t)) for t in types):
                y = ctx.V.rvalue(q, rv, blk, si)
                names = list(y.a[2])
                if f in names:
                    i = names.index(f)
                    yield q, blk, i, y.a[3 + i]


def made(ctx, ex, coll_):
    """one sampler per partition of the input, in order"""
    P, V = ctx.P, ctx.V
    n = 0
    for q in P.own:
        if q.skip:
            continue
        for blk, si, a in q.assigns():
            rv = a[2]
            if rv[0] == "agg" and rv[1][0] == "adt" and (ex.self_ty or "").split("<")[0].endswith(last(rv[1][1])):
                y = V.rvalue(q, rv, blk, si)
                if coll_ not in list(y.a[2]):
                    continue
                n += 1
                v = y.a[3 + list(y.a[2]).index(coll_)]
                ok = v.k == "coll" and v.a[1].k == "idx" and v.a[1].a[0].k == "range" and c0(v.a[1].a[0].a[0]) and called(v.a[1].a[0].a[1], "partition_count")
                el = v.a[0] if ok else None
                ok = ok and el.k == "agg" and any(x is v.a[1] for x in el.a[3:])
                ctx.ob("samplers:all", ok, f"not every partition has a sampler of its own: {show(v)[:160]}", ctx.where(q, blk))
                if ok:
                    inp = y.a[3:]
                    n_ = v.a[1].a[0].a[1]
                    ctx.ob("samplers:input", any(contains(n_, lambda z: z is x) for x in el.a[3:] if x.k == "p"), "the samplers are counted over another plan than the one they read", ctx.where(q, blk))
    ctx.floor("constructions of samplers", n)


def c0(y):
    return show(y) == "0"


def start(ctx):
    """all samplers are started and what they report is returned"""
    P, V = ctx.P, ctx.V
    n = 0
    for b in P.own:
        if b.skip:
            continue
        for k, t in b.calls():
            f = P.bodies.get(callee_name(t) or "")
            if f is None or f.skip or "sampler" not in f.file or "oneshot::Receiver<" not in P.ty_s(f.ty(0)) or "Vec<" in P.ty_s(f.ty(0)):
                continue
            n += 1
            me = V.arg(b, k, t, 0)
            src = per_elem(ctx, b, k, me)
            ok = src is not None and src.k == "f"
            ctx.ob("start:all", ok, f"not every partition of a sampler is started: {show(me)[:120]}", ctx.where(b, k))
            pushes = {x for x, u in b.calls() if re.search(r"Vec<.*>::push$", callee_name(u) or "") and x in b.reach_from(k)}
            if pushes:
                lp = [s for s in ctx.loops(b).values() if k in s]
                okp, path = ctx.must_pass(b, k, pushes | fail_blocks(ctx, b), b.returns() + [h for h, s in ctx.loops(b).items() if k in s] if isinstance(b.returns(), list) else list(b.returns()) + [h for h, s in ctx.loops(b).items() if k in s])
                ctx.ob("start:received", okp, "a started sampler's report is not waited for", ctx.where(b, k))
            else:
                ctx.ob("start:received", contains(V.ret(b.path), lambda z: called(z, "channel") or z.k == "coll") , "a started sampler's report is not waited for", ctx.where(b, k))
    ctx.floor("starts of samplers", n)
