"""The shared queue of a broadcast. The list of messages only grows; a message is announced after it was added, the end after the last
message, and the announcement of the end survives. A consumer starts at 0, moves forward by one exactly when it hands out the message at
its position, and ends only where the end was announced and its position was compared with the length of that same announcement. All
consumers are made before the shared input can produce anything, one per consumer task. The producing task puts every item of the input
in the queue: batches as they are, failures (and panics) as errors, and ends only when the input ends or failed; its handle lives as long
as any consumer."""
from ..core import *
from ..val import subst

TECHNIQUE = "effect analysis of the queue's fields and must-pass analysis over compiler MIR; branch facts at the end-of-stream return; def-use provenance of the messages"
NOTE = "tokio's watch channel keeps the last value and wakes all receivers; the memory effects of the mutex are std's. The virtual-partition arithmetic is in C01."

MUT = re.compile(r"::(remove|clear|pop|drain|truncate|swap_remove|take|retain|split_off|insert|pop_front|set_len|rotate_\w+|swap|reverse|sort\w*|dedup\w*|replace)$")


def named(y, *names):
    return y.k == "call" and last(y.a[0]) in names


def self_field(z, *names):
    return z.k == "f" and z.a[0].k == "p" and z.a[0].a[1] == 1 and (not names or z.a[1] in names)


def consumer(ctx):
    P, V = ctx.P, ctx.V
    found = []
    for b in ctx.method("Stream", "poll_next"):
        shape = None
        for y in alts(V.ret(b.path)):
            if y.k == "at" and self_field(y.a[0]) and self_field(y.a[1]):
                shape = (y.a[0].a[1], y.a[1].a[1])
        if shape:
            found.append((b, *shape))
    ctx.floor("consumers of a shared queue", len(found))
    for b, ent, idx in found:
        some, none = set(), set()
        for d in b.defs().get(0, []):
            if d[2]:
                continue
            y = V.rhs(b, d, 0)
            for z in alts(y):
                if z.k == "none" or show(z) in ("none()", "NONE"):
                    none.add(d[0])
                elif z.k == "at" and self_field(z.a[0], ent) and self_field(z.a[1], idx):
                    some.add(d[0])
                elif z.k not in ("never",) and "Pending" not in show(z):
                    ctx.bad("consumer:message", f"a consumer hands out the message at its position: {show(z)[:160]}", ctx.where(b, d[0]))
        pend = pending(b)
        none -= pend
        ctx.floor("returns of a message", len(some))
        ctx.floor("returns of the end", len(none))
        incs = set()
        for blk, si, a in b.assigns():
            pr = [z for z in a[1][1] if z != "*"]
            if pr and pr[-1][0] == "f" and pr[-1][2] == idx and "*" in a[1][1]:
                v = V.rvalue(b, a[2], blk, si)
                ctx.ob("consumer:step", one_more(v, idx), f"the position moves by one: {show(v)[:80]}", ctx.where(b, blk))
                incs.add(blk)
        for d in some:
            ok, path = ctx.must_pass(b, 0, incs, [d])
            if not ok:
                # the step may follow the assignment of the result
                ok, path = ctx.must_pass(b, d, incs)
            ctx.ob("consumer:moves", ok and bool(incs), "a message is handed out without moving on: it would be handed out again", ctx.where(b, d))
        for i in incs:
            ok, path = ctx.must_pass(b, i, some) if not any(i in b.reach_from(d) for d in some) else (True, None)
            after = any(i in b.reach_from(d) for d in some)
            again = after or all(ctx.must_pass(b, x, some, [i])[0] for x in b.succs(i))
            ctx.ob("consumer:hands-out", ok and again, "the position moves past a message that is not handed out", ctx.where(b, i))
        # the end
        tests = {s for s in range(len(b.blocks)) if b.blocks[s][1][0] == "switch" and cmp(V.operand(b, b.blocks[s][1][1], s, len(b.blocks[s][0])), idx)}
        news = set()
        for blk, si, a in b.assigns():
            pr = [z for z in a[1][1] if z != "*"]
            if pr and "*" in a[1][1] and pr[0][0] == "f" and pr[0][2] != idx:
                if len(pr) == 1 or pr[-1][2] in ("len",):
                    news.add(blk)
        for d in none:
            fs = ctx.facts(b, d)
            closed = any(f.k == "f" and f.a[1] == "closed" for f in fs) or any(f.k == "isv" and contains(f.a[0], lambda z: self_field(z)) and not f.a[2] for f in fs)
            ctx.ob("end:announced", closed, f"a consumer ends where the end was announced: {[show(f)[:80] for f in fs]}", ctx.where(b, d))
            for s in {0} | news:
                ok, path = ctx.must_pass(b, s, tests, [d])
                ctx.ob("end:drained", ok and bool(tests), "a consumer can end without having compared its position with the announced length", ctx.where(b, d))
    return found


def one_more(v, idx):
    if v.k != "sum":
        return False
    rest = dict((tuple(fs), co) for co, fs in v.a[0])
    return len(rest) == 2 and rest.get((), 0) == 1 and any(co == 1 and len(fs) == 1 and self_field(fs[0], idx) for fs, co in rest.items() if fs)


def pending(b):
    out = set()
    for blk, si, a in b.assigns():
        if a[1][0] == 0 and a[2][0] == "agg" and a[2][1][0] == "adt" and a[2][1][2] == "Pending":
            out.add(blk)
    return out


def cmp(y, idx):
    if y.k == "un" and y.a[0] == "Not":
        y = y.a[1]
    return y.k == "op" and y.a[0] in ("Lt", "Ge", "Le", "Gt", "Eq", "Ne") and any(self_field(z, idx) for z in y.a[1:]) and any(contains(z, lambda x: x.k == "f" and x.a[1] == "len" or x.k == "len") for z in y.a[1:])


def own(z, name):
    """the state as it was"""
    return z.k == "f" and z.a[1] == name


def set_before(ctx, b, k, name):
    """The field is written on every path to block k."""
    ws = {x for x, si, a in b.assigns() if any(z != "*" and z[0] == "f" and z[2] == name for z in a[1][1])}
    return bool(ws) and (k in ws or ctx.must_pass(b, 0, ws, [k])[0])


def outermost(ctx, b, blk, t):
    """The addition as seen from the helper's only caller that announces it."""
    for _ in range(3):
        if announcements(ctx, b) or not always(ctx, b, blk):
            break
        sites = ctx.call_sites(b)
        if len(sites) != 1:
            break
        b, blk, t = sites[0]
    return b, blk, t


def queue(ctx, ents):
    P, V = ctx.P, ctx.V
    # a consumer that takes the end of the announcements as the end does not need the last one
    told = any(a[2][0] == "use" and a[2][1][0] == "k" and any(z != "*" and z[0] == "f" and z[2] == "closed" for z in a[1][1]) for b, _, _ in ents for _, _, a in b.assigns())
    file = {b.file for b, _, _ in ents}
    names = {e for _, e, _ in ents}
    pushers = []
    n = 0
    # the list as the one that created the queue sees it
    made = set()
    for b in P.own:
        for blk, si, a in b.assigns() if b.file in file and not b.skip else ():
            if a[2][0] == "agg":
                y = V.rvalue(b, a[2], blk, si)
                if y.k == "agg" and isinstance(y.a[2], tuple):
                    made |= {v for f, v in zip(y.a[2], y.a[3:]) if f in names and v.k == "call"}
    for b in P.own:
        if b.file not in file or b.skip:
            continue
        for blk, t in b.calls():
            nm = callee_name(t) or ""
            if not t[2]:
                continue
            y = V.arg(b, blk, t, 0)
            if not any(z.k == "f" and z.a[1] in names or z in made for z in alts(y)):
                continue
            n += 1
            if MUT.search(nm):
                ctx.bad("queue:grows", f"messages are removed from, or moved in, the list other consumers still have to read ({last(nm)})", ctx.where(b, blk))
            if re.search(r"::(push|extend|append|push_back)$", nm):
                pushers.append((b, blk, t))
    ctx.floor("additions to the list", len(pushers))
    for b, blk, t in [outermost(ctx, *x) for x in pushers]:
        y = V.arg(b, blk, t, 1)
        ctx.ob("queue:adds", last(callee_name(t)) in ("push", "push_back") or b is not None and y.k == "p", f"what is pushed is added at the end: {show(y)[:80]}", ctx.where(b, blk))
        ctx.ob("queue:always-adds", always(ctx, b, blk), "a message can be left out", ctx.where(b, blk))
        sends = announcements(ctx, b)
        ok, path = ctx.must_pass(b, blk, {k for k, _ in sends})
        ctx.ob("queue:announced", ok and bool(sends), "a message is added without waking the consumers", ctx.where(b, blk))
        for k, v in sends:
            ctx.ob("queue:then", k in b.reach_from(blk) and blk not in b.reach_from(k), "a message is announced before it was added", ctx.where(b, k))
            ln = updated(v, "len")
            news = [z for z in alts(ln) if not own(z, "len")] if ln is not None else []
            ok = bool(news) and all(z.k == "len" and contains(z, lambda z: z.k == "f" and z.a[1] in names) or z.k == "sum" and one_more_of(z) for z in news)
            if ok and len(news) != len(alts(ln)):
                ok = set_before(ctx, b, k, "len")
            ctx.ob("queue:length", ok, f"the announced length counts the new message: {show(v)[:120]}", ctx.where(b, k))
            lens = [j for j, u in b.calls() if last(callee_name(u) or "") == "len" and b.dominates(j, k)]
            if lens:
                ctx.ob("queue:length-after", any(b.dominates(blk, j) for j in lens), "the announced length is read before the message was added", ctx.where(b, k))
            cl = updated(v, "closed")
            ctx.ob("queue:open", cl is None or all(own(z, "closed") or show(z) in ("0", "False") for z in alts(cl)), f"adding a message does not announce the end: {show(v)[:120]}", ctx.where(b, k))
    ends = 0
    for b in P.own:
        if b.file in file and b.path.endswith("Drop>::drop"):
            sends = announcements(ctx, b)
            for k, v in sends:
                cl = updated(v, "closed")
                if cl is not None:
                    ends += 1
                    ctx.ob("queue:end", all(show(z) in ("1", "True") or own(z, "closed") and set_before(ctx, b, k, "closed") for z in alts(cl)) and any(show(z) in ("1", "True") for z in alts(cl)), f"the end is announced: {show(v)[:120]}", ctx.where(b, k))
                    ctx.ob("queue:end-always", always(ctx, b, k) or told, "the queue can go away without announcing the end", ctx.where(b, k))
                    ln = updated(v, "len")
                    ctx.ob("queue:end-length", ln is None or ln.k in ("f", "len"), f"the end keeps the announced length: {show(v)[:120]}", ctx.where(b, k))
    ctx.notes["announcements of the end"] = ends
    for b in P.own:
        for blk, si, a in b.assigns():
            rv = a[2]
            if rv[0] == "agg" and rv[1][0] == "adt" and b.file in file and not b.skip:
                y = V.rvalue(b, rv, blk, si)
                for e, i in {(e, i) for _, e, i in ents}:
                    z = field(y, i)
                    if y.k == "agg" and e in (y.a[2] or ()) and i in (y.a[2] or ()):
                        ctx.ob("consumer:start", show(z) == "0", f"a consumer starts with the first message: {show(z)[:60]}", ctx.where(b, blk))
                        w = field(y, e)
                        fl = a[2][2][list(y.a[2]).index(e)]
                        srcs = back(b, o_local(fl)) if o_local(fl) is not None else set()
                        fresh = [j for j, u in b.calls() if re.search(r"::(Mutex|RwLock|Arc)<.*>::new$", callee_name(u) or "") and u[3][0] in srcs]
                        ctx.ob("consumer:shared", self_field(w, e) and not fresh, f"a consumer reads the queue's own list: {show(w)[:80]}", ctx.where(b, blk))


def one_more_of(v):
    rest = dict((tuple(fs), co) for co, fs in v.a[0])
    return len(rest) == 2 and rest.get((), 0) == 1 and any(co == 1 and len(fs) == 1 and fs[0].k == "f" and fs[0].a[1] == "len" for fs, co in rest.items() if fs)


def announcements(ctx, b, depth=2):
    out = []
    for k, t in b.calls():
        n = callee_name(t) or ""
        if re.search(r"watch::Sender<.*>::(send|send_replace)$", n):
            out.append((k, ctx.V.arg(b, k, t, 1)))
        elif re.search(r"watch::Sender<.*>::send_modify$", n):
            y = ctx.V.arg(b, k, t, 1)
            q = ctx.P.bodies.get(y.a[0]) if y.k == "clo" else None
            if q is not None:
                v = mk("f", y, "state")
                for x, si, a in q.assigns():
                    pr = [z for z in a[1][1] if z != "*"]
                    if "*" in a[1][1] and pr and always(ctx, q, x):
                        v = mk("upd", v, pr[-1][2], ctx.V.rvalue(q, a[2], x, si))
                y = v
            out.append((k, y))
        elif depth and n in ctx.P.bodies and ctx.P.bodies[n].file == b.file and not ctx.P.bodies[n].skip:
            g = ctx.P.bodies[n]
            for j, y in announcements(ctx, g, depth - 1):
                if always(ctx, g, j):
                    out.append((k, subst(y, {p: ctx.V.arg(b, k, t, p.a[1] - 1) for p in walk(y) if p.k == "p" and p.a[0] == g.path})))
    return out


def updated(v, name):
    """The value of a field in the announced state."""
    for y in alts(v):
        while y.k == "upd":
            if y.a[1] == name:
                return y.a[2]
            y = y.a[0]
        if y.k == "agg":
            return field(y, name)
    return None


def back(b, l):
    """Locals a value is moved or built from."""
    out, ch = {l}, True
    while ch:
        ch = False
        for x, si, st in b.assigns():
            if st[1][0] in out:
                new = {o_local(o) for o in ops(st[2])} - out - {None}
                out |= new
                ch = ch or bool(new)
    return out


def producer(ctx):
    P, V = ctx.P, ctx.V
    n = 0
    for b in ctx.method("ExecutionPlan", "execute"):
        if not re.search(r"::broadcast::BroadcastExec as", b.path) or "network" in b.path:
            continue
        tree = ctx.tree(b)
        spawns = [(q, k, t) for q in tree for k, t in q.calls() if last(callee_name(t) or "") == "spawn" and "pawn" in (callee_name(t) or "")]
        ctx.floor("producing tasks", len(spawns))
        for q, k, t in spawns:
            made = [j for j, u in q.calls() if re.search(r"watch::Sender<.*>::subscribe$|::new_consumer$", callee_name(u) or "")]
            late = [j for j in made if j in q.reach_from(k)]
            ctx.ob("producer:consumers-first", bool(made) and not late and all(always(ctx, q, j) or any(j in s for s in V.loops(q).values()) for j in made), "the consumers are made before the input is read", ctx.where(q, late[0] if late else k))
            for j in made:
                it = each(ctx, q, j)
                ok = it is not None and it.k == "range" and show(it.a[0]) == "0" and it.a[1].k == "f" and "consumer" in it.a[1].a[1]
                ctx.ob("producer:one-per-task", ok, f"one consumer per consumer task: {show(it)[:100] if it is not None else None}", ctx.where(q, j))
            for y in alts(V.arg(q, k, t, 0)):
                if y.k == "clo" and y.a[0] in P.bodies:
                    n += 1
                    task(ctx, P.bodies[y.a[0]])
        # the handle
        held = False
        for q in tree:
            for blk, si, a in q.assigns():
                if a[2][0] == "agg" and a[2][1][0] in ("closure", "adt") and q is b and any(o[0] in ("m", "c") and not o[1][1] and "SpawnedTask" in P.ty_s(q.ty(o[1][0])) for o in a[2][2]):
                    held = True
        ctx.ob("producer:held", held, "a consumer's stream does not keep the producing task: it is aborted when the plan is dropped", ctx.where(b))
        consumers_streams(ctx, b, tree)
    ctx.floor("bodies of producing tasks", n)


def task(ctx, q):
    P, V = ctx.P, ctx.V
    pushes = {}
    for k, t in q.calls():
        nm = callee_name(t) or ""
        if re.search(r"Queue(<.*>)?::push\w*$", nm) and len(t[2]) > 1:
            pushes[k] = V.arg(q, k, t, 1)
    ctx.floor("messages put in the queue", len(pushes))
    nexts = {k for k, t in q.calls() if re.search(r"(StreamExt::next|TryStreamExt::try_next)$", callee_name(t) or "")}
    ctx.floor("reads of the input", len(nexts))
    items = set()
    for s in range(len(q.blocks)):
        t = q.blocks[s][1]
        if t[0] == "switch":
            cnd = V.operand(q, t[1], s, len(q.blocks[s][0]))
            if cnd.k == "discr" and cnd.a[0].k == "at" and cnd.a[0].a[1].k == "idx" and cnd.a[0].a[1].a[0] is cnd.a[0].a[0]:
                items.add((s, cnd.a[0]))
    src = {y for _, y in items}
    for y in map(ctx.lift, src):
        bad = [z for z in walk(y) if z.k == "filtered" or z.k == "call" and last(z.a[0]) in ("take", "skip", "filter", "filter_map", "take_while", "skip_while", "step_by", "take_until", "fuse_on_error", "chunks")]
        ctx.ob("producer:input", contains(y, lambda z: named(z, "execute")) and not bad, f"the producing task reads the whole input: {show(y)[:160]}", ctx.where(q))
        ctx.ob("producer:panic", contains(y, lambda z: named(z, "catch_unwind")), "a panic of the input would look like its end", ctx.where(q))
    # from every item received to the next read or the end: pushed
    got = 0
    for k in nexts:
        for x in received(ctx, q, k):
            got += 1
            ok, path = ctx.must_pass(q, x, pushes, set(q.returns()) | nexts)
            ctx.ob("producer:every-item", ok, "an item of the input is not put in the queue", ctx.where(q, path[-1] if path else x))
    ctx.floor("items received", got)
    for k, v in pushes.items():
        ctx.ob("producer:item", any(contains(v, lambda z: z is y or z.k == "err" and contains(z, lambda w: w is y)) for y in src), f"what is put in the queue is the item received: {show(v)[:160]}", ctx.where(q, k))
    # it only ends with the input or a failure
    fails = {k for k, v in pushes.items() if all(z.k == "E" for z in alts(v))}
    failed = {x for x in range(len(q.blocks)) if any(isfail(f, src) for f in ctx.facts(q, x))}
    for k in set(pushes) - fails:
        ok = True
        for r in q.returns():
            okp, path = ctx.must_pass(q, k, nexts | fails | failed, [r])
            ok = ok and okp
        ctx.ob("producer:goes-on", ok, "the producing task ends after a message although the input goes on", ctx.where(q, k))


def isfail(f, src):
    if f.k == "isv" and any(f.a[0] is y or contains(f.a[0], lambda z: z is y) for y in src):
        return not f.a[2] and tuple(f.a[1]) == (1,) or f.a[2] and tuple(f.a[1]) == (0,)
    return named(f, "is_err")


def received(ctx, q, k):
    """Blocks entered with an item of the stream: the Some target of the Option made by this read (through the poll loop)."""
    V = ctx.V
    out = set()
    for s in q.reach_from(k):
        t = q.blocks[s][1]
        if t[0] != "switch" or t[1][0] not in ("m", "c"):
            continue
        for d in V.rdefs(q, t[1][1][0], s, len(q.blocks[s][0])):
            if d != "entry" and d[3][0] == "rv" and d[3][1][0] == "discr":
                pl = d[3][1][1]
                ty = ctx.P.ty_s(q.ty(pl[0])) if not pl[1] else ""
                if ty.startswith("core::option::Option<"):
                    m = dict((v, g) for v, g in t[2])
                    some = m.get(1, t[3])
                    y = V.operand(q, t[1], s, len(q.blocks[s][0]))
                    if y.k == "discr" and y.a[0].k == "at" and y.a[0].a[1].k == "idx":
                        out.add(some)
    return out


def consumers_streams(ctx, b, tree):
    P, V = ctx.P, ctx.V
    n = 0
    for q in tree:
        for k, t in q.calls():
            if re.search(r"Queue<T>::push$", callee_name(t) or "") and len(t[2]) > 1 and "tream" in P.ty_s(q.ty(t[2][1][1][0])):
                n += 1
                y = V.arg(q, k, t, 1)
                bad = [z for z in walk(y) if z.k == "filtered" or z.k == "call" and last(z.a[0]) in ("take", "skip", "filter", "filter_map", "take_while", "skip_while", "step_by", "try_take_while", "take_until")]
                ctx.ob("consumer:whole", not bad, f"a consumer's stream hands on every message: {show(bad[0])[:140] if bad else ''}", ctx.where(q, k))
                ctx.ob("consumer:errors", contains(y, lambda z: z.k == "E"), f"a consumer's stream hands on errors: {show(y)[:160]}", ctx.where(q, k))
    ctx.floor("streams of consumers", n)


def run(ctx):
    ents = consumer(ctx)
    queue(ctx, ents)
    producer(ctx)
