"""Buffering between tasks is bounded. Before every read of a connection after bytes were added, the task has seen on that round that the
connection's reservation is empty or below the configured budget; it waits only when it is neither, on a notification that the release of
a buffered message raises. The sending side reads a partition's stream only when the previous item was accepted by a queue whose capacity
is a constant. Record batches travel through an unbounded channel only together with the guard of the bytes they take."""
from ..core import *
from .c04 import named, demux
from .c09 import guards_of

TECHNIQUE = "must-pass analysis of the edges of the budget test over compiler MIR, branch facts at the waits, capacity provenance, types of channel payloads"
NOTE = "HTTP/2 flow control makes a connection that is not read stop the sender (tonic). One message may exceed the budget. The shared build side of a broadcast and a sampled prefix are buffered by design."


def size_of(y):
    return named(y, "size") and "MemoryReservation" in y.a[0]


def budget(y):
    return contains(y, lambda z: z.k == "f" and "budget" in z.a[1])


def room(f):
    """a fact that says there is room: size == 0, or size (<|<=) budget"""
    if f.k == "un" and f.a[0] == "Not":
        f0 = f.a[1]
        if f0.k == "op" and f0.a[0] in INV:
            f = mk("op", INV[f0.a[0]], *f0.a[1:])
    if f.k != "op":
        return None
    o, x, y = f.a[0], f.a[1], f.a[2]
    if o in ("Gt", "Ge"):
        o, x, y = {"Gt": "Lt", "Ge": "Le"}[o], y, x
    if o == "Eq" and (size_of(x) and show(y) == "0" or size_of(y) and show(x) == "0"):
        return "empty"
    if o == "Le" and size_of(x) and show(y) == "0" or o == "Lt" and size_of(x) and show(y) == "1":
        return "empty"
    if o in ("Lt", "Le") and size_of(x) and plain_budget(y):
        return "below"
    return None


def full(f):
    """a fact that says there is no room: size > 0, size (>|>=) budget"""
    if f.k == "un" and f.a[0] == "Not" and f.a[1].k == "op" and f.a[1].a[0] in INV:
        f = mk("op", INV[f.a[1].a[0]], *f.a[1].a[1:])
    if f.k != "op":
        return None
    o, x, y = f.a[0], f.a[1], f.a[2]
    if o in ("Gt", "Ge"):
        o, x, y = {"Gt": "Lt", "Ge": "Le"}[o], y, x
    if o == "Lt" and show(x) == "0" and size_of(y) or o == "Le" and show(x) == "1" and size_of(y) or o == "Ne" and {show(x), show(y)} & {"0"} and (size_of(x) or size_of(y)):
        return "some"
    if o in ("Lt", "Le") and plain_budget(x) and size_of(y):
        return "over"
    return None


INV = {"Lt": "Ge", "Ge": "Lt", "Le": "Gt", "Gt": "Le", "Eq": "Ne", "Ne": "Eq"}


def plain_budget(y):
    return y.k == "f" and "budget" in y.a[1]


def edges(ctx, b):
    """(block entered, fact) of the branches on a size."""
    V = ctx.V
    for s in range(len(b.blocks)):
        t = b.blocks[s][1]
        if t[0] != "switch" or t[1][0] not in "cm":
            continue
        cnd = ctx.lift(V.operand(b, t[1], s, len(b.blocks[s][0])))
        if not contains(cnd, size_of):
            continue
        m = dict((v, g) for v, g in t[2])
        if 0 in m:
            yield m[0], mk("un", "Not", cnd), s
            yield t[3], cnd, s
        elif 1 in m:
            yield m[1], cnd, s
            yield t[3], mk("un", "Not", cnd), s


def gates(ctx, b):
    """Blocks entered by an edge that says there is room."""
    ok = set()
    for g, f, s in edges(ctx, b):
        for y in ctx_alts(f):
            if room(y) is None:
                break
        else:
            ok.add((s, g))
    return ok


def ctx_alts(f):
    if f.k == "un" and f.a[0] == "Not" and f.a[1].k == "phi":
        return [mk("un", "Not", z) for z in f.a[1].a]
    return list(alts(f))


def pass_edges(ctx, b, src, cut, dst):
    """Every path from src to dst takes one of the edges `cut`."""
    seen, st = {src}, [src]
    while st:
        x = st.pop()
        for s in b.succs(x):
            if (x, s) in cut or s in seen:
                continue
            if s in dst:
                return False, x
            seen.add(s)
            st.append(s)
    return True, None


def run(ctx):
    P, V = ctx.P, ctx.V
    readers = demux(ctx)
    ctx.floor("tasks that demultiplex a remote stream", len(readers))
    n = w = 0
    for b, reads in readers:
        cut = gates(ctx, b)
        # a helper that waits until there is room
        helpers = set()
        for k, t in b.calls():
            f = P.bodies.get(callee_name(t) or "")
            q = P.bodies.get((f.path + "::{closure#0}") if f else "")
            if q is not None and q.coroutine and not q.skip and "generated" not in q.file:
                c2 = gates(ctx, q)
                stop = {g for fut, g in select_arms(ctx, q) if named(fut, "cancelled", "cancelled_owned")}
                c2 |= {(x, g) for g in stop for x in range(len(q.blocks)) if g in q.succs(x)} if c2 else set()
                if c2 and all(pass_edges(ctx, q, 0, c2, {r})[0] for r in q.returns()):
                    helpers.add(k)
                    w += wait(ctx, q)
        cut |= {(x, s) for k in helpers for x in [k] for s in b.succs(k)}
        for k, t in b.calls():
            if re.search(r"MemoryReservation::(grow|try_grow)$", callee_name(t) or "") or (P.bodies.get(callee_name(t) or "") and any(re.search(r"MemoryReservation::grow$", callee_name(u) or "") for _, u in P.bodies[callee_name(t)].calls())):
                n += 1
                ok, x = pass_edges(ctx, b, k, cut, set(reads))
                ctx.ob("gate:before-read", ok and bool(cut), "after bytes were buffered, the connection is read without having seen that there is room for more", ctx.where(b, k))
        w += wait(ctx, b)
    ctx.floor("places that add to what is buffered", n)
    ctx.floor("waits for room", w)
    config(ctx, readers)
    channels(ctx)
    senders(ctx)


def wait(ctx, b):
    n = 0
    for k, t in b.calls():
        if re.search(r"Notify::notified(_owned)?$", callee_name(t) or ""):
            fs = [ctx.lift(f) for f in ctx.facts(b, k)]
            sized = [f for f in fs if contains(f, size_of)]
            if not sized and not any(contains(f, size_of) for _, f, s in edges(ctx, b) if s in b.reach_from(k) and k in b.reach_from(s)):
                continue
            n += 1
            kinds = {full(f) for f in sized}
            ctx.ob("wait:only-full", "some" in kinds and "over" in kinds, f"the task waits for room although there is: {[show(f)[:140] for f in sized]}", ctx.where(b, k))
    return n


def config(ctx, readers):
    """the tests compare with the configured budget and the reservation that the guards grow"""
    P, V = ctx.P, ctx.V
    gs = guards_of(ctx)
    for b, _ in readers:
        res = {V.arg(b, k, t, 0) for k, t in b.calls() if re.search(r"MemoryReservation::(grow|try_grow)$", callee_name(t) or "")}
        for g, f, s in edges(ctx, b):
            for z in walk(f):
                if size_of(z) and res:
                    ctx.ob("gate:same", z.a[2] in res, "the size that is tested is not that of what is buffered", ctx.where(b, s))
                if z.k == "f" and "budget" in z.a[1]:
                    ctx.ob("gate:configured", contains(z, lambda y: named(y, "get", "get_extension", "session_config", "config_options", "options")) or z.a[0].k == "p", f"the budget is the configured one: {show(z)[:160]}", ctx.where(b, s))
    for ty, (b, fa, fr, fn) in gs.items():
        ctx.ob("wait:woken", fn is not None, "giving bytes back does not wake the task that waits for room", ctx.where(b))


def channels(ctx):
    P, V = ctx.P, ctx.V
    gs = guards_of(ctx)
    n = 0
    for b in P.own:
        if b.skip:
            continue
        for k, t in b.calls():
            nm = callee_name(t) or ""
            if not re.search(r"(unbounded_channel|unbounded|mpsc::channel|bounded::channel)$", nm):
                continue
            ty = P.ty_s(b.ty(t[3][0]))
            if not re.search(r"RecordBatch\b|FlightData\b", ty):
                continue
            n += 1
            if "unbounded" in nm or re.search(r"std::sync::mpsc", nm):
                ctx.ob("channel:guarded", any(g in ty for g in gs), f"record batches are put in an unbounded channel without the guard of their bytes: {ty[:160]}", ctx.where(b, k))
    ctx.floor("channels of record batches", n)


def senders(ctx):
    P, V = ctx.P, ctx.V
    n = 0
    for f in P.own:
        if f.skip or not any(last(callee_name(t) or "") == "select_all" for _, t in f.calls()) or not any("protocol" in x.file for x, _, _ in ctx.call_sites(f)):
            continue
        for q in ctx.tree(f):
            for k, t in q.calls():
                nm = callee_name(t) or ""
                if re.search(r"mpsc::\w*:*channel$|bounded::channel$", nm) and t[2]:
                    n += 1
                    y = V.arg(q, k, t, 0)
                    for p in sorted({z for z in walk(y) if z.k == "p" and z.a[0] == f.path}, key=show):
                        for c_, blk, u in ctx.call_sites(f):
                            z = V.arg(c_, blk, u, p.a[1] - 1)
                            ctx.ob("queue:constant", finite(ctx, z), f"the capacity of the queue is a constant: {show(z)[:80]}", ctx.where(c_, blk))
                    if y.k != "p":
                        ctx.ob("queue:constant", finite(ctx, y), f"the capacity of the queue is a constant: {show(y)[:80]}", ctx.where(q, k))
                elif re.search(r"unbounded(_channel)?$", nm):
                    ctx.bad("queue:bounded", "the queue of a response is unbounded", ctx.where(q, k))
            nexts = {k for k, t in q.calls() if re.search(r"StreamExt::next$|TryStreamExt::try_next$", callee_name(t) or "")}
            sends = {k for k, t in q.calls() if last(callee_name(t) or "") == "send" and "mpsc" in (callee_name(t) or "")}
            for s, none, some in ends_of_stream(ctx, q) if nexts else []:
                ok, path = ctx.must_pass(q, some, sends, nexts)
                ctx.ob("queue:accepted", ok and bool(sends), "the next item is read before the queue accepted the previous one", ctx.where(q, path[-1] if path else some))
            for k in sends:
                # awaited: the future made here is polled before the next read
                polls = {j for j, t in q.calls() if re.search(r"Future::poll$|IntoFuture::into_future$", callee_name(t) or "")}
                ok = all(ctx.must_pass(q, x, polls, nexts)[0] for x in q.succs(k))
                ctx.ob("queue:awaited", ok, "sending does not wait for room in the queue", ctx.where(q, k))
    ctx.floor("queues of responses", n)


def finite(ctx, y):
    s = show(y)
    m = re.fullmatch(r"'((\w+::)*[A-Z][A-Z0-9_]*)'", s)
    if m and "crate::" + m.group(1) in ctx.P.bodies:
        s = show(ctx.V.ret("crate::" + m.group(1)))
    return bool(re.fullmatch(r"\d+", s)) and int(s) <= 1 << 20 or bool(re.fullmatch(r"'(\w+::)*[A-Z][A-Z0-9_]*'", s))
