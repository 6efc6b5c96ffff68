"""Buffered bytes. A guard type gives back, whenever it is dropped, exactly the amount it carries to the reservation it carries, and then
wakes the task that waits for room. Every amount added to a connection's reservation is handed to exactly one such guard before the next
message is read, with the same amount and the same reservation, and the guard travels inside the queued message: it is dropped when the
message is read or discarded. A stream that nobody took is released when its consumer goes away, and stays released."""
from ..core import *
from .c04 import named, demux, sender_of

TECHNIQUE = "ownership and typestate analysis over compiler MIR: pairing of grow with a drop guard of the same amount, must-pass analysis, moves of the guard type, terms compared by provenance"
NOTE = "Rust drops every value that is not leaked; the memory pool's own bookkeeping is DataFusion's."

OTHER = ("shrink", "try_shrink", "free", "resize", "try_resize", "split", "take", "new_empty")


def guards_of(ctx):
    """type -> (drop body, field of the amount, field of the reservation, field of the notifier or None)"""
    P, V = ctx.P, ctx.V
    out = {}
    for b in P.own:
        if b.skip or not b.path.endswith("Drop>::drop"):
            continue
        for k, t in b.calls():
            if re.search(r"MemoryReservation::(shrink|try_shrink)$", callee_name(t) or ""):
                r, n = V.arg(b, k, t, 0), V.arg(b, k, t, 1)
                if r.k == "f" and r.a[0].k == "p":
                    ty = (b.self_ty or "").split("::")[-1]
                    ok = n.k == "f" and n.a[0] is r.a[0]
                    ctx.ob("guard:amount", ok, f"the guard gives back the amount it carries: {show(n)[:100]}", ctx.where(b, k))
                    ctx.ob("guard:always", always(ctx, b, k), "the guard can be dropped without giving anything back", ctx.where(b, k))
                    ctx.ob("guard:once", not any(k in b.reach_from(x) for x in b.succs(k)), "the guard gives back more than once", ctx.where(b, k))
                    nf = None
                    for j, u in b.calls():
                        if re.search(r"Notify::notify_\w+$", callee_name(u) or ""):
                            z = V.arg(b, j, u, 0)
                            one = last(callee_name(u)) in ("notify_one", "notify_last")
                            ctx.ob("guard:wakes", one and always(ctx, b, j), "the task that waits for room can miss that there is room" if not one else "the guard can be dropped without waking the task that waits for room", ctx.where(b, j))
                            ctx.ob("guard:order", b.dominates(k, j), "the task that waits for room is woken before there is", ctx.where(b, j))
                            nf = z.a[1] if z.k == "f" else None
                    if ok:
                        out[b.self_ty] = (b, n.a[1], r.a[1], nf)
    return out


def value(y, name):
    return y.a[3 + list(y.a[2]).index(name)] if y.k == "agg" and name in y.a[2] else None


def run(ctx):
    P, V = ctx.P, ctx.V
    readers = demux(ctx)
    ctx.floor("tasks that demultiplex a remote stream", len(readers))
    gs = guards_of(ctx)
    ctx.floor("guards of an amount", len(gs))
    grown = 0
    for b, reads in readers:
        for k, t in b.calls():
            n = callee_name(t) or ""
            if re.search(r"MemoryReservation::(grow|try_grow)$", n):
                grown += 1
                grow(ctx, b, k, t, gs, set(reads))
            elif re.search(r"MemoryReservation::(%s)$" % "|".join(OTHER), n):
                ctx.bad("pairing:other", f"the reservation is changed without its guard ({last(n)})", ctx.where(b, k))
    files = {b.file for b, _ in readers}
    helpers = [q for q in P.own if q.file in files and not q.skip and q not in [b for b, _ in readers]]
    for q in helpers:
        if q.path in {g[0].path for g in gs.values()}:
            continue
        for k, t in q.calls():
            n = callee_name(t) or ""
            if re.search(r"MemoryReservation::(grow|try_grow)$", n):
                grown += 1
                grow(ctx, q, k, t, gs, set())
            elif re.search(r"MemoryReservation::(%s)$" % "|".join(OTHER), n):
                ctx.bad("pairing:other", f"the reservation is changed without its guard ({last(n)})", ctx.where(q, k))
    ctx.floor("amounts added", grown)
    moves(ctx, gs)
    sends(ctx, readers, gs)
    waits(ctx, readers, gs)
    slots(ctx)
    selected(ctx)


def made(ctx, b, gs):
    out = []
    for blk, si, a in b.assigns():
        if a[2][0] == "agg" and a[2][1][0] == "adt" and a[2][1][1] in gs:
            out.append((blk, ctx.V.rvalue(b, a[2], blk, si), a[2][1][1]))
    # a constructor of the guard counts as its construction
    for j, u in b.calls():
        f = ctx.P.bodies.get(callee_name(u) or "")
        if f is not None and not f.skip and not f.coroutine and b.path != f.path:
            y = ctx.V.ret(f.path)
            if y.k == "agg" and y.a[0] in gs:
                out.append((j, subst(y, {p: ctx.V.arg(b, j, u, p.a[1] - 1) for p in walk(y) if p.k == "p" and p.a[0] == f.path}), y.a[0]))
    return out


def grow(ctx, b, k, t, gs, reads):
    V = ctx.V
    r, n = V.arg(b, k, t, 0), V.arg(b, k, t, 1)
    ms = made(ctx, b, gs)
    good = set()
    for blk, y, ty in ms:
        _, fa, fr, fn = gs[ty]
        ok = value(y, fa) is n and value(y, fr) is r
        ctx.ob("pairing:same", ok, f"the guard gives back what was added, where it was added: added {show(n)[:90]}, given back {show(value(y, fa))[:90]}", ctx.where(b, blk))
        if ok:
            good.add(blk)
    starts = [k] if k in good else list(b.succs(k))
    for x in starts:
        ok, path = ctx.must_pass(b, x, good, set(b.returns()) | reads)
        ctx.ob("pairing:guarded", ok and bool(good), "an amount is added that no guard gives back", ctx.where(b, k))
    for g in good:
        ok0, _ = ctx.must_pass(b, 0, {k}, [g])
        again = all(ctx.must_pass(b, x, {k}, [g])[0] for x in b.succs(g))
        ctx.ob("pairing:once", ok0 and again, "a guard gives back an amount that was not added", ctx.where(b, g))


def guard_ty(ctx, gs, ty):
    return ty in gs or any(ty == g for g in gs)


def moves(ctx, gs):
    """The guard only ever lives in a queued message."""
    P, V = ctx.P, ctx.V
    for b in P.own:
        if b.skip:
            continue
        for k, t in b.calls():
            n = callee_name(t) or ""
            for i, o in enumerate(t[2]):
                if o[0] == "m":
                    ty = P.ty_s(b.ty(o[1][0]))
                    if any(g in ty for g in gs) and not ty.startswith("&"):
                        l = last(n)
                        if l in ("forget", "leak") or "ManuallyDrop" in n:
                            ctx.bad("guard:leaked", "a guard is leaked: its amount is never given back", ctx.where(b, k))
                        elif ty in gs and l in ("push", "insert", "push_back", "extend", "set", "replace", "store"):
                            ctx.bad("guard:kept", f"a guard is kept after its message left the queue ({l})", ctx.where(b, k))


def sends(ctx, readers, gs):
    """the guard travels with its message"""
    P, V = ctx.P, ctx.V
    n = 0
    for b, _ in readers:
        for k, t in b.calls():
            if last(callee_name(t) or "") in ("send", "try_send") and len(t[2]) > 1 and t[2][0][0] in "mc" and sender_of(P.ty_s(b.ty(t[2][0][1][0]))):
                y = V.arg(b, k, t, 1)
                if all(x.k == "E" for x in alts(y)):
                    continue
                n += 1
                ctx.ob("message:carries", contains(y, lambda z: z.k == "agg" and z.a[0] in gs), "a message is queued without the guard of its bytes: they are given back although it is still buffered", ctx.where(b, k))
    ctx.floor("messages queued", n)


def waits(ctx, readers, gs):
    P, V = ctx.P, ctx.V
    n = 0
    fields = {ctx.lift(value(y, gs[ty][3])) for b, reads in readers for _, y, ty in made(ctx, b, gs) if gs[ty][3]}
    files = {b.file for b, _ in readers}
    for b in P.own:
        if b.file not in files or b.skip:
            continue
        for k, t in b.calls():
            if re.search(r"Notify::notified(_owned)?$", callee_name(t) or ""):
                sized = [f for f in ctx.facts(b, k) if contains(f, lambda z: named(z, "size"))]
                if not sized and not in_sized_loop(ctx, b, k):
                    continue
                n += 1
                ctx.ob("wait:same", ctx.lift(V.arg(b, k, t, 0)) in fields, "the task waits for room on something that the guards do not wake", ctx.where(b, k))
    ctx.floor("waits for room", n)


def in_sized_loop(ctx, b, k):
    """The wait is in a loop that tests the size of a reservation."""
    for h, body in ctx.V.loops(b).items():
        if k in body:
            inner = [(len(x), x) for g, x in ctx.V.loops(b).items() if k in x]
            body = min(inner, key=lambda z: z[0])[1]
            return any(b.blocks[s][1][0] == "switch" and b.blocks[s][1][1][0] in "cm" and contains(ctx.V.operand(b, b.blocks[s][1][1], s, len(b.blocks[s][0])), lambda z: named(z, "size")) for s in body)
    return False


def slots(ctx):
    """streams that nobody consumes are released"""
    P, V = ctx.P, ctx.V
    n = 0
    for b in P.own:
        if b.skip or not b.path.endswith("Drop>::drop") or "worker_connection_pool" not in b.file:
            continue
        for k, t in b.calls():
            f = P.bodies.get(callee_name(t) or "")
            rep = re.search(r"mem::(replace|take|swap)$", callee_name(t) or "")
            if f is not None and "Slot" in (f.self_ty or "") or rep:
                n += 1
                some = {g for s, m in gets(ctx, b) for g in m}
                for g in some or {0}:
                    ok, _ = ctx.must_pass(b, g, {k})
                    ctx.ob("slot:released", ok, "a consumer can go away without releasing its stream", ctx.where(b, k))
    ctx.floor("releases of unread streams", n)
    # the slot is taken for good; what arrives later is not kept
    for b in P.own:
        if b.skip or "worker_connection_pool" not in b.file or "Slot" not in (b.self_ty or ""):
            continue
        for blk, si, a in b.assigns():
            if "*" in a[1][1] and a[1][0] == 1:
                y = V.rvalue(b, a[2], blk, si)
                if "Ready" in show(y) or y.k == "p":
                    fs = ctx.facts(b, blk)
                    ok = any(f.k == "isv" and not f.a[2] and len(f.a[1]) == 1 and variant(ctx, b, f.a[1][0]) == "Pending" for f in fs)
                    ctx.ob("slot:stays-released", ok, f"a stream that arrives after its consumer went away is kept: {[show(f)[:100] for f in fs]}", ctx.where(b, blk))
        for k, t in b.calls():
            if re.search(r"mem::replace$", callee_name(t) or ""):
                y = V.arg(b, k, t, 1)
                ctx.ob("slot:taken", y.k == "agg" and y.a[1] == "Taken", f"a slot whose stream was taken says so: {show(y)[:60]}", ctx.where(b, k))
    held = []
    for b in P.own:
        if b.skip or "worker_connection_pool" not in b.file:
            continue
        for blk, si, a in b.assigns():
            if a[2][0] == "agg" and a[2][1][0] in ("coroutine", "closure"):
                for o in a[2][2]:
                    if o[0] in "mc" and "ReleaseOnDrop" in P.ty_s(b.ty(o[1][0])):
                        held.append((b, blk))
    types = {x.path for x in P.own if x.path.endswith("Drop>::drop") and "worker_connection_pool" in x.file}
    ctx.ob("slot:guarded", bool(held) or not types, "the release of a stream is only set up once its consumer polls it", "")


def variant(ctx, b, i):
    a = ctx.P.adts.get(b.self_ty)
    try:
        return a["variants"][i]["name"] if isinstance(a, dict) else a[i]
    except Exception:
        return {0: "Pending", 1: "Ready", 2: "Taken"}.get(i)


def gets(ctx, b):
    out = []
    for s in range(len(b.blocks)):
        t = b.blocks[s][1]
        if t[0] == "switch" and t[1][0] in "cm":
            for d in ctx.V.rdefs(b, t[1][1][0], s, len(b.blocks[s][0])):
                if d != "entry" and d[3][0] == "rv" and d[3][1][0] == "discr" and ctx.P.ty_s(d[3][1][2]).startswith("core::option::Option<&"):
                    m = dict((v, g) for v, g in t[2])
                    out.append((s, [m.get(1, t[3])]))
    return out


def selected(ctx):
    """the sending side: what is added when an item is queued is what is subtracted when it leaves the queue"""
    P, V = ctx.P, ctx.V
    for b in P.own:
        if b.skip or not any(last(callee_name(t) or "") == "select_all" for _, t in b.calls()):
            continue
        g, s = [], []
        for q in ctx.tree(b):
            for k, t in q.calls():
                if re.search(r"MemoryReservation::(grow|shrink)$", callee_name(t) or ""):
                    (g if last(callee_name(t)) == "grow" else s).append((q, k, V.arg(q, k, t, 0), unselect(V.arg(q, k, t, 1))))
        if not g and not s:
            continue
        ctx.floor("amounts added and subtracted by senders", min(len(g), len(s)))
        for q, k, r, y in g + s:
            ctx.ob("sender:measure", y.k == "call" and {y.a[0]} == {z.a[0] for _, _, _, z in g + s if z.k == "call"} and len({x.a[0] if x.k == "call" else x for _, _, _, x in g + s}) == 1, f"an item is measured the same way when it is queued and when it leaves the queue: {show(y)[:120]}", ctx.where(q, k))
            ctx.ob("sender:same", len({id(x) for _, _, x, _ in g + s}) == 1, "amounts are added to one reservation and subtracted from another", ctx.where(q, k))
            fs = [f for f in ctx.facts(q, k) if not (f.k == "isv" and not f.a[2])]
            extra = [f for f in fs if f.k == "op"]
            ctx.ob("sender:every", not extra, f"some items are only counted on one side: {[show(f)[:80] for f in extra]}", ctx.where(q, k))
