"""The worker's task registry. (1) The cell a task is published in: its content is assigned only where it is known to be empty,
inside one atomic modification, and every wait for it is limited in time and ends in a value or an error. (2) The coordinator's
channel: every path that returns has published the outcome of the set-up, the published value covers the set-up's errors, nothing can
fail between a successful publication and the start of the task that owns the entry, and every path of that task removes the entry under
the key it was published under. (3) Readers: the plan is only taken from the cell, errors are handed on, partitions are checked."""
from ..core import *
from ..spec import Spec
from . import c01

TECHNIQUE = "must-pass and reachability analysis over compiler MIR; branch facts at every write of the cell; conditional constant propagation for failures after publication; provenance of the registry keys"
NOTE = "Waiting ends because tokio::time::timeout ends; the expiry of never-removed entries is the cache's. Panics of user code during set-up are not modelled (readers then time out)."

ENTRY = re.compile(r"::(get_with|entry|get_or_insert_with|try_get_with|or_default|or_insert_with)$")
CELL = "SingleWriteMultiRead"


def cell(ctx):
    """The write-once cell."""
    P, V = ctx.P, ctx.V
    own = [b for b in P.own if f"{CELL}" in b.path and f"{CELL}Error" not in b.path.split("::{")[0].split(" as ")[0]]
    writes = waits = 0
    for b in own:
        for blk, t in b.calls():
            n = callee_name(t) or ""
            if re.search(r"watch::Sender<.*>::(send_modify|send_if_modified)$", n):
                writes += 1
                f = ctx.V.arg(b, blk, t, 1)
                for y in alts(f):
                    if y.k != "clo":
                        ctx.bad("cell:modification", f"cannot see how the cell is modified: {show(y)[:120]}", ctx.where(b, blk))
                        continue
                    q = P.bodies[y.a[0]]
                    stores(ctx, q)
            elif re.search(r"watch::Sender<.*>::(send|send_replace)$", n):
                ctx.bad("cell:overwritten", f"{last(n)} replaces the content of the cell whatever it holds", ctx.where(b, blk))
            elif re.search(r"Receiver<.*>::(wait_for|changed)$", n):
                waits += 1
                # the future is only awaited inside a timeout
                limited = [(q, k) for q in ctx.tree(b) + own for k, u in q.calls() if (callee_name(u) or "").endswith("time::timeout::timeout") and contains(V.arg(q, k, u, 1), lambda z: z.k == "call" and z.a[0] == n)]
                whole = b.coroutine and any((callee_name(u) or "").endswith("time::timeout::timeout") and contains(V.arg(q, k, u, 1), lambda z: z.k == "clo" and z.a[0] == b.path or z.k == "call" and P.bodies.get(z.a[0]) is not None and b.path.startswith(z.a[0] + "::{")) for q in P.own for k, u in q.calls())
                ctx.ob("cell:wait", bool(limited) or whole, f"waiting for the cell must be limited in time", ctx.where(b, blk))
                if last(n) == "wait_for":
                    for y in alts(V.arg(b, blk, t, 1)):
                        r = V.ret(y.a[0]) if y.k == "clo" else None
                        ok = r is not None and all(named(x, "is_some") and x.a[2].k == "p" or x.k == "isv" or x.k == "op" for x in alts(r))
                        ctx.ob("cell:wait-for", ok, f"readers wait until something was published: {show(r if r is not None else y)[:150]}", ctx.where(b, blk))
    ctx.floor("atomic writes of the cell", writes)
    ctx.floor("waits for the cell", waits)
    # what a reader gets
    for b in own:
        if b.coroutine and any(re.search(r"(wait_for|changed)$", callee_name(t) or "") for q in ctx.tree(b) for _, t in q.calls()):
            r = V.ret(b.path)
            errs = [y for y in alts(r) if y.k == "E"]
            ctx.ob("cell:timeout", bool(errs), f"a reader that waited too long gets an error: {show(r)[:200]}", ctx.where(b))
            for y in alts(r):
                ok = y.k in ("E", "never") or contains(y, lambda z: z.k in ("p", "f") or z.k == "call" and "wait_for" in z.a[0])
                ctx.ob("cell:value", ok and not contains(y, lambda z: named(z, "default", "unwrap_or_default")), f"a reader gets what was published: {show(y)[:200]}", ctx.where(b))


def named(y, *names):
    return y.k == "call" and last(y.a[0]) in names


def stores(ctx, q):
    """Every assignment through the closure's argument happens where the content is known to be empty."""
    V = ctx.V
    n = 0
    for blk, t in q.calls():
        nm = callee_name(t) or ""
        if last(nm) in ("insert", "replace", "take", "get_or_insert", "get_or_insert_with", "swap") and "option::Option" in nm or nm.endswith("mem::replace") or nm.endswith("mem::swap"):
            if last(nm).startswith("get_or_insert"):
                n += 1
                continue
            if contains(V.arg(q, blk, t, 0), lambda z: z.k == "p" and z.a[0] == q.path and z.a[1] == 2):
                n += 1
                ctx.ob("cell:once", empty_at(ctx, q, blk), f"the cell is changed with {last(nm)} where it may already hold a value", ctx.where(q, blk))
    for blk, si, a in q.assigns():
        place = a[1]
        loc, proj = place[0], place[1]
        if proj and proj[0] == "*" and loc in refs_of(q, 2):
            n += 1
            ctx.ob("cell:once", empty_at(ctx, q, blk), "the cell is assigned where it may already hold a value", ctx.where(q, blk))
    ctx.floor("assignments of the cell", n)


def refs_of(q, p):
    out, ch = {p}, True
    while ch:
        ch = False
        for blk, si, a in q.assigns():
            rv = a[2]
            src = None
            if rv[0] in ("use", "cast") and rv[1][0] in ("c", "m"):
                src = rv[1][1]
            elif rv[0] == "ref":
                src = rv[1] if isinstance(rv[1], list) else rv[2]
            if src and isinstance(src, list) and src[0] in out and not a[1][1] and a[1][0] not in out and all(x == "*" for x in src[1]):
                out.add(a[1][0])
                ch = True
    return out


def empty_at(ctx, q, blk):
    arg = lambda z: z.k == "p" and z.a[0] == q.path and z.a[1] == 2
    for f in ctx.facts(q, blk):
        if f.k == "isv" and arg(f.a[0]) and (set(f.a[1]) == {0} and not f.a[2] or 1 in f.a[1] and f.a[2]):
            return True
        if named(f, "is_none") and arg(f.a[2]):
            return True
        if f.k == "un" and f.a[0] == "Not" and named(f.a[1], "is_some") and arg(f.a[1].a[2]):
            return True
    return False


def is_write(t):
    return bool(re.search(rf"{CELL}.*::write$", callee_name(t) or ""))


def channel(ctx):
    P, V = ctx.P, ctx.V
    sites = [(b, blk, t) for b in P.own for blk, t in b.calls() if is_write(t) and CELL not in b.path]
    ctx.floor("publications", len(sites))
    roots = {}
    for b, blk, t in sites:
        ks = [y for y in walk(ctx.lift(V.arg(b, blk, t, 0))) if y.k == "call" and ENTRY.search(y.a[0])]
        ctx.ob("publish:entry", bool(ks), f"what is published goes to an entry of the registry: {show(V.arg(b, blk, t, 0))[:200]}", ctx.where(b, blk))
        roots.setdefault(top(ctx, b), []).append((b, blk, t, ctx.lift(ks[0].a[3]) if ks else None))
    for r, ws in roots.items():
        # -- every path publishes
        direct = {blk for b, blk, t, k in ws if b is r} | {blk for blk, t in r.calls() if any(reaches(ctx, t, b) for b, _, _, _ in ws if b is not r)}
        ok, path = ctx.must_pass(r, 0, direct)
        ctx.ob("publish:always", ok, f"a path of the set-up returns without publishing its outcome", ctx.where(r, path[-1] if path else None))
        for b, blk, t, key in ws:
            v = ctx.lift(V.arg(b, blk, t, 1))
            kinds = {("E" if y.k == "E" else "ok") for y in alts(v)}
            ctx.ob("publish:outcome", kinds == {"E", "ok"}, f"both the set-up's result and its errors are published: {kinds}", ctx.where(b, blk))
            owners(ctx, r, b, blk, key)
        after(ctx, r)


def top(ctx, b):
    """The asynchronous body (public entry) the publication belongs to."""
    while True:
        us = {q.path: q for q, *_ in ctx.users(b)} if False else {}
        for q in ctx.P.own:
            for blk, t in q.calls():
                n = callee_name(t) or ""
                tgt = ctx.P.bodies.get(n)
                if tgt is not None and (tgt is b or b.path.startswith(n + "::{")) and not q.path.startswith(n) and CELL not in q.path:
                    us[q.path] = q
        us = {p: q for p, q in us.items() if any(x in p for x in ("Worker::", "worker"))and "coordinator_channel" in p}
        if b.path.startswith("crate::worker::worker_service::Worker::coordinator_channel::{closure#0}") and b.path.count("::{") == 1 or len(us) != 1:
            return b
        b = next(iter(us.values()))


def reaches(ctx, t, b):
    n = callee_name(t) or ""
    return bool(n) and (n == b.path or b.path.startswith(n + "::{"))


def owners(ctx, r, b, blk, key):
    """The task that forgets the entry: every path removes it, under the same key, and nothing returns without starting it."""
    P, V = ctx.P, ctx.V
    rem = []
    for q in P.own:
        for k, t in q.calls():
            if re.search(r"Cache<.*>::(invalidate|remove)$", callee_name(t) or "") and contains(ctx.lift(V.arg(q, k, t, 0)), lambda z: z.k == "f" and z.a[1] == "task_data_entries" or z.k == "call" and "Cache" in z.a[0]):
                rem.append((q, k, ctx.lift(V.arg(q, k, t, 1))))
    ctx.ob("forget:exists", bool(rem), "no place removes a task from the registry", ctx.where(r))
    good = []
    for q, k, y in rem:
        same = all(z is key or z == key for z in alts(y)) if key is not None else False
        ctx.ob("forget:key", same, f"the entry is removed under the key it was published under ({show(key)[:80] if key is not None else None}), not {show(y)[:100]}", ctx.where(q, k))
        good.append((q, k))
    # the bodies that run in the background
    started = []
    for k, t in r.calls():
        n = callee_name(t) or ""
        if last(n) in ("spawn", "spawn_local") and t[2]:
            for y in walk(V.arg(r, k, t, 0)):
                p = y.a[0] if y.k == "clo" else None
                q = P.bodies.get(p) if p else None
                if q is None and y.k == "call":
                    q = P.bodies.get(y.a[0] + "::{closure#0}")
                if q is None:
                    continue
                for g, gk in good:
                    if g is q or g.path.startswith(q.path + "::") or any(reaches(ctx, u, g) for _, u in q.calls()):
                        started.append((k, q))
    ctx.ob("forget:owner", bool(started), "a task started for the channel must own the removal of the entry", ctx.where(r))
    for k, q in started:
        through = {gk for g, gk in good if g is q} | {bk for bk, u in q.calls() if any(reaches(ctx, u, g) for g, _ in good)}
        ok, path = ctx.must_pass(q, 0, through)
        ctx.ob("forget:always", ok, "the task ends without removing its entry on some path", ctx.where(q, path[-1] if path else None))
        # removed only when the channel ended: the loop over the channel is left before
        ok = all(any(h not in q.reach_from(x) for h in V.loops(q)) for x in through) if V.loops(q) else True
        ctx.ob("forget:after", ok, "the entry is removed while the channel is still being read", ctx.where(q))
    fails = set(fail_blocks(ctx, r))
    ok, path = ctx.must_pass(r, 0, {k for k, _ in started} | fails)
    ctx.ob("forget:started", ok, "a successful set-up returns without starting the task that forgets it", ctx.where(r, path[-1] if path else None))


def after(ctx, r):
    """Once a task was published successfully, its channel cannot fail any more before the owner of the entry is started."""
    P = ctx.P
    setups = tuple(b.path for b in P.own if "Result<crate::worker::task_data::TaskData," in P.ty_s(b.ty(0)) and (b.coroutine or b.kind != "Closure"))
    setups += tuple(p.rsplit("::{closure", 1)[0] for p in setups if P.bodies[p].coroutine)

    class S(Spec):
        def discr1(self, y, base):
            if y.k == "call" and base.endswith("result::Result") and (y.a[0] in setups or y.a[0].endswith("::write") and CELL in y.a[0]):
                return {0}
            if y.k == "clo" and base.endswith("result::Result") and y.a[0] in setups:
                return {0}
            return super().discr1(y, base)
    s = S(P, setups + tuple(b.path for b in P.own if CELL in b.path))
    res = s.spec(r.path, [mk("p", r.path, i) for i in range(1, r.argc + 1)])
    errs = [y for y in alts(res) if y.k == "E" and not contains(y, lambda z: z.k == "err" and all(named(w, "write") or w.k == "call" and ENTRY.search(w.a[0]) or w.k == "clo" and w.a[0] in setups or w.k == "call" and w.a[0] in setups for w in alts(z.a[0])))]
    ctx.ob("publish:then-runs", not errs, f"after a task was published its channel can still fail, and its entry would never be removed: {[show(y)[:160] for y in errs[:2]]}", ctx.where(r))


def registry(ctx):
    P, V = ctx.P, ctx.V
    n = 0
    for b in P.own:
        for blk, t in b.calls():
            nm = callee_name(t) or ""
            if re.search(r"(CacheBuilder<.*>::build|Cache<.*>::(new|default))$", nm) and "worker_service" in b.file and "grpc" not in b.file:
                n += 1
                y = V.arg(b, blk, t, 0) if last(nm) == "build" else None
                ok = y is not None and contains(y, lambda z: named(z, "time_to_idle", "time_to_live"))
                ctx.ob("registry:expires", ok, "entries that are never removed (failed set-ups, tasks nobody set up) must expire", ctx.where(b, blk))
    ctx.floor("registries", n)


def readers(ctx):
    P, V = ctx.P, ctx.V
    n = 0
    for b in P.own:
        for blk, t in b.calls():
            if re.search(rf"{CELL}.*::read$", callee_name(t) or "") and CELL not in b.path:
                n += 1
                d = V.arg(b, blk, t, 1)
                ctx.ob("reader:limit", not contains(d, lambda z: z.k == "call" and z.a[0].endswith("Duration::MAX")) and "MAX" not in show(d), f"the wait has a limit: {show(d)[:100]}", ctx.where(b, blk))
                r = top(ctx, b)
                S = Spec(P, tuple(x.path for x in P.own if last(x.path) == "plan" or CELL in x.path))
                res = S.spec(b.path, [mk("p", b.path, i) for i in range(1, b.argc + 1)])
                isread = lambda z: z.k == "call" and CELL in z.a[0] and last(z.a[0]) == "read"
                ctx.ob("reader:error", any(y.k == "E" and contains(y, lambda z: z.k == "err" and contains(z, isread)) for y in alts(res)), "a read that times out, or finds a failed set-up, is an error", ctx.where(b, blk))
                ctx.ob("reader:plan", all(y.k in ("E", "never") or contains(y, isread) for y in alts(res)), "what is executed is what was published", ctx.where(b, blk))
    ctx.floor("readers of published tasks", n)
    c01.worker_exec(ctx)


def run(ctx):
    cell(ctx)
    channel(ctx)
    registry(ctx)
    readers(ctx)
