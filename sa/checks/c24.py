"""Ownership of background tasks. The handle of every spawned task is kept on all paths: returned, stored, captured by what is returned, or
awaited; it is not leaked. Every task whose future has a result is joined, and a task that failed or panicked is an error of whoever joins it.
A task that is let go of ends by itself: every loop of it that can be suspended reads a channel (or the messages of a request) and leaves when
that has ended, or sends to a channel and leaves when its receiver is gone, and it waits for nothing else."""
from ..core import *
from .c08 import gives

TECHNIQUE = "ownership analysis over compiler MIR: where the handle of each spawned task flows on every path; loop exits of detached tasks; treatment of join errors"
NOTE = "tokio and DataFusion: dropping a SpawnedTask, a JoinSet or the stream of a RecordBatchReceiverStreamBuilder aborts its tasks; join_all and the receiver stream re-raise panics; reading a channel ends once all its senders are dropped."

SPAWN = r"SpawnedTask(<.*>)?::spawn(_blocking)?$|JoinSet(<.*>)?::(spawn|spawn_on|spawn_local|spawn_blocking|build_task)\w*$|StreamBuilder(<.*>)?::spawn(_blocking)?$|tokio::(runtime::)?task::\w+::spawn\w*$|runtime::(handle::Handle|runtime::Runtime)::spawn\w*$|^std::thread::(functions::)?spawn\w*$|thread::spawn$|LocalSet::spawn_local$"
CHAN = r"unbounded_channel|mpsc::(bounded::|unbounded::)?channel|watch::channel|oneshot::channel|broadcast::channel"


def sites(ctx):
    for b in ctx.P.own:
        if b.skip:
            continue
        for k, t in b.calls():
            n = callee_name(t) or ""
            if re.search(SPAWN, n) and not n.startswith("crate::"):
                yield b, k, t, n


def keeps(ctx, b, l):
    """blocks after which something that outlives the function owns the handle; blocks that leak it"""
    P = ctx.P
    S, end, leak = {l}, set(), set()
    refs = {}
    for x, si, a in b.assigns():
        if a[2][0] in ("ref", "refm") and not a[1][1]:
            refs.setdefault(a[1][0], set()).add(a[2][1][0])
    for _ in range(3):
        for x, si, a in b.assigns():
            if not a[1][1] and a[2][0] in ("ref", "refm", "use"):
                pl = a[2][1] if a[2][0] != "use" else (a[2][1][1] if a[2][1][0] in "cm" else None)
                if pl and pl[0] in refs and (a[2][0] == "use" or pl[1][:1] == ["*"]):
                    refs.setdefault(a[1][0], set()).update(refs[pl[0]])
    ch = True
    while ch:
        ch = False
        n0 = len(S) + len(end) + len(leak)
        for x, si, a in b.assigns():
            rv = a[2]
            if rv[0] not in ("ref", "refm", "discr") and any(o[0] == "m" and o[1][0] in S for o in ops(rv)):
                if a[1][0] == 0 or "*" in a[1][1]:
                    end.add(x)
                else:
                    S.add(a[1][0])
        for x, t in b.calls():
            n = last(callee_name(t) or "")
            if not t[2]:
                continue
            moved = [i for i, o in enumerate(t[2]) if o[0] == "m" and o[1][0] in S]
            viaref = [i for i, o in enumerate(t[2]) if o_local(o) in refs and refs[o_local(o)] & S]
            if viaref and n in ("clone", "deref", "as_ref", "deref_mut", "as_mut", "abort_handle") and n != "abort_handle":
                S.add(t[3][0])
            if not moved or n in ("drop",):
                continue
            if n in ("forget", "leak", "into_raw", "detach"):
                leak.add(x)
            elif n in ("into_future", "poll", "join_unwind", "join", "join_unwind_mut"):
                end.add(x)
            elif t[3][0] == 0:
                end.add(x)
            else:
                r = o_local(t[2][0]) if 0 not in moved else None
                tg = refs.get(r, set()) if r is not None else set()
                if tg:
                    # a collection or cell: a local one has to be kept itself
                    for g in tg:
                        S.add(g) if not is_ref(P, b, g) else end.add(x)
                elif r is not None and is_ref(P, b, r):
                    end.add(x)
                if P.ty_s(b.ty(t[3][0])) not in ("()", "bool", "usize"):
                    S.add(t[3][0])
        ch = len(S) + len(end) + len(leak) != n0
    return S, end, leak


def is_ref(P, b, l):
    return P.ty_s(b.ty(l)).startswith("&") or "Guard<" in P.ty_s(b.ty(l))


WAITS = r"^std::future::pending|future::pending|Notify::notified|Interval::tick|Barrier::wait|Semaphore::acquire|signal::"


AWAITS = r"::Next<|TryNext<|^\{async fn body of (tokio::sync|moka::|crate::)|time::sleep::Sleep|oneshot::Receiver<|::Ready<"


def detached(ctx, b, k, t):
    """the spawned future ends by itself"""
    P, V = ctx.P, ctx.V
    q = None
    for o in t[2]:
        l = o_local(o)
        if l is None:
            continue
        y = V.arg(b, k, t, t[2].index(o))
        for z in walk(y):
            if z.k == "clo" and z.a[0] in P.bodies:
                q = P.bodies[z.a[0]]
                break
        if q is None and named(y):
            q = P.bodies.get(y.a[0]) or P.bodies.get(y.a[0] + "::{closure#0}")
    ctx.ob("detached:known", q is not None, "a task is let go of whose code is not known", ctx.where(b, k))
    if q is None:
        return
    todo, seen = [q], set()
    while todo:
        f = todo.pop()
        if f.path in seen:
            continue
        seen.add(f.path)
        for x, u in f.calls():
            n = callee_name(u) or ""
            ctx.ob("detached:waits", not re.search(WAITS, n), f"a task that is let go of waits for something that may never happen ({last(n)})", ctx.where(f, x))
            if last(n) == "into_future" and u[2] and o_local(u[2][0]) is not None:
                ft = P.ty_s(f.ty(o_local(u[2][0])))
                made = [callee_name(w) or "" for y, w in f.calls() if w[3][0] == o_local(u[2][0])]
                ctx.ob("detached:awaits", bool(re.search(AWAITS, ft)) or any(re.search(r"^<?(tokio::sync::|moka::)|StreamExt::(next|try_next)$|time::sleep::sleep$", m) or m + "::{closure#0}" in P.bodies for m in made), f"a task that is let go of waits for something that does not end with its channels: {ft[:100]}", ctx.where(f, x))
            g = P.bodies.get(n + "::{closure#0}")
            if g is not None and g.coroutine and not g.skip:
                todo.append(g)
        suspends(ctx, f)


def named(y):
    return y.k == "call"


def suspends(ctx, f):
    P, V = ctx.P, ctx.V
    own = {"poll", "new_unchecked", "get_context", "as_mut"}
    for h, body in ctx.loops(f).items():
        if not any(f.blocks[x][1][0] == "yield" for x in body):
            continue
        if not any(f.blocks[x][1][0] == "call" and last(callee_name(f.blocks[x][1]) or "") not in own for x in body):
            continue        # the loop of an await
        ends = [(s, n) for s, n, m in ends_of_stream(ctx, f) if (n in body or any(p in body for p in f.preds(n))) and inner(ctx, f, n, own) is body]
        ok = False
        for s, n in ends:
            if n in body and any(x == h for x in f.reach_from(n) & body):
                # the end of the stream goes on with the loop
                if not leaves(f, n, body, h):
                    ctx.bad("detached:ends", "a task that is let go of goes on when the channel it reads has ended", ctx.where(f, n))
                    continue
            src = ctx.lift(s)
            good = not contains(src, lambda z: z.k == "call" and last(z.a[0]) in ("execute", "interval", "repeat", "pending", "cycle", "repeat_with"))
            ctx.ob("detached:source", good, f"a task that is let go of reads something that may never end: {show(src)[:100]}", ctx.where(f, n))
            ok = ok or good
        sends = []
        for x in body:
            t = f.blocks[x][1]
            if t[0] == "call" and re.search(r"(watch|mpsc|broadcast|oneshot)::.*::(send|try_send)$", callee_name(t) or ""):
                sends.append(x)
        if not ok and sends:
            # each round sends, and a failed send leaves
            round_ = all(not f_round(f, h, body, set(sends)) for _ in [0])
            ok = round_ and all(failed_leaves(ctx, f, x, body, h) for x in sends)
        ctx.ob("detached:ends", ok, "a task that is let go of has a loop that does not end with the channel it serves", ctx.where(f, h))


def inner(ctx, f, n, own):
    """the smallest loop, other than that of an await, in which n's predecessors are"""
    best = None
    for h, body in ctx.loops(f).items():
        if any(p in body for p in f.preds(n)) and any(f.blocks[x][1][0] == "call" and last(callee_name(f.blocks[x][1]) or "") not in own for x in body):
            if best is None or len(body) < len(best):
                best = body
    return best


def leaves(f, n, body, h):
    """from n the loop's header is not reached again"""
    seen, st = {n}, [n]
    while st:
        x = st.pop()
        for s in f.succs(x):
            if s == h:
                return False
            if s in body and s not in seen:
                seen.add(s)
                st.append(s)
    return True


def f_round(f, h, body, through):
    """a round of the loop that passes none of the blocks"""
    seen, st = {h}, [h]
    while st:
        x = st.pop()
        if x in through:
            continue
        for s in f.succs(x):
            if s == h:
                return True
            if s in body and s not in seen:
                seen.add(s)
                st.append(s)
    return False


def failed_leaves(ctx, f, x, body, h):
    S = {f.blocks[x][1][3][0]}
    ch = True
    while ch:
        n = len(S)
        for y, si, a in f.assigns():
            if any(o_local(o) in S for o in ops(a[2])) or (a[2][0] in ("ref", "discr") and a[2][1][0] in S):
                S.add(a[1][0])
        for y, t in f.calls():
            if last(callee_name(t) or "") in ("is_err", "is_ok", "into_future", "poll", "new_unchecked", "branch", "err", "ok", "is_none", "is_some") and t[2] and o_local(t[2][0]) in S:
                S.add(t[3][0])
        ch = len(S) != n
    for s in range(len(f.blocks)):
        t = f.blocks[s][1]
        if t[0] == "switch" and o_local(t[1]) in S and s in f.reach_from(x):
            for g in f.succs(s):
                if g not in body or leaves(f, g, body, h):
                    return True
    return False


def joined(ctx):
    """whoever awaits a task gets its failure"""
    P, V = ctx.P, ctx.V
    n = 0
    for b in P.own:
        if b.skip:
            continue
        for k, t in b.calls():
            if last(callee_name(t) or "") not in ("into_future", "join_unwind", "join") or not t[2] or o_local(t[2][0]) is None:
                continue
            ty = P.ty_s(b.ty(o_local(t[2][0])))
            if not re.match(r"(\S*::)?(SpawnedTask|JoinHandle)<", ty):
                continue
            n += 1
            S = gives(b, t[3][0])
            ch = True
            while ch:
                m = len(S)
                for x, u in b.calls():
                    if last(callee_name(u) or "") in ("map_err", "branch", "map", "and_then", "unwrap_or_else", "flatten", "or_else", "expect", "unwrap") and u[2] and o_local(u[2][0]) in S:
                        S.add(u[3][0])
                for x, si, a in b.assigns():
                    if any(o_local(o) in S for o in ops(a[2])):
                        S.add(a[1][0])
                ch = len(S) != m
            fails = fail_blocks(ctx, b)
            seen = False
            dis = {a[1][0]: (x, a[2]) for x, si, a in b.assigns() if a[2][0] == "discr" and a[2][1][0] in S}
            for s in range(len(b.blocks)):
                u = b.blocks[s][1]
                if u[0] == "switch" and o_local(u[1]) in dis:
                    rt = P.ty_s(dis[o_local(u[1])][1][2])
                    if not re.match(r"core::(result::Result|ops::control_flow::ControlFlow)<", rt):
                        continue
                    seen = True
                    g = dict((v, w) for v, w in u[2]).get(1, u[3])
                    ok, path = ctx.must_pass(b, g, fails)
                    ctx.ob("join:reported", ok, "the failure of a task is not an error of whoever waits for it", ctx.where(b, s))
            for x, u in b.calls():
                if re.match(r"core::result::Result(<.*>)?::(unwrap_or\w*|ok|or|or_else|is_ok|is_err|map_or\w*|unwrap_or_default)$", callee_name(u) or "") and u[2] and o_local(u[2][0]) in S:
                    seen = True
                    y = V.arg(b, x, u, 1) if len(u[2]) > 1 else None
                    r = V.ret(y.a[0]) if y is not None and y.k == "clo" else None
                    ctx.ob("join:reported", r is not None and all(z.k in ("E", "err", "never") for z in alts(r)), "the failure of a task is replaced by something else", ctx.where(b, x))
            if not seen:
                whole = 0 in S or any(o_local(o) in S for d in b.defs().get(0, []) if d[3][0] == "rv" for o in ops(d[3][1])) or any(x in S for x in [0])
                whole = whole or any(last(callee_name(u) or "") in ("unwrap", "expect") for x, u in b.calls() if u[2] and o_local(u[2][0]) in S)
                ctx.ob("join:reported", whole, "what joining a task gave is discarded", ctx.where(b, k))
    return n


def run(ctx):
    P, V = ctx.P, ctx.V
    n = d = 0
    awaited = []
    sets = []
    for b, k, t, nm in sites(ctx):
        n += 1
        l = t[3][0]
        ty = P.ty_s(b.ty(l))
        if re.search(r"JoinSet", nm):
            y = ctx.lift(V.arg(b, k, t, 0))
            sets.append((b, k, y))
            ctx.ob("set:stored", y.k == "f" or y.k == "p" or contains(y, lambda z: z.k == "f"), "the set that owns a task does not outlive the function that spawned it", ctx.where(b, k)) if not joins_local(ctx, b) else None
            continue
        if re.search(r"StreamBuilder", nm):
            y = V.arg(b, k, t, 0)
            ctx.ob("stream:returned", contains(V.ret(b.path), lambda z: z is y) or contains(V.ret(b.path), lambda z: z.k == "call" and last(z.a[0]) == "build") or any(last(callee_name(u) or "") == "build" and u[3][0] == 0 for _, u in b.calls()), "the stream that owns a task is not returned", ctx.where(b, k))
            continue
        S, end, leak = keeps(ctx, b, l)
        for x in leak:
            ctx.bad("handle:leaked", "the handle of a task is leaked", ctx.where(b, x))
        if re.search(r"SpawnedTask", nm):
            ok, path = ctx.must_pass(b, k, end | fail_blocks(ctx, b))
            ctx.ob("handle:kept", ok and bool(end), "the handle of a task is dropped where it was spawned: the task is aborted", ctx.where(b, k))
            m = re.match(r"(\S*::)?SpawnedTask<(.*)>$", ty)
            if m and m.group(2) != "()":
                awaited.append((b, k, m.group(2)))
            continue
        d += 1
        detached(ctx, b, k, t)
        ctx.ob("detached:result", ty.endswith("JoinHandle<()>") or bool(end), "a task that is let go of has a result nobody reads", ctx.where(b, k))
    ctx.floor("spawned tasks", n, 5)
    ctx.floor("detached tasks", d, 0)
    j = joined(ctx)
    # every task with a result is awaited
    ctx.ob("join:awaited", not awaited or j > 0, "tasks with results are never awaited")
    for b, k, ty in awaited:
        aw = any(last(callee_name(u) or "") in ("into_future", "join_unwind", "join") and u[2] and o_local(u[2][0]) is not None and re.match(r"(\S*::)?SpawnedTask<", P.ty_s(q.ty(o_local(u[2][0])))) and P.ty_s(q.ty(o_local(u[2][0]))).endswith(f"SpawnedTask<{ty}>") for q in P.own if not q.skip and (q.path.startswith(b.path.split("::{closure")[0]) or q.path == b.path) for _, u in q.calls())
        ctx.ob("join:result", aw, "the result of a task is never read", ctx.where(b, k))
    # sets are joined
    drained = []
    for b in P.own:
        if b.skip:
            continue
        for k, t in b.calls():
            if re.search(r"JoinSet(<.*>)?::(join_all|join_next|join_next_with_id)$", callee_name(t) or ""):
                drained += [V.arg(b, k, t, 0), ctx.lift(V.arg(b, k, t, 0))]
            if re.search(r"JoinSet(<.*>)?::(detach_all|abort_all)$", callee_name(t) or ""):
                ctx.bad("set:detached", "the tasks of a set are let go of", ctx.where(b, k))
    names = {z.a[1] for y in drained for z in walk(y) if z.k == "f"}
    for b, k, y in sets:
        fs = {z.a[1] for z in walk(y) if z.k == "f"}
        ctx.ob("set:joined", bool(fs & names) or any(y is z for z in drained), "the set a task is spawned on is never joined: its failure is not reported", ctx.where(b, k))
    ctx.floor("task sets", len(sets), 0)


def joins_local(ctx, b):
    return any(re.search(r"JoinSet(<.*>)?::(join_all|join_next)$", callee_name(t) or "") for _, t in b.calls())
