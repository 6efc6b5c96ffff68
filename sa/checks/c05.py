"""Streams and receivers that wait in shared state for a reader. Rust's ownership already forbids to copy one, so a reader gets a second
one only if a second one is made, and an empty one only if the absence of the stream is turned into something else than an error.
(1) Wherever a stream or receiver is taken out of shared state, its absence only leads to errors. (2) The requests that make the streams
of an exchange, and the shared queue of a broadcast, are made in the initialiser of a cell that is initialised once, which belongs to the
operator and is selected by the task or partition asked for. (3) A registered feed is never replaced by another one."""
from ..core import *

TECHNIQUE = "control-flow analysis of the absence branch of every take out of shared state (MIR); call-context analysis of stream creation (initialisers of once-cells); branch facts at map insertions"
NOTE = "Ownership (streams and receivers are not Clone) and std's OnceLock are what makes 'at most one' hold; requests sent by something else than an exchange are not covered."

STREAM = re.compile(r"dyn [\w:]*Stream\b|dyn [\w:]*RecordBatchStream|mpsc::(un)?bounded::(Unbounded)?Receiver<|oneshot::Receiver<|ReceiverStream<")
ITER = re.compile(r"(Iterator>?::next|StreamExt::next|::poll_next|::recv|try_next|::next_back|::insert|::replace|::set)$")


def owned_option(s):
    return s.startswith("core::option::Option<") and not s.startswith(("core::option::Option<&", "core::option::Option<(")) and STREAM.search(s) and "Arc<" not in s.split("dyn")[0] and "sync::Mutex<" not in s


def named(y, *names):
    return y.k == "call" and last(y.a[0]) in names


def aliases(b, dst):
    """Locals that hold the Option itself, or a wrapper made by Option's own combinators."""
    out, parts = {dst}, set()
    ch = True
    while ch:
        ch = False
        for x, si, st in b.assigns():
            if st[2][0] == "agg" and not st[1][1] and st[2][1][0] != "closure":
                for i, o in enumerate(st[2][2]):
                    if o_local(o) in out and not o[1][1] and (st[1][0], i) not in parts:
                        parts.add((st[1][0], i))
                        ch = True
            if st[2][0] == "use" and o_local(st[2][1]) is not None and not st[1][1] and st[1][0] not in out:
                l, pr = st[2][1][1]
                fs = [z for z in pr if z != "*" and z[0] == "f"]
                if len(fs) == 1 and (l, fs[0][1]) in parts:
                    out.add(st[1][0])
                    ch = True
            if st[1][0] not in out and st[2][0] in ("use", "cast") and not st[1][1] and len(st[2]) > 1 and st[2][1][0] in ("c", "m") and st[2][1][1][0] in out and not st[2][1][1][1]:
                out.add(st[1][0])
                ch = True
        for x, t in b.calls():
            if not t[2] or t[3][0] in out or t[2][0][0] not in ("c", "m") or t[2][0][1][0] not in out or t[2][0][1][1]:
                continue
            if re.search(r"Option<T>::(map|inspect|filter)$", callee_name(t) or ""):
                out.add(t[3][0])
                ch = True
    return out


def absence(ctx, b, blk, t, tag):
    P = ctx.P
    al = aliases(b, t[3][0])
    decided = False
    # returned as it is: decided at the callers
    if 0 in al:
        return True
    for x, u in b.calls():
        if u[2] and u[2][0][0] in ("c", "m") and u[2][0][1][0] in al and not u[2][0][1][1]:
            n = last(callee_name(u) or "")
            if n in ("ok_or", "ok_or_else"):
                decided = True
            elif n in ("map", "inspect", "filter"):
                pass
            elif n in ("is_none", "is_some", "is_some_and"):
                pass
            elif n == "drop" and b.path.endswith("Drop>::drop"):
                decided = True
            elif n == "branch":  # `?` on the Option: the function itself returns None
                decided = True
            else:
                ctx.bad(f"{tag}:absence", f"the absence of the stream is handled by {n} instead of an error", ctx.where(b, x))
                decided = True
    # matched: the branch without a stream only leads to errors
    dis = {}
    for x, si, st in b.assigns():
        if st[2][0] == "discr" and st[2][1][0] in al and not st[2][1][1]:
            dis[st[1][0]] = x
    for x in b.reach_from(blk):
        u = b.blocks[x][1]
        if u[0] == "switch" and o_local(u[1]) in dis:
            m = dict((v, tg) for v, tg in u[2])
            none = m.get(0, u[3])
            some = m.get(1, u[3])
            if b.blocks[some][1][0] == "unreach":
                continue
            if none == some:
                continue
            decided = True
            if b.path.endswith("Drop>::drop"):
                continue
            fails = set(fail_blocks(ctx, b))
            nones = option_returns(ctx, b)
            ok, path = ctx.must_pass(b, none, fails | nones)
            if not ok and drop_flag(b, none, path):
                continue
            ctx.ob(f"{tag}:absence", ok, "when the stream was already taken, the function goes on without an error", ctx.where(b, path[-1] if path else x))
    if not decided and b.path.endswith("Drop>::drop"):
        return True
    ctx.ob(f"{tag}:decided", decided, "what happens when the stream was already taken cannot be seen", ctx.where(b, blk))
    return False


def drop_flag(b, none, path):
    """The switch only decides whether the remains of the Option are dropped (drop elaboration): both arms join without effects."""
    return all(b.blocks[x][1][0] in ("goto", "drop", "switch", "ret") for x in path) and any(b.blocks[x][1][0] == "ret" for x in path) and drop_only(b, none)


def drop_only(b, x):
    # the result was assigned before: no assignment of the result on the way
    reach = b.reach_from(x)
    return not any(d[0] in reach for d in b.defs().get(0, []))


def option_returns(ctx, b):
    """Blocks that make the function's result None, if it returns an Option of a stream."""
    P = ctx.P
    if not owned_option(P.ty_s(b.ty(0))):
        return set()
    out = set()
    for d in b.defs().get(0, []):
        if not d[2]:
            y = ctx.V.rhs(b, d, 0)
            if all(z.k == "none" or show(z) == "NONE" for z in alts(y)):
                out.add(d[0])
    return out


def takes(ctx):
    P = ctx.P
    n = 0
    names = []
    for b in P.own:
        if b.skip or "/grpc/" in b.file and "generated" in b.file:
            continue
        for blk, t in b.calls():
            if t[3][1]:
                continue
            d = P.ty_s(b.ty(t[3][0]))
            nm = callee_name(t) or ""
            if owned_option(d) and not ITER.search(nm):
                n += 1
                names.append(f"{b.path.split('::{')[0][-60:]}: {last(nm)}")
                absence(ctx, b, blk, t, "take")
    ctx.floor("places that take a stream out of shared state", n, 3)
    ctx.samples = names[:20]


def once_of(ctx, b, depth=6):
    """Initialisations of once-cells that are the only way to this code: [(body, block)], or None."""
    V = ctx.V
    p = b.path
    for _ in range(depth):
        if p not in ctx.P.bodies:
            return None
        for q in ctx.P.own:
            for blk, t in q.calls():
                if re.search(r"(OnceLock|OnceCell)<T>::(get_or_init|get_or_try_init)$", callee_name(t) or "") and len(t[2]) > 1:
                    f = V.arg(q, blk, t, 1)
                    if any(y.k in ("clo", "fn") and y.a[0] == p for y in alts(f)):
                        return [(q, blk, t)]
        if "::{" in p.split("::")[-1] or p.endswith("}"):
            p = p[:p.rindex("::{")]
            continue
        f = ctx.P.bodies[p]
        sites = ctx.call_sites(f)
        if not sites:
            return None
        out = []
        for q, blk, t in sites:
            o = once_of(ctx, q, depth - 1)
            if o is None:
                return None
            out += o
        return out
    return None


def made_once(ctx, b, blk, tag, what):
    V = ctx.V
    o = once_of(ctx, b)
    ctx.ob(f"{tag}:once", o is not None, f"{what} made outside the initialiser of a once-cell: a second reader would get another one", ctx.where(b, blk))
    for q, k, t in o or []:
        cell = ctx.lift(V.arg(q, k, t, 0))
        # the cell is the operator's own
        for y in alts(cell):
            fresh = contains(y, lambda z: z.k == "call" and re.search(r"Once(Lock|Cell)", z.a[0]) and last(z.a[0]) in ("new", "default", "from"))
            mine = contains(y, lambda z: z.k in ("f", "p"))
            ctx.ob(f"{tag}:cell", mine and not fresh, f"the once-cell belongs to the operator: {show(y)[:200]}", ctx.where(q, k))
    return o or []


def makers(ctx):
    P, V = ctx.P, ctx.V
    reqs = [(b, blk, t) for b in P.own if not b.skip and not b.trait for blk, t in b.calls() if re.search(r"WorkerChannel(>|)::execute_task$", callee_name(t) or "") and "worker_channel" in (callee_name(t) or "")]
    reqs = [(b, blk, t) for b, blk, t in reqs if not (V.root(b).trait or "").endswith("WorkerChannel")]
    ctx.floor("requests for the streams of an exchange", len(reqs))
    for b, blk, t in reqs:
        for q, k, u in made_once(ctx, b, blk, "request", "the request for the streams of a task is"):
            cell = V.arg(q, k, u, 0)
            req = [y for i in range(len(t[2])) for y in walk(V.arg(b, blk, t, i)) if y.k == "agg" and last(y.a[0]) == "TaskKey"]
            nums = {field(y, "task_number") for y in req}
            idx = {z.a[1] for z in walk(cell) if z.k == "at"}
            ctx.ob("request:cell-of-task", bool(nums) and nums <= idx | {None} and None not in nums, f"the once-cell is the one of the task asked for: {show(cell)[:120]} / {[show(x)[:80] for x in nums]}", ctx.where(q, k))
    # shared queues: the consumers' streams are made where the shared input is executed
    pushes = [(b, blk, t) for b in P.own if not b.skip for blk, t in b.calls() if re.search(r"Queue<T>::push$", callee_name(t) or "") and len(t[2]) > 1 and t[2][1][0] in ("m", "c") and STREAM.search(P.ty_s(b.ty(t[2][1][1][0])))]
    for b, blk, t in pushes:
        for q, k, u in made_once(ctx, b, blk, "queue", "a stream for a shared queue is"):
            ex = [j for x in [P.bodies[y.a[0]] for y in alts(V.arg(q, k, u, 1)) if y.k == "clo" and y.a[0] in P.bodies] for r in ctx.closure([x]) for j, w in r.calls() if (callee_name(w) or "").endswith("ExecutionPlan::execute")]
            ctx.ob("queue:input", bool(ex), "the shared input is executed once, where its consumers are made", ctx.where(q, k))
    ctx.notes["streams put in shared queues"] = len(pushes)


def registrations(ctx):
    """A registered receiver is not replaced."""
    P, V = ctx.P, ctx.V
    n = 0
    for b in P.own:
        if b.skip:
            continue
        for blk, t in b.calls():
            nm = callee_name(t) or ""
            if not re.search(r"Map<.*>::(insert|extend|try_insert)$|VacantEntry.*::insert$|Entry<.*>::(or_insert|or_insert_with|insert|insert_entry)$", nm) or not t[2]:
                continue
            ts = [P.ty_s(b.ty(o[1][0])) for o in t[2][1:] if o[0] in ("m", "c")]
            if not any("Option<tokio::sync::mpsc" in s and "Receiver<" in s and not s.startswith("core::option::Option<&") for s in ts):
                continue
            n += 1
            if last(nm) in ("or_insert", "or_insert_with", "try_insert") or "VacantEntry" in nm:
                continue
            m, key = V.arg(b, blk, t, 0), V.arg(b, blk, t, 1)
            known = False
            for f in ctx.facts(b, blk):
                g = f.a[1] if f.k == "un" and f.a[0] == "Not" else None
                if g is not None and named(g, "contains_key") and g.a[2] is m and g.a[3] is key:
                    known = True
                if g is not None and named(g, "is_some") and named(g.a[2], "get", "get_mut") and g.a[2].a[2] is m and g.a[2].a[3] is key:
                    known = True
                if named(f, "is_none") and named(f.a[2], "get", "get_mut") and f.a[2].a[2] is m and f.a[2].a[3] is key:
                    known = True
                if f.k == "isv" and (0 in f.a[1] and not f.a[2] or 1 in f.a[1] and f.a[2]) and (f.a[0].k == "at" and f.a[0].a[0] is m and f.a[0].a[1] is key or named(f.a[0], "get", "get_mut") and f.a[0].a[2] is m):
                    known = True
            ctx.ob("feed:replaced", known, f"a feed is registered where another one may already be: {[show(f)[:100] for f in ctx.facts(b, blk)]}", ctx.where(b, blk))
    ctx.floor("registrations of feeds", n)


def run(ctx):
    takes(ctx)
    makers(ctx)
    registrations(ctx)
