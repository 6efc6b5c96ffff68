"""A remote stream that carries several partitions fails all of them. The task that takes messages off the connection ends only (a) when
the connection's stream is over, (b) when the query was cancelled, or (c) after it has sent the failure to the channel of every partition.
It is cancelled only by the last of the partitions' streams to go away, and kept alive by all of them. A failure to open the connection
reaches every partition that waits for it before it looks at its own stream. On the sending side every item, and a panic as an error, is put in the queue of the response."""
from ..core import *

TECHNIQUE = "must-pass (typestate) analysis of the exits of the demultiplexing task over compiler MIR, with select! branches resolved to their futures; branch facts at the cancellation; def-use provenance of what is forwarded"
NOTE = "gRPC ends a response without an error only if the server ended it without one; tokio channels deliver what was sent. Panics inside the demultiplexing task itself are not modelled."


def named(y, *names):
    return y.k == "call" and last(y.a[0]) in names


def opened(y):
    """A term that comes from opening the response of a remote task."""
    return y.k == "call" and last(y.a[0]) == "execute_task" and "generated" in y.a[0]


def demux(ctx):
    """(body, blocks that read the connection's stream) of the tasks that demultiplex a remote stream."""
    P, V = ctx.P, ctx.V
    out = []
    for b in P.own:
        if b.skip or "generated" in b.file:
            continue
        reads = []
        for k, t in b.calls():
            if re.search(r"(StreamExt|TryStreamExt)::(next|try_next)$|Streaming<.*>::message$", callee_name(t) or "") and t[2]:
                y = ctx.lift(V.arg(b, k, t, 0))
                if contains(y, opened):
                    reads.append(k)
        if reads:
            out.append((b, reads))
    return out


def sender_of(ty):
    return bool(re.search(r"mpsc::\w*:*(Unbounded)?Sender<", ty))


def fan_helper(ctx, f, depth=2):
    """A function that sends an error to every sender of the collection it is given (index of that argument)."""
    P, V = ctx.P, ctx.V
    for q in ctx.tree(f):
        for k, t in q.calls():
            if last(callee_name(t) or "") in ("send", "try_send") and len(t[2]) > 1:
                it = each(ctx, q, k)
                v = V.arg(q, k, t, 1)
                s = V.arg(q, k, t, 0)
                if it is not None and it.k == "p" and it.a[0] == f.path and v.k == "E" and s.k == "at" and s.a[0] is it and reached(ctx, f, q, k):
                    return it.a[1] - 1
    return None


def reached(ctx, f, q, k):
    if q is f:
        return ctx.must_pass(q, 0, loop_of(ctx, q, k))[0]
    return all(bb is f and ctx.must_pass(f, 0, [b2])[0] for bb, b2, t, ai in ctx.V.closure_use(q.path))


def loop_of(ctx, q, k):
    return {h for h, s in ctx.V.loops(q).items() if k in s} or {k}


def fanouts(ctx, b):
    """Blocks after which every partition's channel has received an error: (block, collection)."""
    V = ctx.V
    out = []
    for k, t in b.calls():
        f = ctx.P.bodies.get(callee_name(t) or "")
        if f is not None and not f.skip:
            i = fan_helper(ctx, f)
            if i is not None and i < len(t[2]):
                out.append((k, V.arg(b, k, t, i)))
        elif last(callee_name(t) or "") in ("send", "try_send") and len(t[2]) > 1 and V.arg(b, k, t, 1).k == "E":
            it = each(ctx, b, k)
            if it is not None and V.arg(b, k, t, 0).k == "at":
                for h in loop_of(ctx, b, k):
                    out.append((h, it))
    return out


def whole(ctx, y):
    """The senders of all partitions of the requested range."""
    y = ctx.lift(y)
    if y.k != "coll" or y.a[1].k != "idx":
        return False
    r = y.a[1].a[0]
    return r.k == "range" and not [z for z in walk(y) if z.k == "filtered"] and all(z.k == "f" for z in r.a) and "start" in r.a[0].a[1] and "end" in r.a[1].a[1]


def exits(ctx, b, readers):
    P, V = ctx.P, ctx.V
    through = set()
    n = 0
    for k, y in fanouts(ctx, b):
        n += 1
        ok = whole(ctx, y)
        ctx.ob("fail:all", ok, f"the failure is sent to every partition of the range: {show(ctx.lift(y))[:160]}", ctx.where(b, k))
        if ok:
            through.add(k)
    for s, none, some in ends_of_stream(ctx, b):
        if contains(ctx.lift(s), opened):
            through.add(none)
            put = {k for k, t in b.calls() if last(callee_name(t) or "") in ("send", "try_send") and len(t[2]) > 1 and sender_of(P.ty_s(b.ty(t[2][0][1][0])) if t[2][0][0] in "mc" else "")}
            ok, path = ctx.must_pass(b, some, put | {k for k, _ in fanouts(ctx, b)}, set(b.returns()) | {k for r, ks in readers if r is b for k in ks})
            ctx.ob("message:delivered", ok, "a message is neither given to its partition nor reported to all", ctx.where(b, path[-1] if path else some))
    for fut, g in select_arms(ctx, b):
        if named(fut, "cancelled", "cancelled_owned"):
            through.add(g)
    for k, t in b.calls():
        f = callee_name(t) or ""
        through |= gave_up(ctx, b, k, t)
        if any(f == r.path.removesuffix("::{closure#0}") for r, _ in readers) and "Result" not in P.ty_s(b.ty(t[3][0])):
            through.add(k)
    for r in b.returns():
        ok, path = ctx.must_pass(b, 0, through, [r])
        where = r
        if path:
            sw = [x for x in path if b.blocks[x][1][0] == "switch"]
            where = sw[-1] if sw else r
        ctx.ob("exit:reported", ok, "the task that reads the connection can end, closing every partition's channel, although the stream is not over and nobody was told of a failure", ctx.where(b, where))
    return n


def gave_up(ctx, b, k, t):
    """Blocks entered when a helper says, by a constant, that the query was cancelled."""
    q = ctx.P.bodies.get((callee_name(t) or "") + "::{closure#0}")
    if q is None or q.skip or not q.coroutine:
        return set()
    arms = {g for fut, g in select_arms(ctx, q) if named(fut, "cancelled", "cancelled_owned")}
    if not arms:
        return set()
    only = {}
    for d in q.defs().get(0, []):
        v = show(ctx.V.rhs(q, d, 0))
        only.setdefault(v, []).append(ctx.must_pass(q, 0, arms, [d[0]])[0])
    out = set()
    for v, oks in only.items():
        if v in ("0", "1") and all(oks):
            for s, l in awaited(ctx, b, t[3][0]):
                u = b.blocks[s][1]
                m = dict((x, g) for x, g in u[2])
                out.add(m.get(int(v), u[3]))
    return out


def awaited(ctx, b, l):
    """(switch block, local) on a bool that is what awaiting the future in local l gave"""
    S, ch = {l}, True
    while ch:
        ch = False
        for x, si, st in b.assigns():
            if st[1][0] not in S and any(o_local(o) in S for o in ops(st[2])):
                S.add(st[1][0])
                ch = True
        for x, t in b.calls():
            if t[3][0] not in S and last(callee_name(t) or "") in ("into_future", "new_unchecked", "poll") and t[2] and o_local(t[2][0]) in S:
                S.add(t[3][0])
                ch = True
    for s in range(len(b.blocks)):
        t = b.blocks[s][1]
        if t[0] == "switch" and t[1][0] in "cm" and t[1][1][0] in S and ctx.P.ty_s(b.ty(t[1][1][0])) == "bool":
            yield s, t[1][1][0]


def run(ctx):
    P, V = ctx.P, ctx.V
    readers = demux(ctx)
    ctx.floor("tasks that demultiplex a remote stream", len(readers))
    n = 0
    done = set()
    work = [b for b, _ in readers]
    for b in P.own:  # bodies that open the response and go on to read it or to give up
        if not b.skip and "generated" not in b.file and b.coroutine and any(opened_call(t) for _, t in b.calls()) and b not in work:
            if any(any((callee_name(t) or "") == r.path.removesuffix("::{closure#0}") for r, _ in readers) for _, t in b.calls()):
                work.append(b)
    for b in work:
        if b.path not in done:
            done.add(b.path)
            n += exits(ctx, b, readers)
    ctx.floor("places that tell every partition of a failure", n)
    streams(ctx, readers)
    pool(ctx)
    service(ctx)


def opened_call(t):
    n = callee_name(t) or ""
    return last(n) == "execute_task" and "generated" in n


def streams(ctx, readers):
    P, V = ctx.P, ctx.V
    files = {b.file for b, _ in readers}
    n = 0
    for b in P.own:
        if b.file not in files or b.skip:
            continue
        for k, t in b.calls():
            if re.search(r"CancellationToken::cancel$", callee_name(t) or ""):
                n += 1
                fs = ctx.facts(b, k)
                ok = any(last_one(f) for f in fs)
                ctx.ob("cancel:last", ok, f"only the last of the partitions' streams cancels the task that serves them all: {[show(f)[:200] for f in fs]}", ctx.where(b, k))
            if re.search(r"CancellationToken::drop_guard", callee_name(t) or ""):
                ctx.bad("cancel:guard", "the task that serves all partitions is cancelled when one of them goes away", ctx.where(b, k))
    ctx.notes["cancellations of a demultiplexing task"] = n
    # every partition's stream keeps the task, and hands on errors
    m = 0
    for b in P.own:
        if b.file not in files or b.skip:
            continue
        for k, t in b.calls():
            if not re.search(r"UnboundedReceiverStream<.*>::new$|ReceiverStream<.*>::new$|UnboundedReceiver<.*>::recv$", callee_name(t) or ""):
                continue
            m += 1
    ctx.floor("streams of partitions", m)
    for b in P.own:
        if b.file not in files or b.skip:
            continue
        spawns = [k for k, t in b.calls() if re.search(r"SpawnedTask<.*>::spawn", callee_name(t) or "")]
        if not spawns:
            continue
        held = [(blk, a) for blk, si, a in b.assigns() if a[2][0] == "agg" and a[2][1][0] == "closure" and any(o[0] in "mc" and not o[1][1] and "SpawnedTask<" in P.ty_s(b.ty(o[1][0])) for o in a[2][2])]
        ok = any(each(ctx, b, blk) is not None for blk, a in held)
        ctx.ob("stream:holds-task", ok, "the partitions' streams do not keep the task that serves them: it is aborted and they end early", ctx.where(b, spawns[0]))
    for b in P.own:
        if b.file in files and not b.skip and b.path.split("::{closure")[0].endswith("execute_task"):
            for k, t in b.calls():
                n_ = last(callee_name(t) or "")
                if n_ in ("filter", "filter_map", "try_filter", "try_filter_map", "take", "take_while", "try_take_while", "skip", "skip_while", "try_skip_while", "take_until", "filter_ok") and "tream" in (callee_name(t) or ""):
                    ctx.bad("stream:whole", f"a partition's stream can leave out messages or errors ({n_})", ctx.where(b, k))


def last_one(f):
    """the number of streams left, before this one, was one"""
    if f.k != "op" or f.a[0] not in ("Eq", "Le"):
        return False
    for x, y in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
        sub = [z for z in walk(x) if named(z, "fetch_sub")]
        if len(sub) != 1:
            continue
        z = sub[0]
        if show(z.a[3]) != "1":
            return False
        rest = show(x).replace(show(z), "N")
        lim = {"(-1 + N)": "0", "(N + -1)": "0", "N": "1"}.get(rest)
        init = z.a[2]
        return lim == show(y) and init.k == "call" and last(init.a[0]) == "new" and ranged(init.a[2])
    return False


def ranged(y):
    """the number of partitions of the range"""
    if y.k == "len":
        return True
    s = show(y)
    return y.k == "sum" and len(y.a[0]) == 2 and {co for co, _ in y.a[0]} == {1, -1} and "start" in s and "end" in s


def pool(ctx):
    """the consumer's side: a connection that could not be made fails every partition that waits for it"""
    P, V = ctx.P, ctx.V
    n = m = 0
    for b in P.own:
        if b.skip:
            continue
        takes = []
        for k, t in b.calls():
            f = P.bodies.get(callee_name(t) or "")
            if f is not None and re.search(r"StreamSlot::(take|put)$", f.path) or is_swap(ctx, b, k, t):
                takes.append((k, last(callee_name(t)) == "put"))
        for k, put in takes:
            if not b.coroutine:
                continue
            if put:
                n += 1
                through = loop_of(ctx, b, k) | fail_blocks(ctx, b)
                for r in b.returns():
                    ok, path = ctx.must_pass(b, 0, through, [r])
                    sw = [x for x in path if b.blocks[x][1][0] == "switch"] if path else []
                    ctx.ob("connect:reported", ok, "streams that were not placed are reported as ready", ctx.where(b, sw[-1] if sw else r))
            else:
                m += 1
                fs = ctx.facts(b, k)
                ok = any(f.k == "isv" and tuple(f.a[1]) == (0,) and not f.a[2] and contains(f.a[0], lambda z: named(z, "execute_task")) for f in fs)
                ctx.ob("connect:first", ok, "a partition takes its stream without having seen that the connection was made", ctx.where(b, k))
    ctx.floor("places that put streams in their slots", n)
    ctx.floor("places that take a stream from its slot", m)


def is_swap(ctx, b, k, t):
    return False


def service(ctx):
    P, V = ctx.P, ctx.V
    n = 0
    for b in P.own:
        if b.skip:
            continue
        for k, t in b.calls():
            f = P.bodies.get(callee_name(t) or "")
            if f is None or f.skip or f.file == b.file or last(f.path) != "spawn_select_all" and not forwards(ctx, f):
                continue
            if "protocol" not in b.file:
                continue
            y = V.arg(b, k, t, 0)
            n += 1
            bad = [z for z in walk(y) if z.k == "filtered" and contains(z, lambda w: named(w, "execute_task", "catch_unwind"))]
            ctx.ob("send:panic", contains(y, lambda z: named(z, "catch_unwind")), "a panic of a partition's stream would look like its end", ctx.where(b, k))
            ctx.ob("send:all", not bad, "items of a partition are left out of the response", ctx.where(b, k))
            for q in ctx.tree(f):
                forward(ctx, q)
            r = V.ret(f.path)
            ctx.ob("send:merged", not [z for z in walk(r) if z.k == "filtered"], f"what was forwarded is returned: {show(r)[:160]}", ctx.where(f))
    ctx.floor("responses that multiplex partitions", n)


def forwards(ctx, f):
    return any(last(callee_name(t) or "") == "select_all" for _, t in f.calls())


def forward(ctx, q):
    """A task that forwards a stream to a queue: every item goes there before the next is read or the task ends."""
    P, V = ctx.P, ctx.V
    nexts = {k for k, t in q.calls() if re.search(r"StreamExt::next$|TryStreamExt::try_next$", callee_name(t) or "")}
    sends = {k for k, t in q.calls() if last(callee_name(t) or "") in ("send", "blocking_send") and "mpsc" in (callee_name(t) or "")}
    if not nexts:
        return
    gone = {g for fut, g in select_arms(ctx, q) if named(fut, "closed")}
    es = ends_of_stream(ctx, q)
    ctx.floor("items forwarded", len(es))
    for s, none, some in es:
        ok, path = ctx.must_pass(q, some, sends, set(q.returns()) | nexts)
        ctx.ob("send:every-item", ok and bool(sends), "an item of a partition is not sent", ctx.where(q, path[-1] if path else some))
    nones = {none for _, none, _ in es}
    fs = {x for x in range(len(q.blocks)) if any(named(f, "is_err") and contains(f, lambda z: named(z, "send")) or f.k == "isv" and contains(f.a[0], lambda z: named(z, "send")) for f in ctx.facts(q, x))}
    for r in q.returns():
        ok, path = ctx.must_pass(q, 0, nones | gone | fs, [r])
        sw = [x for x in path if q.blocks[x][1][0] == "switch"] if path else []
        ctx.ob("send:to-the-end", ok, "the task that forwards a partition can end before the partition's stream does, with its reader still there", ctx.where(q, sw[-1] if sw else r))
