"""Provenance of task identities. Every construction of a task identity, and every request, worker
URL, registry key and metrics key built from one, is traced (through closures, helpers, iteration and
channels) to a normalised term; the rule compares the terms: query id and stage number come from one
stage value, the index is the position of the URL in the list that becomes the stage's worker list,
the specialised plan is the one for that index, and readers take the URL at their task index from the
worker list of the stage whose ids they use. A loop or adaptor that skips, filters or duplicates
elements changes the index term and is reported."""
from ..core import *

TECHNIQUE = "interprocedural value-provenance dataflow over compiler MIR (def-use abstract interpretation)"
NOTE = "Decides identity flow at every construction site found in the compiled program; assumes the standard iterator and collection adaptors mean what their names say."

IDS = {"query_id"}
NUMS = {"num", "stage_id"}
UNUUID = {"from_slice", "deserialize_uuid"}


def idbase(key):
    """Common base of query and stage id, or None."""
    q, s = field(key, "query_id"), field(key, "stage_id")
    qb = bases(phi([strip_calls(x, UNUUID) for x in alts(q)]), IDS)
    sb = bases(s, NUMS)
    if qb is None or sb is None or qb != sb:
        return None
    return qb


def pos_of(t):
    """idx(U): the collection whose position this is."""
    return t.a[0] if t.k == "idx" else None


def run(ctx):
    P, V = ctx.P, ctx.V
    keys = ctx.aggs("TaskKey")
    ctx.floor("task identity constructions", len(keys), 6)
    for b, blk, si, t in keys:
        where = ctx.where(b, blk)
        k = f"key:{ctx.V.root(b).path}"

        def good(u):
            base = idbase(u)
            if base is None:
                return False
            n = field(u, "task_number")
            if n.k == "p" or (n.k == "f" and n.a[1] == "task_number" and {n.a[0]} == base):
                return True
            if n.k == "f" and n.a[1] == "task_index":
                return False
            if pos_of(n) is not None:
                return True
            return n.k not in ("c", "sum", "op")

        ok = good(t)
        if not ok and params(t):
            subs = [u for ch, u in V.contexts(t, 3) if ch]
            ok = bool(subs) and all(good(u) for u in subs)
        n = field(t, "task_number")
        if not ok and n.k == "c" and n.a[0] == 0 and idbase(t) is not None and b.file == "src/stage.rs":
            ok = True  # display only: header metrics of the first task
        ctx.ob(k, ok, f"query id and stage number of one identity must come from the same stage, and its index from a task position: {show(t)[:300]}", where)

    # ---- dispatch
    reqs = ctx.aggs("SetPlanRequest", lambda p: "generated" not in p)
    disp = 0
    for b, blk, si, t in reqs:
        key = field(t, "task_key")
        if field(t, "plan").k == "agg" and field(t, "plan").a[1] == "Encoded":
            continue  # decoding side: C11
        disp += 1
        where = ctx.where(b, blk)
        i, url = field(key, "task_number"), field(t, "target_worker_url")
        # the plan is the one specialised for index i of task_count tasks
        ds = [x for x in walk(field(t, "plan")) if x.k == "agg" and last(x.a[0]) == "DistributedTaskContext"]
        ctx.ob("dispatch:specialised-index", any(field(d, "task_index") is i and field(d, "task_count") is field(t, "task_count") for d in ds),
               f"the plan sent for task {show(i)} must be specialised with that index and the stage's task count; found {[show(d) for d in ds][:3]}", where)
        okn, est = 0, []
        for root, ch, u in ctx.frames(b, t, 4):
            key, url = field(u, "task_key"), field(u, "target_worker_url")
            i = field(key, "task_number")
            U = pos_of(i)
            if U is None or any(ch[:len(e)] == e for e in est):
                continue
            est.append(ch)
            okn += 1
            w = ctx.where(ch[-1][0], ch[-1][1]) if ch else where
            fn = root.path
            ctx.ob(f"dispatch:url@{fn}", url is at(U, i), f"task {show(i)[:150]} must be sent to the URL at its own position, got {show(url)[:200]}", w)
            ctx.ob(f"dispatch:collection@{fn}", not contains(U, lambda x: x.k == "call" and re.search(r"(skip|take|step_by|rev|chain|cycle|filter|dedup|sort|windows|chunks)$", x.a[0])),
                   f"the list of tasks must be iterated as routed: {show(U)[:200]}", w)
            # exactly once per element
            cb, cblk = (ch[-1] if ch else (b, blk))
            for x in ch[::-1] or ((b, blk),):
                cb, cblk = x
                if V.root(cb) is root:
                    break
            pi = V.push_idx(cb, cblk)
            inloop = any(cblk in body for body in V.loops(cb).values())
            aligned = (pi is not None and pi is i) if inloop else (cb.kind == "Closure" and any(last(callee_name(z[2]) or "") in ("map", "for_each", "try_for_each", "then") for z in V.closure_use(cb.path)))
            if not aligned and inloop and pi is not None:
                aligned = pos_of(pi) is U
            ctx.ob(f"dispatch:once@{fn}", aligned, "the plan must be sent exactly once in every iteration over the routed URLs", w)
            # the stage the consumers read from
            rs = [(bb, bk, x) for bb, bk, _, x in ctx.aggs("RemoteStage") if V.root(bb) is root]
            ctx.ob(f"dispatch:remote-stage@{fn}", bool(rs), "the dispatched stage must be published to its consumers as a remote stage in the same place", w)
            for bb, bk, x in rs:
                wk = field(x, "workers")
                okw = wk is U or (wk.k == "coll" and wk.a[1] is i and wk.a[0] is at(U, i))
                ctx.ob(f"dispatch:workers@{fn}", okw, f"the worker list of the stage must be the list the plans were sent to, in the same order: {show(wk)[:300]}", ctx.where(bb, bk))
                kb = idbase(key)
                sb, nb = bases(field(x, "query_id"), IDS), bases(field(x, "num"), NUMS)
                same = kb is not None and sb == nb and sb is not None and ({strip_upd(y) for y in sb} == {strip_upd(y) for y in kb})
                ctx.ob(f"dispatch:stage-ids@{fn}", same, "the remote stage must carry the ids of the stage whose tasks were dispatched", ctx.where(bb, bk))
        ctx.floor("dispatch loops over routed URLs", okn, 2)
    ctx.floor("plan dispatch constructions", disp, 1)

    # ---- as many URLs as tasks
    n = 0
    for b in P.own:
        for blk in b.reachable():
            tt = b.blocks[blk][1]
            if tt[0] != "switch":
                continue
            cnds = alts(V.operand(b, tt[1], blk, len(b.blocks[blk][0])))
            cnd = cnds[0]
            if all(x.k == "op" and x.a[0] in ("Eq", "Ne") and x.a[0] == cnd.a[0] for x in cnds):
                a, c_ = cnd.a[1], cnd.a[2]
                ls = [x for x in (a, c_) if x.k == "len" and contains(x, lambda y: y.k == "f" and y.a[1] == "urls")]
                ts = [x for x in (a, c_) if fbase(x, {"task_count", "tasks"}) is not None]
                if ls and ts:
                    badv = 0 if cnd.a[0] == "Eq" else 1
                    tgt = [x for v, x in tt[2] if v == badv] or [tt[3]]
                    ok = ctx.err_only(b, tgt[0])
                    ctx.ob("dispatch:url-count", ok, "a routing answer with another number of URLs than tasks must be rejected", ctx.where(b, blk))
                    n += 1
    ctx.floor("checks of the number of routed URLs against the number of tasks", n, 1)

    # ---- connections: client URL, local short-cut, request identity
    nconn = {"set": 0, "exec": 0}
    for b, blk, t in ctx.calls(r"ChannelResolver::get_worker_client_for_url$"):
        if "test_utils" in b.file or "channel_resolver" in b.file:
            continue
        u0 = ctx.arg(b, blk, 1)
        for root, ch, u in ctx.frames(b, u0, 3):
            tr = {x.path for x in ctx.tree(root)}
            for kind, nm in (("set", "SetPlanRequest"), ("exec", "ExecuteTaskRequest")):
                for bb, bk, si, r in ctx.aggs(nm, lambda p: "generated" not in p):
                    if bb.path not in tr:
                        continue
                    key = field(r, "task_key")
                    w = ctx.where(b, blk)
                    nconn[kind] += 1
                    if kind == "set":
                        ctx.ob("connect:dispatch-url", u is field(r, "target_worker_url"), f"the plan must be sent through a connection to the URL it is addressed to: {show(u)[:200]}", w)
                    else:
                        base = idbase(key)
                        ok = base is not None and len(base) == 1 and u is at(field(list(base)[0], "workers", "crate::stage::RemoteStage"), field(key, "task_number"))
                        ctx.ob("connect:read-url", ok, f"a task must be read from the worker at its own index of the stage's worker list: {show(u)[:200]} for {show(key)[:200]}", w)
    ctx.floor("connections opened to dispatch", nconn["set"], 1)
    ctx.floor("connections opened to read", nconn["exec"], 1)

    # comparisons with the local worker's URL use the same URL as the connection
    n = 0
    for b, blk, t in ctx.calls(r"PartialEq>?::(eq|ne)$"):
        x, y = ctx.arg(b, blk, 0), ctx.arg(b, blk, 1)
        for s, o in ((x, y), (y, x)):
            if s.k == "f" and s.a[1] == "self_url" and o.k != "c":
                n += 1
                urls = []
                for cb, cblk, ct in ctx.calls(r"ChannelResolver::get_worker_client_for_url$", ctx.tree(b)):
                    urls.append(ctx.arg(cb, cblk, 1))
                for cb, cblk, ct in ctx.calls(lambda p: p in P.bodies, ctx.tree(b)):
                    pass
                ctx.ob(f"connect:local@{V.root(b).path}", not urls or o in urls, f"the in-process short-cut must compare the URL the connection would use: {show(o)[:200]}", ctx.where(b, blk))
    ctx.floor("local short-cut comparisons", n, 2)

    # ---- metrics store
    n = 0
    for b, blk, t in ctx.calls(r"MetricsStore::insert$"):
        k0 = ctx.arg(b, blk, 1)
        for root, ch, u in ctx.frames(b, k0, 4):
            if u.k == "agg" and pos_of(field(u, "task_number")) is not None:
                n += 1
                U = pos_of(field(u, "task_number"))
                # same collection as the dispatch in this frame
                us = {pos_of(field(field(v, "task_key"), "task_number")) for bb, bk, si, r in reqs for rt, c2, v in ctx.frames(bb, r, 4) if rt is root}
                ctx.ob(f"metrics:key@{root.path}", U in us, f"reports must be stored under the identity of the task they were requested from: {show(u)[:200]}", ctx.where(b, blk))
    ctx.floor("metrics stored under a dispatched identity", n, 2)

    # ---- per-task reads cover all the tasks
    n = 0
    for b, blk, t in ctx.calls(r"MetricsStore::get$|metrics_store::MetricsStore::"):
        pass
    for b, blk, si, t in keys:
        i = field(t, "task_number")
        U = pos_of(i)
        if U is not None and U.k == "range":
            base = idbase(t)
            hi = U.a[1]
            ok = U.a[0] is c(0) and base is not None and all(
                (x.k == "f" and x.a[1] == "tasks") or (x.k == "len" and x.a[0].k == "f" and x.a[0].a[1] == "workers") or (x.k == "f" and x.a[1] == "task_count") for x in alts(hi))
            hb = set()
            for x in alts(hi):
                y = x.a[0] if x.k == "len" else x
                hb.add(y.a[0] if y.k == "f" else None)
            n += 1
            ctx.ob(f"per-task:range@{V.root(b).path}", ok and hb == base, f"iteration over the tasks of a stage must cover 0..number of tasks of that stage: {show(U)[:200]}", ctx.where(b, blk))
    ctx.floor("iterations over all tasks of a stage", n, 2)


def strip_upd(t):
    while t.k == "upd":
        t = t.a[0]
    return t
