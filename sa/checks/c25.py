"""The in-process path. A client that runs on the worker itself is used only where the URL asked for equals the worker's own URL, which is the
URL the coordinator used to reach it; the request that client is given is the same as the one the client of the network is given for that URL
(one call, or equal arguments). Every method of the in-process client hands its arguments unchanged to the method of the worker that the network
service of the same name hands the decoded ones to, and returns all of what it gives, errors included. The client and the server of the network
carry every field of a request from, and to, the field of the same name."""
from ..core import *
from ..val import Engine

TECHNIQUE = "value-flow analysis over compiler MIR: path conditions of the in-process client's creation, arguments and results of both clients' delegations to the worker"
NOTE = "tonic delivers requests and streams unchanged; encoding of plans and of partitionings is C12, of errors C13, of the tags and order of messages C01 and C02."


def strip(y):
    while y.k in ("var",) or y.k == "call" and len(y.a) == 3 and last(y.a[0]) in ("from", "into", "clone", "try_from", "from_slice", "deref", "parse", "as_ref", "borrow", "to_vec", "to_string", "as_str", "into_bytes", "as_bytes", "unwrap_or_default"):
        y = y.a[2] if y.k == "call" else y.a[0]
    return y


def of_field(y, name):
    """every alternative of the value is the field `name` of something (through conversions)"""
    xs = [strip(x) for x in alts(y) if x.k not in ("E", "never")]
    return bool(xs) and all(x.k == "f" and x.a[1] == name for x in xs)


def whole(y, src):
    """y is src, or every element of src in order"""
    while True:
        if y == src:
            return True
        if y.k == "coll" and y.a[1].k == "idx":
            s = y.a[1].a[0]
            el = y.a[0]
            if el.k == "at" and el.a[0] == s or el == mk("at", s, y.a[1]):
                y = s
                continue
            return False
        if y.k == "call" and len(y.a) == 3 and last(y.a[0]) in ("boxed", "into_iter", "collect", "into", "from", "new", "pin", "into_stream", "map_err", "fuse"):
            y = y.a[2]
            continue
        return False


def same_url(ctx, facts, X, U):
    """is self_url of X known to equal U?"""
    def eq(z):
        if z.k in ("op", "call") and last(str(z.a[0])).lower() == "eq":
            a = [strip(q) for q in (z.a[1:] if z.k == "op" else z.a[2:])]
            return len(a) == 2 and any(a[i].k == "f" and a[i].a[1] == "self_url" and a[1 - i] == U for i in (0, 1))
        return False
    for f in facts:
        if eq(f):
            return True
        for z in walk(f):
            if z.k == "clo" and z.a[0] in ctx.P.bodies:
                r = [y for y in alts(ctx.V.ret(z.a[0])) if y.k != "never"]
                if r and all(eq(y) for y in r):
                    return True
    return False


def run(ctx):
    P, V = ctx.P, ctx.V
    chan = [im for im in P.impls if (im["trait"] or "").endswith("::WorkerChannel")]
    workers = {b.self_ty for b in ctx.method("WorkerService", "execute_task")}
    inproc = set()
    for im in chan:
        for nm, p in im["items"]:
            st = P.bodies[p].self_ty if p in P.bodies else None
            a = P.adts.get(re.sub(r"<.*", "", st or ""))
            if a and not P.bodies[p].skip and any(P.ty_s(f[1]) in workers for v in a["variants"] for f in v["fields"]):
                inproc.add(st)
    ctx.floor("in-process clients", len(inproc))
    inh = {b.path for b in P.own for w in workers if w and b.path.startswith(w + "::") and "{" not in b.path}
    E = Engine(P, opaque=set(OPAQUE) | inh)
    selection(ctx, inproc)
    delegates(ctx, E, inproc, inh, workers)
    context(ctx, workers)
    wire(ctx)


def selection(ctx, inproc):
    P, V = ctx.P, ctx.V
    makes = {}

    def creates(path):
        if path not in makes:
            makes[path] = False
            b = P.bodies[path]
            if b.coroutine or b.kind == "Closure":
                return False
            makes[path] = any(y.k == "agg" and y.a[0] in inproc or any(z.k == "agg" and z.a[0] in inproc for z in ([] if y.k != "call" else y.a[2:]) if hasattr(z, "k")) for y in alts(V.ret(path)))
        return makes[path]
    sites = made = 0
    # where the client of this very worker is made
    for b in P.own:
        if not b.coroutine and b.kind != "Closure" and makes.get(b.path):
            continue        # only wraps the construction
        news = [(k, t, V.arg(b, k, t, 0) if t[2] else None) for k, t in b.calls() if (callee_name(t) or "") in P.bodies and not callee_name(t).startswith("<") and creates(callee_name(t))]
        news += [(blk, None, None) for blk, si, a in b.assigns() if a[2][0] == "agg" and a[2][1][0] == "adt" and a[2][1][1] in inproc and not creates(b.path)]
        if not news:
            continue
        ctx.fns([b])
        urls, q = set(), b
        while q is not None and not urls:
            urls = {strip(V.arg(q, k, t, 1)) for k, t in q.calls() if last(callee_name(t) or "") == "get_worker_client_for_url"}
            q = P.bodies.get(q.parent) if q.kind == "Closure" or q.coroutine else None
        if not urls:
            # the network's client is asked for by the callers: the URL is theirs
            urls = {strip(u) for u in asked(ctx, b)}
        ctx.ob("select:url", len(urls) == 1, f"one URL is asked for wherever a worker is reached: {[show(u)[:100] for u in urls]}", ctx.where(b))
        if len(urls) != 1:
            continue
        U = urls.pop()
        for k, t, X in news:
            made += 1
            fs = list(ctx.facts(b, k)) + given_to(ctx, b)
            ctx.ob("select:own", same_url(ctx, fs, X, U), f"the in-process client may be used only for the worker's own URL ({show(U)[:80]}); known there: {[show(f)[:120] for f in fs][:4]}", ctx.where(b, k))
    ctx.floor("places that make the in-process client", made)
    # what it is asked
    for b in P.own:
        calls = [(k, t) for k, t in b.calls() if (callee(t)[2] or {}).get("tr", "").endswith("::WorkerChannel") and callee(t)[1] is None]
        local, remote = [], set()
        for k, t in calls:
            for y in alts(V.arg(b, k, t, 0)):
                if any(z.k == "agg" and z.a[0] in inproc for z in walk(y)) and not any(z.k == "call" and last(z.a[0]) == "get_worker_client_for_url" for z in walk(y)):
                    local.append((k, t))
                for z in walk(y):
                    if z.k == "call" and last(z.a[0]) == "get_worker_client_for_url":
                        remote.add(strip(z.a[-1]))
        if not local:
            continue
        sites += 1
        ctx.fns([b])
        ctx.ob("select:one-url", len(remote) == 1, f"a worker is reached at one URL: {[show(u)[:100] for u in remote]}", ctx.where(b))
        if len(remote) != 1:
            continue
        U = remote.pop()
        by = {}
        for k, t in calls:
            by.setdefault(last(callee(t)[0]), []).append((k, t))
        for m, cs in by.items():
            args = {tuple(V.arg(b, k, t, i) for i in range(1, len(t[2]))) for k, t in cs}
            ctx.ob(f"select:{m}:request", len(args) == 1, "a worker that happens to be this one is given another request than one across the network", ctx.where(b, cs[0][0]))
            for k, t in cs:
                for i in range(1, len(t[2])):
                    y = V.arg(b, k, t, i)
                    if y.k == "agg" and y.a[0].endswith("SetPlanRequest"):
                        ctx.ob("select:told", all(strip(x) == U for x in alts(field(y, "target_worker_url"))), f"a worker must be told the URL it was reached at ({show(U)[:80]}), not {show(field(y, 'target_worker_url'))[:120]}", ctx.where(b, k))
    ctx.floor("places that choose between the in-process and the network client", sites, 2)


def given_to(ctx, b):
    """A closure runs under what its receiver says: `(a == b).then(|| ..)`, `opt.filter(..).map(|x| ..)`."""
    P, V = ctx.P, ctx.V
    out = []
    if b.kind == "Closure" and not b.coroutine and b.parent in P.bodies:
        q = P.bodies[b.parent]
        for k, t in q.calls():
            if last(callee_name(t) or "") in ("then", "map", "and_then", "map_or", "map_or_else", "map_or_default") and any(y.k == "clo" and y.a[0] == b.path for i in range(1, len(t[2])) for y in alts(V.arg(q, k, t, i))):
                out += list(ctx.facts(q, k)) + list(alts(V.arg(q, k, t, 0))) + given_to(ctx, q)
    return out


def asked(ctx, b):
    """The URL given to the network's resolver by the callers of b, as a parameter of b."""
    P, V = ctx.P, ctx.V
    root = b
    while root.parent in P.bodies and (root.coroutine or root.kind == "Closure"):
        root = P.bodies[root.parent]
    out = set()
    for c, k in P.callers().get(root.path, []):
        t = c.blocks[k][1]
        us = {strip(V.arg(c, k2, t2, 1)) for k2, t2 in c.calls() if last(callee_name(t2) or "") == "get_worker_client_for_url"}
        for i in range(len(t[2])):
            if len(us) == 1 and strip(V.arg(c, k, t, i)) in us:
                out.add(mk("p", root.path, i + 1))
                break
        else:
            out.add(mk("c", f"unknown at {ctx.where(c, k)}"))
    return out


def delegates(ctx, E, inproc, inh, workers):
    P = ctx.P
    n = 0
    served = {}
    for b in P.own:
        if b.coroutine and b.parent in {p for im in P.impls if (im["trait"] or "").endswith("::WorkerService") for _, p in im["items"]}:
            for k, t in b.calls():
                c = callee_name(t)
                if c in inh:
                    served.setdefault(last(b.parent), set()).add(c)
    ctx.floor("methods of the network service that call the worker", len(served), 2)
    for im in P.impls:
        if not (im["trait"] or "").endswith("::WorkerChannel"):
            continue
        for nm, p in im["items"]:
            m = P.bodies.get(p)
            if m is None or m.self_ty not in inproc:
                continue
            bodies = [c for c in P.children.get(p, []) if c.coroutine] or [m]
            for b in bodies:
                n += 1
                ctx.fns([b])
                cs = [(k, t) for k, t in b.calls() if callee_name(t) in inh]
                ctx.ob(f"delegate:{nm}", len(cs) == 1 and {callee_name(t) for _, t in cs} == served.get(nm, set()),
                       f"{nm} of the in-process client must do what the network service does ({sorted(served.get(nm, []))}), does {[callee_name(t) for _, t in cs]}", ctx.where(b))
                if len(cs) != 1:
                    continue
                k, t = cs[0]
                call = callee_name(t)
                recv = E.arg(b, k, t, 0)
                ctx.ob(f"delegate:{nm}:worker", recv.k == "f" and recv.a[0].k == "p" and recv.a[0].a[1] == 1, f"it acts on the worker it was made for: {show(recv)[:120]}", ctx.where(b, k))
                # parameters by type
                used = set()
                for i in range(1, len(t[2])):
                    y = E.arg(b, k, t, i)
                    src = {x for x in walk(y) if x.k == "p"}
                    ok = len(src) == 1 and whole(y, next(iter(src))) and next(iter(src)).a[1] not in used
                    used |= {x.a[1] for x in src}
                    ctx.ob(f"delegate:{nm}:arg{i}", ok, f"what was asked is handed on unchanged: {show(y)[:160]}", ctx.where(b, k))
                ret = E.ret(b.path)
                good = [y for y in alts(ret) if y.k not in ("E", "never")]
                errs = [y for y in alts(ret) if y.k == "E"]
                for y in good:
                    if y.k == "agg":
                        ok = all(any(z.k == "call" and z.a[0] == call for z in walk(v)) for v in y.a[3:])
                    else:
                        calls = [z for z in walk(y) if z.k == "call" and z.a[0] == call]
                        ok = bool(calls) and (whole(y, calls[0]) or whole(y, mk("f", calls[0], "0")) or any(whole(y, z) for z in walk(y) if z.k == "f" and z.a[0] == calls[0] and str(z.a[1]) == "0"))
                    ctx.ob(f"delegate:{nm}:all", ok, f"everything the worker gives is returned: {show(y)[:200]}", ctx.where(b))
                ctx.ob(f"delegate:{nm}:result", bool(good), "a result is returned", ctx.where(b))
                for y in errs:
                    ctx.ob(f"delegate:{nm}:error", any(z.k == "call" and z.a[0] == call for z in walk(y)), f"only the worker's own failures are returned: {show(y)[:160]}", ctx.where(b))
                fallible = "Result<" in P.ty_s(P.bodies[call].ty(0)) or any(c.coroutine and "Result<" in P.ty_s(c.ty(0)) for c in P.children.get(call, []))
                if fallible:
                    ctx.ob(f"delegate:{nm}:fails", bool(errs) or any(y.k == "call" and y.a[0] == call for y in good), "a failure of the worker is the failure of the call", ctx.where(b))
    ctx.floor("methods of the in-process client", n, 3)


def context(ctx, workers):
    """The worker a context names, and its URL."""
    sites = ctx.aggs("LocalWorkerContext")
    ctx.floor("contexts of a worker", len(sites))
    for b, blk, si, y in sites:
        w = field(y, "local_worker")
        ctx.ob("context:worker", all(x.k == "p" and x.a[1] == 1 for x in alts(w)), f"the context of a worker names that worker: {show(w)[:120]}", ctx.where(b, blk))
        u = field(y, "self_url")
        ok = all(x.k == "p" or x.k == "f" and x.a[1] == "target_worker_url" and x.a[0].k == "p" for x in map(strip, alts(u)))
        ctx.ob("context:url", ok, f"and the URL it was reached at: {show(u)[:120]}", ctx.where(b, blk))


def wire(ctx):
    """Both ends of the network carry each field of the request of a task to the field of the same name."""
    P, V = ctx.P, ctx.V
    n = 0
    for b in P.own:
        for blk, si, a in b.assigns():
            rv = a[2]
            if rv[0] != "agg" or rv[1][0] != "adt" or last(rv[1][1]) != "ExecuteTaskRequest":
                continue
            y = V.rvalue(b, rv, blk, si)
            src = {x for x in walk(y) if x.k == "f" and x.a[1] in ("target_partition_start", "target_partition_end", "task_key")}
            if not src:
                continue        # the request as the pool makes it (C01)
            n += 1
            ctx.fns([b])
            for nm in ("target_partition_start", "target_partition_end"):
                ctx.ob(f"wire:{nm}", of_field(field(y, nm), nm), f"{nm} is carried from {nm}, not {show(field(y, nm))[:120]}", ctx.where(b, blk))
            for z in alts(field(y, "task_key")):
                if z.k != "agg":
                    ctx.ob("wire:task_key", of_field(z, "task_key"), f"the task is carried: {show(z)[:120]}", ctx.where(b, blk))
                    continue
                for nm in z.a[2]:
                    ctx.ob(f"wire:task_key:{nm}", of_field(field(z, nm), nm), f"{nm} is carried from {nm}, not {show(field(z, nm))[:120]}", ctx.where(b, blk))
            ctx.ob("wire:producer_head", all(any(q.k == "f" and q.a[1] == "producer_head" for q in walk(x)) or x.k == "agg" and (len(x.a) < 4 or all(v.k == "agg" and len(v.a) < 4 for v in x.a[3:])) for x in alts(field(y, "producer_head"))), f"the head is carried: {show(field(y, 'producer_head'))[:160]}", ctx.where(b, blk))
    ctx.floor("places where a request of a task is encoded or decoded", n, 2)
