"""Headers and configuration: an interprocedural backward slice from the header argument of every request a session sends to a
worker must contain the session's passthrough headers, and for the request that sets a task up also the registered
configuration extensions, on every path; transports hand the headers on unchanged; the worker gives them to the session
builder and restores its own configuration from them before the plan is decoded; the extension codec sends every entry
of every registered prefix under its own name and restores exactly those; reserved names are refused before they are stored."""
from ..core import *

TECHNIQUE = "interprocedural backward slicing plus must-pass and dominance analysis over MIR; delegation query over trait impls"
NOTE = "Decides every request site, transport, the codec of configuration headers and the reserved-name guard; restoring a user's own extension on the worker is done by user code and is out of scope."


def tyarg(ctx, t):
    j = callee(t)[2]
    return [ctx.P.ty_s(x) for x in (j or {}).get("a", []) if isinstance(x, int)]


def gets(ctx, name):
    def pred(bp, blk):
        t = ctx.P.bodies[bp].blocks[blk][1]
        nm = callee_name(t) or ""
        if nm in ctx.P.bodies and not ctx.P.bodies[nm].skip:
            # a local function that starts from it
            x = ctx.P.bodies[nm]
            return any(last(callee_name(tt) or "") == "get_extension" and any(z.endswith(name) for z in tyarg(ctx, tt)) and always(ctx, x, bk) for bk, tt in x.calls())
        return last(nm) == "get_extension" and any(x.endswith(name) for x in tyarg(ctx, t))
    return pred


def surely(ctx, sites, pred, sink, sblk):
    """A site of the slice satisfying pred runs on every path that reaches the sink."""
    P, V = ctx.P, ctx.V
    anc = {}
    b, blk = sink, sblk
    anc[b.path] = {blk}
    while b.kind == "Closure":
        nxt = None
        for pb, cblk, si, rv in creations(ctx, b.path):
            anc.setdefault(pb.path, set()).add(cblk)
            nxt = pb
        if nxt is None:
            break
        b = nxt
    todo = [s for s in sites if pred(*s)]
    seen = set()
    found = bool(todo)
    while todo:
        bp, blk = todo.pop()
        if (bp, blk) in seen:
            continue
        seen.add((bp, blk))
        x = P.bodies[bp]
        if bp in anc:
            if all(blk == d or x.dominates(blk, d) for d in anc[bp]):
                return True, found
            continue
        if always(ctx, x, blk):
            r = V.root(x)
            todo += [s for s in sites if callee_name(P.bodies[s[0]].blocks[s[1]][1]) in (r.path, bp)]
            for pb, cblk, si, rv in creations(ctx, bp):
                todo.append((pb.path, cblk))
    return False, found


def run(ctx):
    P, V = ctx.P, ctx.V
    # ---- A. requests
    n = 0
    for kind, need in (("coordinator_channel", ("ConfigExtensionPropagationContext", "PassthroughHeaders")), ("execute_task", ("PassthroughHeaders",))):
        k = 0
        for b, blk, t in ctx.calls(rf"WorkerChannel::{kind}$"):
            if b.skip or (V.root(b).trait or "").endswith("WorkerChannel"):
                continue
            k += 1
            w = ctx.where(b, blk)
            hi = next((i for i, o in enumerate(t[2]) if o_local(o) is not None and "HeaderMap" in P.ty_s(b.ty(o_local(o)))), None)
            if not ctx.ob(f"request:{kind}", hi is not None, "a request must carry headers", w):
                continue
            sites = influx(ctx, b, o_local(t[2][hi]))
            for nm in need:
                ok, found = surely(ctx, sites, gets(ctx, nm), b, blk)
                what = "registered configuration extensions" if nm.startswith("Config") else "passthrough headers"
                ctx.ob(f"request:{kind}:{nm}", ok, f"the {what} of the session must be attached to every {kind} request{'' if found else ' (they never flow into its headers)'}", w)
            # nothing is taken out again
            for bp, bk in sites:
                nmc = last(callee_name(P.bodies[bp].blocks[bk][1]) or "")
                ctx.ob(f"request:{kind}:kept", nmc not in ("remove", "clear", "drain", "retain", "remove_entry", "take") or "HeaderMap" not in callee_name(P.bodies[bp].blocks[bk][1]), f"headers are removed again by {nmc}", ctx.where(P.bodies[bp], bk))
                # a header may have several values
                if nmc in ("insert", "try_insert", "entry", "try_entry") and "HeaderMap" in callee_name(P.bodies[bp].blocks[bk][1]):
                    key = ctx.arg(P.bodies[bp], bk, 1)
                    given = contains(key, lambda z: z.k == "idx") and contains(key, lambda z: z.k == "call" and last(z.a[0]) == "get_extension") and not contains(key, is_prefix)
                    ctx.ob(f"request:{kind}:all-values", not given, f"a passthrough header can have several values, of which {nmc} keeps one: {show(key)[:150]}", ctx.where(P.bodies[bp], bk))
        ctx.floor(f"{kind} requests", k)

    # ---- transports
    for b in ctx.method("WorkerChannel", "coordinator_channel") + ctx.method("WorkerChannel", "execute_task"):
        hp = [mk("p", b.path, i) for i in range(1, b.argc + 1) if "HeaderMap" in P.ty_s(b.ty(i))]
        if not ctx.ob(f"transport:headers:{b.path}", len(hp) == 1, "a transport receives the headers", f"{b.file}:{b.line}"):
            continue
        hp = hp[0]
        k = 0
        tree = ctx.closure([b], stop=lambda p: not p.startswith(b.path))
        for x, blk, t in ctx.calls(r"(Request<.*>|request::Request::.*|Worker)::(from_parts|new|coordinator_channel)$", ctx.tree(b)):
            l = last(callee_name(t))
            if l == "coordinator_channel":
                if "generated" in callee_name(t) or "worker_service_client" in callee_name(t):
                    continue
                k += 1
                ctx.ob(f"transport:{b.path}", any(ctx.arg(x, blk, i) is hp for i in range(len(t[2]))), "the headers of the request must be handed to the worker unchanged", ctx.where(x, blk))
            elif "equest" in callee_name(t):
                k += 1
                a = ctx.arg(x, blk, 0)
                ok = l == "from_parts" and all(y.k == "call" and last(y.a[0]) == "from_headers" and y.a[2] is hp for y in alts(a))
                ctx.ob(f"transport:{b.path}", ok, f"the metadata of the outgoing request must be the given headers, got {show(a)[:150]}", ctx.where(x, blk))
        if "in_process" not in b.file or last(b.path) == "coordinator_channel":
            ctx.floor(f"outgoing requests of {last(V.root(b).path)} in {b.file}", k)
    k = 0
    for b, blk, t in ctx.calls(r"worker_service::Worker::coordinator_channel$"):
        if (V.root(b).trait or "").endswith("WorkerService"):
            k += 1
            a = [ctx.arg(b, blk, i) for i in range(len(t[2]))]
            ok = any(y.k == "call" and last(y.a[0]) == "into_headers" and contains(y, lambda z: z.k == "p") and not contains(y, lambda z: z.k == "call" and last(z.a[0]) in ("new", "default")) for x in a for y in alts(x))
            ctx.ob("service:headers", ok, "the worker must be given the metadata of the request", ctx.where(b, blk))
    ctx.floor("services handing headers to the worker", k)

    for b, blk, t in ctx.calls(r"(HeaderMap<.*>|MetadataMap)::(remove|remove_all|remove_bin|clear|drain|retain)$"):
        if b.file.startswith(("src/protocol/", "src/coordinator/", "src/worker/")) and not b.skip:
            ctx.bad(f"transport:kept:{V.root(b).path}", f"headers on their way to a worker are removed by {last(callee_name(t))}", ctx.where(b, blk))

    # ---- D. worker
    k = 0
    for b, blk, t in ctx.calls(r"WorkerSessionBuilder::build_session_state$"):
        if (V.root(b).trait or "").endswith("WorkerSessionBuilder"):
            continue
        k += 1
        w = ctx.where(b, blk)
        q = ctx.arg(b, blk, 1)
        h = field(q, "headers")
        ctx.ob("worker:headers", h.k == "p" and "HeaderMap" in P.ty_s(P.bodies[h.a[0]].ty(h.a[1])), f"the session builder must receive the headers of the request, got {show(h)[:150]}", w)
        sites = influx(ctx, b, o_local(t[2][1]))

        def restores(bp, bk):
            x = P.bodies[bp]
            tt = x.blocks[bk][1]
            return last(callee_name(tt) or "") in ("with_distributed_option_extension_from_headers", "set_distributed_option_extension_from_headers") and any("DistributedConfig" in z for z in tyarg(ctx, tt)) and any(ctx.V.arg(x, bk, tt, i) is h for i in range(len(tt[2])))
        ok, found = surely(ctx, sites, restores, b, blk)
        ctx.ob("worker:restore", ok, "the worker must restore the distributed configuration from the headers before it builds the session" + ("" if found else " (it is never restored)"), w)
    ctx.floor("worker session builds", k)
    built = lambda z: z.k == "call" and last(z.a[0]) == "build_session_state"
    k = 0
    for b, blk, t in ctx.calls(r"MaybeEncoded<.*>::decode$|::decode$"):
        if not b.file.startswith("src/worker/") or "prost" in callee_name(t):
            continue
        k += 1
        ctx.ob("worker:decode", contains(ctx.arg(b, blk, 1), built), "the plan must be decoded with the session restored from the request", ctx.where(b, blk))
    ctx.floor("plans decoded by the worker", k)
    for b, blk, si, t in ctx.aggs("TaskData"):
        ctx.ob("worker:run", contains(field(t, "task_ctx"), built), "the task must run in the session restored from the request", ctx.where(b, blk))
    for b, blk, si, t in ctx.aggs("WorkerPlanRewriteEvent"):
        if b.file.startswith("src/worker/"):
            ctx.ob("worker:rewrite", contains(field(t, "session_config"), built), "rewrites must see the session restored from the request", ctx.where(b, blk))

    send(ctx)
    restore(ctx)
    register(ctx)
    reserved(ctx)
    delegation(ctx, ("option_extension", "passthrough_headers"))


def is_prefix(x):
    return x.k in ("k", "c") and ("METADATA_CONFIG_PREFIX" in str(x.a[0]) or "x-datafusion-distributed-config-" in str(x.a[0]))


def send(ctx):
    P, V = ctx.P, ctx.V
    n = 0
    for b, blk, t in ctx.calls(r"HeaderMap<.*>::(insert|append|try_insert|try_append)$"):
        if b.skip:
            continue
        name, val = ctx.arg(b, blk, 1), ctx.arg(b, blk, 2)
        if not contains(name, is_prefix):
            continue
        n += 1
        w = ctx.where(b, blk)
        keys = [z for z in walk(name) if z.k == "f" and z.a[1] == "key"]
        ok = len(keys) == 1
        en = keys[0].a[0] if ok else None
        ctx.ob("send:name", ok, f"a header must be named after the key of its entry: {show(name)[:200]}", w)
        if not ok:
            continue
        ctx.ob("send:value", any(z.k == "f" and z.a[1] == "value" and z.a[0] is en for z in walk(val)), f"a header must carry the value of its own entry: {show(val)[:200]}", w)
        ext = [z for z in walk(en) if z.k == "f" and z.a[1] == "1"]
        ctx.ob("send:prefix", any(z.k == "f" and z.a[1] == "0" and any(z.a[0] is e.a[0] for e in ext) for z in walk(name)), "a header must be named after the prefix of the extension its entry belongs to", w)
        for f in ctx.facts(b, blk):
            ok = f.k == "isv" or (f.k == "call" and last(f.a[0]) == "contains") or contains(f, lambda z: z.k == "len" and contains(z, lambda q: q.k == "f" and "prefixes" in str(q.a[1])))
            ctx.ob("send:all", ok, f"every entry of a registered extension must be sent; it is sent only if {show(f)[:160]}", w)
        for h, body in V.loops(b).items():
            if blk in body:
                nx = [x for x in body if b.blocks[x][1][0] == "call" and last(callee_name(b.blocks[x][1]) or "") == "next"]
                for x in nx:
                    ctx.ob("send:early", not leaves_early(ctx, b, x), "the loop over extensions and entries must not be left early", w)
    ctx.floor("configuration headers written", n)


def restore(ctx):
    P, V = ctx.P, ctx.V
    n = 0
    for b, blk, t in ctx.calls(r"ExtensionOptions::set$"):
        key, val = ctx.arg(b, blk, 1), ctx.arg(b, blk, 2)
        src = None
        for z in walk(val):
            if z.k == "f" and z.a[1] == "1" and z.a[0].k == "at":
                src = z.a[0]
        hp = V.root(b)
        if src is None or not any("HeaderMap" in P.ty_s(hp.ty(i)) for i in range(1, hp.argc + 1)):
            continue
        n += 1
        w = ctx.where(b, blk)
        nm = field(src, "0")
        tr = [z for f in ctx.facts(b, blk) + [key] for z in walk(f) if z.k == "call" and last(z.a[0]) in ("strip_prefix", "split_once") and contains(z, lambda q: q is nm or (q.k == "f" and q.a[1] == "0" and q.a[0] is src))]
        # closures that look the key up
        pre = [a for z in tr for a in z.a[3:]] + [z for f in ctx.facts(b, blk) for z in walk(f)]
        ctx.ob("restore:own", bool(tr) and any(contains(a, is_prefix) for a in pre) and any(contains(a, lambda q: q.k in ("k", "c") and str(q.a[0]).endswith("::PREFIX")) for a in pre),
               "a configuration entry may be restored only from a header with the reserved prefix and the prefix of that extension", w)
        ctx.ob("restore:exact", not any(z.k == "call" and last(z.a[0]) in ("trim_start_matches", "trim_matches", "trim_end_matches", "replace", "replacen", "rsplit", "rsplit_once") for z in walk(key)),
               f"the key must be what follows the prefix, unchanged: {show(key)[:200]}", w)
        i = [x for h, body in V.loops(b).items() if blk in body for x in body if b.blocks[x][1][0] == "call" and last(callee_name(b.blocks[x][1]) or "") == "next"]
        for x in i:
            ctx.ob("restore:each", not leaves_early(ctx, b, x), "every header must be looked at", w)
        for f in ctx.facts(b, blk):
            ok = f.k == "isv" or (f.k == "call" and last(f.a[0]) in ("contains", "starts_with", "eq_ignore_ascii_case", "contains_key", "any"))
            ctx.ob("restore:all", ok, f"every known entry must be restored; it is restored only if {show(f)[:160]}", w)
    ctx.floor("configuration entries restored", n)


def register(ctx):
    P, V = ctx.P, ctx.V
    n = 0
    for b, blk, t in ctx.calls(r"SessionConfig::set_extension$"):
        if not any("ConfigExtensionPropagationContext" in z for z in tyarg(ctx, t)):
            continue
        n += 1
        w = ctx.where(b, blk)
        r = V.root(b).path
        ctx.ob(f"register:always:{r}", always(ctx, b, blk), "the prefix must be registered on every path", w)
        v = ctx.arg(b, blk, 1)
        ctx.ob(f"register:keep:{r}", contains(v, lambda z: z.k == "call" and last(z.a[0]) == "get_extension"), "extensions registered before must stay registered", w)
        sites = influx(ctx, b, o_local(t[2][1]))
        ps = [(bp, bk) for bp, bk in sites if last(callee_name(P.bodies[bp].blocks[bk][1]) or "") in ("push", "insert", "push_back", "extend")]
        # a push through a field: look in the same body
        ps += [(b.path, bk) for bk, tt in b.calls() if last(callee_name(tt) or "") in ("push", "insert")]
        ok = any(P.bodies[bp] is b and b.dominates(bk, blk) and contains(V.arg(b, bk, b.blocks[bk][1], 1), lambda q: q.k in ("k", "c") and str(q.a[0]).endswith("::PREFIX")) for bp, bk in ps)
        ok = ok or contains(v, lambda q: q.k in ("k", "c") and str(q.a[0]).endswith("::PREFIX"))
        ctx.ob(f"register:prefix:{r}", ok, "the prefix of the extension itself must be registered", w)
    ctx.floor("registrations of extension prefixes", n, 2)
    for b in P.own:
        if last(b.path) == "set_distributed_option_extension" and b.file.endswith("config_extension_ext.rs"):
            ins = [(blk, t) for blk, t in b.calls() if (callee_name(t) or "").endswith("Extensions::insert")]
            ctx.ob("register:value", any(always(ctx, b, blk) and ctx.arg(b, blk, 1) is mk("p", b.path, 2) for blk, t in ins), "the extension given by the user must be stored", f"{b.file}:{b.line}")


def reserved(ctx):
    P, V = ctx.P, ctx.V
    n = 0
    for b, blk, si, t in ctx.aggs("PassthroughHeaders"):
        h = field(t, "0")
        if h.k == "call" and last(h.a[0]) in ("new", "default"):
            continue
        for root, ch, u in ctx.frames(b, t, 2):
            pass
        n += 1
        w = ctx.where(b, blk)
        ok = False
        # loop form: every name is compared and a match is an error
        for x, tt in b.calls():
            if last(callee_name(tt) or "") == "starts_with" and contains(ctx.arg(b, x, 1), is_prefix):
                nm = ctx.arg(b, x, 0)
                names = any(z.k == "call" and last(z.a[0]) in ("keys", "iter") and z.a[2] is h for z in walk(nm)) or contains(nm, lambda z: z.k == "at" and z.a[0] is h)
                i = V.push_idx(b, x)
                sw = b.blocks[tt[4]][1] if tt[4] is not None else None
                bad = None
                if sw and sw[0] == "switch":
                    bad = sw[3] if any(v == 0 for v, _ in sw[2]) else next((tg for v, tg in sw[2] if v == 1), None)
                if names and i is not None and not leaves_early(ctx, b, x) and bad is not None and ctx.err_only(b, bad) and any(x in body and b.dominates(hd, blk) for hd, body in V.loops(b).items()):
                    src = i.a[0]
                    ok = ok or not contains(src, lambda z: z.k == "filtered" or z.k == "call" and ADAPT.search(z.a[0]))
        # any/find/all form
        for f in ctx.facts(b, blk):
            for z in walk(f):
                if z.k == "call" and last(z.a[0]) in ("any", "find", "all", "position") and any(y.k == "clo" and prefixed(ctx, y.a[0]) for y in z.a if isinstance(y, T)) and contains(z, lambda q: q is h):
                    l = last(z.a[0])
                    if l in ("any",) and f.k == "un" or l in ("find", "position") and f.k == "isv" and (f.a[1], f.a[2]) in (((0,), False), ((1,), True)) or l == "all" and f is z:
                        ok = ok or not contains(z.a[2], lambda q: q.k == "filtered" or q.k == "call" and ADAPT.search(q.a[0]))
        ctx.ob("reserved", ok, "headers may be stored only after every name has been compared with the reserved prefix", w)
    ctx.floor("passthrough headers stored", n)


def prefixed(ctx, path):
    b = ctx.P.bodies.get(path)
    return b is not None and any(last(callee_name(t) or "") == "starts_with" and contains(ctx.arg(b, x, 1), is_prefix) for x, t in b.calls())


def delegation(ctx, parts, trait="DistributedExt"):
    """Every way of configuring a session ends in the one for its configuration, with the same arguments."""
    P, V = ctx.P, ctx.V
    n = 0
    for im in P.impls:
        if not (im["trait"] or "").endswith("::" + trait):
            continue
        for nm, p in im["items"]:
            b = P.bodies.get(p)
            if b is None or not any(x in nm for x in parts):
                continue
            if nm.startswith("set_") and (b.self_ty or "").endswith("SessionConfig"):
                continue
            core_nm = re.sub(r"^(set|with)_", "", nm)
            hit = []
            for blk, t in b.calls():
                c_ = last(callee_name(t) or "")
                if re.sub(r"^(set|with)_", "", c_) == core_nm:
                    a = [ctx.arg(b, blk, i) for i in range(1, len(t[2]))]
                    hit.append((blk, a == [mk("p", b.path, i) for i in range(2, b.argc + 1)] and always(ctx, b, blk)))
            n += 1
            ctx.ob(f"delegate:{b.self_ty}:{nm}", any(ok for _, ok in hit), f"{nm} must apply {core_nm} with the arguments it was given", f"{b.file}:{b.line} in {b.path}")
            ctx.seen.add(b.path)
    ctx.floor("delegating session builders", n, 8)
