"""Dynamic planning. A stage is finalised by one build that no path can repeat, after every child of its top node was planned exactly once,
and its plan is made of what planning the children gave; the boundary is made of what the build answered. The builder starts the
stage with a sampler in its plan and with the task count that was propagated through it, merged with the annotation of its plan; every routed
task is sent its plan, its reports are received and its feeds are started, once, and all the receivers of reports are what the statistics are gathered from,
unless the stage is coalesced; an error of gathering fails the query. Every report received is counted; gathering ends with the reports and never divides by
a count or fraction that can be zero. Every report a worker makes is forwarded, and both ends of the channel end the reports when they are complete or lost."""
from ..core import *
from .c21 import per_elem
from .c08 import errors

TECHNIQUE = "symbolic terms over compiler MIR (what a stage is built from, what its tasks and receivers are); exactly-once-per-element, reachability and must-pass analysis; guard analysis of every divisor"
NOTE = "futures: try_join_all waits for all, select_all ends when all its streams ended, a stream of receivers gives each one's value; the estimate itself (what is extrapolated from the reports, how many partitions are awaited) is not judged"


OPAQUE = tuple("crate::" + x for x in (
    "distributed_planner::inject_network_boundaries::_inject_network_boundaries",
    "distributed_planner::inject_network_boundaries::InjectNetworkBoundaryContext::propagate_task_count_until_network_boundaries",
    "distributed_planner::inject_network_boundaries::InjectNetworkBoundaryContext::<'_>::propagate_task_count_until_network_boundaries",
    "distributed_planner::network_boundary::ProducerHead::insert_sampler",
    "coordinator::query_coordinator::StageCoordinator::routed_urls",
    "coordinator::query_coordinator::StageCoordinator::<'a>::routed_urls",
))


def noerr(y):
    return {x for x in alts(y) if x.k not in ("E", "never")}


def inject(ctx):
    P, V = ctx.P, ctx.V
    n = 0
    for b in P.own:
        if b.skip:
            continue
        builds = [(k, t) for k, t in b.calls() if re.search(r"NetworkBoundaryBuilder(>)?::build$", callee_name(t) or "")]
        if not builds:
            continue
        n += 1
        ks = [k for k, _ in builds]
        rec = [(q, k) for q in ctx.tree(b) for k, t in q.calls() if callee_name(t) and not callee_name(t).endswith("::build") and b.path.startswith(callee_name(t) + "::")]
        ctx.floor("recursive calls", len(rec), 1)
        for q, k in rec:
            src = each(ctx, q, k)
            y = ctx.arg(q, k, 0)
            ok = src is not None and src.k == "call" and last(src.a[0]) == "children" and y.k == "at" and y.a[0] is src
            ctx.ob("order:children", ok, f"not every child of a node is planned exactly once: {show(y)[:120]}", ctx.where(q, k))
            if q is b:
                for x in ks:
                    ctx.ob("order:before", k not in b.reach_from(x), "a child can be planned after the stage above it was started", ctx.where(b, x))
        for k, t in builds:
            ctx.ob("once:loop", not any(k in s for s in V.loops(b).values()), "a stage can be built repeatedly", ctx.where(b, k))
            nxt = set().union(*[b.reach_from(s) for s in b.succs(k)]) if b.succs(k) else set()
            ctx.ob("once:path", not (nxt & set(ks)), "a stage can be built twice", ctx.where(b, k))
            st = V.arg(b, k, t, 1)
            pl = field(st, "plan")
            for x in alts(pl):
                if x.k in ("E", "never"):
                    continue
                ok = False
                if x.k == "call" and last(x.a[0]) in ("replace_children", "with_new_children"):
                    ch = x.a[3] if x.a[3].k == "coll" else x.a[2]
                    base = x.a[2] if x.a[3].k == "coll" else x.a[3]
                    if ch.k == "coll" and ch.a[1].k == "idx":
                        cs = ch.a[1].a[0]
                        whole = cs.k == "call" and last(cs.a[0]) == "children" and cs.a[2] is base
                        planned = [z for z in alts(ch.a[0]) if z.k not in ("E", "never")]
                        raw = [z for z in planned if z.k == "at" and z.a[0] is cs]
                        ok = whole and not raw and (ch.a[0].k == "rec" or all(z.k in ("rec", "recfn") or z.k == "call" and b.path.startswith(z.a[0] + "::") for z in planned) and bool(planned))
                ctx.ob("order:input", ok, f"a stage can be started with a child that was not planned: {show(x)[:160]}", ctx.where(b, k))
        # what the boundary is made of
        m = 0
        for q in ctx.tree(b):
            for k, t in q.calls():
                if re.search(r"::(try_)?from_stage$", callee_name(t) or ""):
                    m += 1
                    for i, f in ((0, "input_stage"), (1, "input_properties")):
                        y = ctx.arg(q, k, i)
                        ok = all(z.k in ("E", "never") or z.k == "f" and z.a[1] == f and any(w.k == "call" and last(w.a[0]) == "build" for w in alts(z.a[0])) for z in alts(y))
                        ctx.ob("built:" + f, ok, f"a boundary is not made of the stage that was built: {show(y)[:120]}", ctx.where(q, k))
        ctx.floor("boundaries made", m, 3)
    ctx.floor("planners", n, 1)


def builder(ctx):
    P, V = ctx.P, ctx.V
    n = 0
    for D in P.own:
        if D.skip:
            continue
        sc = [(k, t) for k, t in D.calls() if (callee_name(t) or "").endswith("::stage_coordinator")]
        smp = [(k, t) for k, t in D.calls() if (callee_name(t) or "").endswith("::insert_sampler")]
        if not sc or not smp:
            continue
        n += 1
        k, t = sc[0]
        st = V.arg(D, k, t, 1)
        ks, ts = smp[0]
        given = set()
        for d in D.defs().get(ts[3][0], []):
            given |= noerr(V.rhs(D, d, 0))
        pl = field(st, "plan")
        ok = bool(noerr(pl) & given) and D.dominates(ks, k)
        for x, si, a in D.assigns():
            if a[1][1] and a[1][1][-1][0] == "f" and a[1][1][-1][2] == "plan" and k in D.reach_from(x) and x in D.reach_from(ks) and not (noerr(V.rvalue(D, a[2], x, si)) <= given):
                ok = False
        ctx.ob("start:sampler", ok, "a stage can be started without the sampler its size is read from", ctx.where(D, k))
        pr = [(x, u) for x, u in D.calls() if "propagate_task_count" in (callee_name(u) or "")]
        ctx.floor("propagations", len(pr), 1)
        for x, u in pr:
            tc = V.arg(D, x, u, 2)
            want = set()
            for z in alts(tc):
                if z.k == "agg":
                    want |= set(alts(z.a[3]))
            got = set(alts(field(st, "tasks")))
            ws = [(w, si, a) for w, si, a in D.assigns() if a[1][1] and a[1][1][-1][0] == "f" and a[1][1][-1][2] == "tasks"]
            if ws:
                got = set().union(*[alts(V.rvalue(D, a[2], w, si)) for w, si, a in ws])
            dead = lambda s: {z for z in s if z.k != "never"}
            ctx.ob("start:count", tc.k in ("phi", "agg") and dead(got) == dead(want) and D.dominates(x, k), f"a stage is started with a task count that was not propagated through its plan: {show(field(st, 'tasks'))[:160]}", ctx.where(D, k))
            mx = [z for z in alts(tc) if z.k == "agg" and z.a[1] == "Maximum"]
            own = lambda z: any(w.k == "f" and w.a[1] == "task_counts" for w in walk(z))
            ctx.ob("start:limit", any(own(z) for z in mx) and all(own(z) or all(w.k == "never" for w in alts(z.a[3])) for z in mx), "the task count of a stage ignores the annotation of its plan", ctx.where(D, x))
            ds = [z for z in alts(tc) if z.k == "agg" and z.a[1] == "Desired"]
            ctx.ob("start:limit", all(own(z) for z in ds), "the task count of a stage ignores the annotation of its plan", ctx.where(D, x))
        # one of each for every routed task
        R = None
        rx = None
        for nm, i in (("send_plan_task", 1), ("worker_to_coordinator_task", 1), ("coordinator_to_worker_task", 1)):
            cs = [(q, x, u) for q in ctx.tree(D) for x, u in q.calls() if (callee_name(u) or "").endswith("::" + nm)]
            ctx.floor(nm, len(cs), 1)
            for q, x, u in cs:
                src = each(ctx, q, x)
                y = ctx.arg(q, x, i)
                if y.k == "idx" and y.a[0].k == "range" and show(y.a[0].a[0]) == "0" and y.a[0].a[1].k == "len":
                    y = mk("idx", y.a[0].a[1].a[0])
                    src = y.a[0] if src is not None and (src.k == "range" or src is y.a[0]) else None
                ok = src is not None and y.k == "idx" and y.a[0] is src and (R is None or y.a[0] is R)
                ctx.ob("start:each", ok, f"not every routed task is started once under its own number ({nm}, {show(y)[:60]})", ctx.where(q, x))
                if y.k == "idx":
                    R = R or y.a[0]
                if nm == "send_plan_task":
                    w = ctx.arg(q, x, 2)
                    ctx.ob("start:url", w.k == "at" and w.a[0] is R, f"a task is sent to another worker than it was routed to: {show(w)[:100]}", ctx.where(q, x))
        for q in ctx.tree(D):
            for x, u in q.calls():
                if not (callee_name(u) or "").endswith("gather_runtime_statistics"):
                    continue
                y = ctx.arg(q, x, 0)
                ok = y.k == "coll" and y.a[1].k == "idx" and (y.a[1].a[0] is R or y.a[1].a[0].k == "range" and y.a[1].a[0].a[1].k == "len" and y.a[1].a[0].a[1].a[0] is R) and contains(y.a[0], lambda w: w.k == "call")
                ctx.ob("gather:all", ok, f"the statistics are not gathered from the reports of all the tasks: {show(y)[:140]}", ctx.where(q, x))
                p2 = ctx.arg(q, x, 1)
                ctx.ob("gather:plan", noerr(p2) & noerr(pl) & given, "the statistics are gathered for another plan than the one that was started", ctx.where(q, x))
                through = {x}
                for s in range(len(q.blocks)):
                    z = q.blocks[s][1]
                    if z[0] == "switch" and z[1][0] in "cm":
                        v = V.operand(q, z[1], s, len(q.blocks[s][0]))
                        if any(w.k == "call" and "NetworkCoalesceExec" in show(w)[:200] and "TypeId" in show(w)[:200] for w in walk(v)):
                            m = dict((a, g) for a, g in z[2])
                            neg = v.k == "un"
                            isne = v.k == "op" and v.a[0] == "Ne"
                            through.add(m.get(0, z[3]) if neg or isne else (z[3] if 0 in m else m.get(1)))
                ok, path = ctx.must_pass(q, 0, through)
                ctx.ob("gather:always", ok, "a stage that is not coalesced can be finalised without its statistics", ctx.where(q, path[-1] if path else x))
                ctx.ob("gather:error", bool(errors(ctx, q, x)), "a stage whose statistics could not be gathered is finalised as if they were", ctx.where(q, x))
        # what is answered
        for q in ctx.tree(D):
            for blk, si, a in q.assigns():
                rv = a[2]
                if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1].endswith("::RemoteStage"):
                    y = V.rvalue(q, rv, blk, si)
                    w = field(y, "workers")
                    ok = w.k == "coll" and w.a[1].k == "idx" and (w.a[1].a[0] is R or w.a[1].a[0].k == "range" and w.a[1].a[0].a[1].k == "len" and w.a[1].a[0].a[1].a[0] is R) and w.a[0].k == "at" and w.a[0].a[0] is R
                    ctx.ob("answer:workers", ok, f"the stage above does not read from the workers the tasks were routed to: {show(w)[:120]}", ctx.where(q, blk))
                    for f in ("num", "query_id"):
                        z = field(y, f)
                        ctx.ob("answer:" + f, z.k == "f" and z.a[1] == f and z.a[0].k == "p" and z.a[0] in set(walk(st)), f"the stage above reads from a stage with another {f}", ctx.where(q, blk))
    ctx.floor("dynamic builders", n, 1)


def nonzero(ctx, q, op, blk, si, depth=6):
    """the divisor is not zero here"""
    V = ctx.V
    y = V.operand(q, op, blk, si)
    return y, positive(ctx, q, y, ctx.facts(q, blk), op, blk, si, depth)


def positive(ctx, q, y, fs, op, blk, si, depth):
    if y.k in ("k", "c", "const") or not y.a:
        pass
    for f in fs:
        neg = False
        while f.k == "un" and f.a[0] == "Not":
            f, neg = f.a[1], not neg
        if f.k == "phi" and all(z.k == "op" and z.a[0] == "Eq" for z in alts(f)) and neg:
            if {w for z in alts(f) for w in z.a[1:]} <= set(alts(y)) | {w for z in alts(f) for w in z.a[1:] if show(w) == "0"} and all(any(show(w) == "0" for w in z.a[1:]) for z in alts(f)):
                return True
        if f.k == "phi" and all(z.k == "op" and len(z.a) == 3 and z.a[0] in ("Lt", "Gt", "Ne") for z in alts(f)) and not neg:
            big = [z.a[2] if z.a[0] == "Lt" else z.a[1] for z in alts(f)]
            low = [z.a[1] if z.a[0] == "Lt" else z.a[2] for z in alts(f)]
            if set(big) == set(alts(y)) and all(show(z) == "0" for z in low):
                return True
        if f.k == "op" and len(f.a) == 3:
            a, l, r = f.a
            z = lambda w: show(w) in ("0", "0.0", "'0f32'", "'0f64'", "'0.0'")
            if a == "Eq" and neg and (l is y and z(r) or r is y and z(l)) or a == "Ne" and not neg and (l is y and z(r) or r is y and z(l)):
                return True
            if a == "Lt" and not neg and r is y and z(l) or a == "Gt" and not neg and l is y and z(r):
                return True
            if a in ("Le", "Ge") and neg and (a == "Le" and l is y and z(r) or a == "Ge" and r is y and z(l)):
                return True
            if a == "Ge" and not neg and l is y and show(r) not in ("0",) and re.fullmatch(r"\d+", show(r)):
                return True
            if a == "Le" and not neg and r is y and re.fullmatch(r"[1-9]\d*", show(l)):
                return True
    s = show(y)
    m = re.fullmatch(r"'?([\d._eE+-]+)(?:_?[fiu](?:\d+|size))?'?", s)
    if m:
        try:
            return float(m.group(1).replace("_", "")) != 0
        except ValueError:
            return False
    cs = re.fullmatch(r"'([\w:{}#]+)'", s)
    if cs:
        cb = [b for b in ctx.P.own if b.path.endswith(cs.group(1)) and b.kind == "Const"]
        if cb:
            return positive(ctx, q, ctx.V.ret(cb[0].path), [], None, 0, 0, 0)
        return False
    if y.k == "op" and y.a[0] == "max":
        return any(positive(ctx, q, z, fs, None, 0, 0, 0) for z in y.a[1:])
    if y.k == "op" and y.a[0] == "min":
        return all(positive(ctx, q, z, fs, None, 0, 0, 0) for z in y.a[1:])
    if y.k == "op" and y.a[0] == "Div":
        return positive(ctx, q, y.a[1], fs, None, 0, 0, 0)
    if op is not None and depth and op[0] in "cm" and not op[1][1]:
        ds = ctx.V.rdefs(q, op[1][0], blk, si)
        if ds and all(d != "entry" and d[3][0] in ("rv", "call") for d in ds):
            for d in ds:
                if not defined_positive(ctx, q, d, depth - 1):
                    return False
            return True
    return False


def defined_positive(ctx, q, d, depth):
    V = ctx.V
    blk, si = d[0], d[1]
    fs = ctx.facts(q, blk)
    if d[3][0] == "rv":
        rv = d[3][1]
        if rv[0] in ("use", "cast"):
            o = rv[1] if rv[0] == "use" else next((z for z in rv[1:] if isinstance(z, list) and z and z[0] in ("c", "m", "k")), None)
            if o is not None:
                y = V.operand(q, o, blk, si)
                return positive(ctx, q, y, fs, o, blk, si, depth)
        if rv[0] == "bin" and rv[1] == "Div":
            y = V.operand(q, rv[2], blk, si)
            return positive(ctx, q, y, fs, rv[2], blk, si, depth)
        return positive(ctx, q, V.rvalue(q, rv, blk, si), fs, None, 0, 0, 0)
    t = q.blocks[blk][1]
    nm = last(callee_name(t) or "")
    got = [positive(ctx, q, V.arg(q, blk, t, i), fs, t[2][i], blk, len(q.blocks[blk][0]), depth) for i in range(len(t[2]))]
    if nm == "min":
        return all(got)
    if nm == "max":
        return any(got)
    return positive(ctx, q, V.rhs(q, d, 0), fs, None, 0, 0, 0)


def gather(ctx):
    P, V = ctx.P, ctx.V
    n = 0
    for q in P.own:
        if q.skip or not q.coroutine:
            continue
        es = [e for e in ends_of_stream(ctx, q) if e[0].k == "call" and "LoadInfo" in " ".join(P.ty_s(q.ty(i)) for i in range(len(q.locals))) and last(e[0].a[0]) in ("select_all", "flatten_unordered", "merge")]
        if not es:
            continue
        for src, none, some in es:
            n += 1
            ctx.ob("gather:streams", len(src.a) >= 3 and src.a[2].k == "p", f"not all the reports are gathered: {show(src)[:120]}", ctx.where(q, none))
            item = mk("at", src, mk("idx", src))
            ad = next((a for p, a in P.adts.items() if p.endswith("::LoadInfo")), None)
            fields = [f[0] for f in ad["variants"][0]["fields"]] if ad else []
            counted_in(ctx, q, src, some, none, fields)
            # ends with the reports
            loop = [s for s in V.loops(q).items() if some in s[1] or any(some in v for v in [s[1]])]
            ctx.ob("gather:end", all(none not in s for _, s in V.loops(q).items() if some in s), "gathering goes on after the last report", ctx.where(q, none))
        divs = 0
        for blk, si, a in q.assigns():
            rv = a[2]
            if rv[0] == "bin" and rv[1] in ("Div", "Rem"):
                divs += 1
                y, ok = nonzero(ctx, q, rv[3], blk, si)
                ok = ok or bounded(ctx, q, a[1][0])
                ctx.ob("gather:divisor", ok, f"gathering can divide by zero: {show(y)[:120]}", ctx.where(q, blk))
        for k, t in q.calls():
            if re.search(r"::vec_div$", callee_name(t) or ""):
                divs += 1
                y, ok = nonzero(ctx, q, t[2][1], k, len(q.blocks[k][0]))
                ctx.ob("gather:divisor", ok, f"gathering can divide by zero: {show(y)[:120]}", ctx.where(q, k))
        ctx.floor("divisions", divs, 3)
    ctx.floor("gatherers", n, 1)


def bounded(ctx, q, l):
    """a fraction that is only used through min with a constant"""
    S = {l}
    for _ in range(4):
        S |= {a[1][0] for _, _, a in q.assigns() if a[2][0] == "use" and not a[1][1] and o_local(a[2][1]) in S}
    uses = [t for _, t in q.calls() if any(o[0] in "cm" and o[1][0] in S for o in t[2])]
    other = [a for _, _, a in q.assigns() if a[2][0] != "use" and any(o[0] in "cm" and o[1][0] in S for o in ops(a[2]))]
    return bool(uses) and not other and all(last(callee_name(t) or "") in ("min", "clamp") and re.search(r"f(32|64)", callee_name(t)) for t in uses)


def counted_in(ctx, q, src, some, none, fields):
    """every numeric part of a report that is summed is summed for every report"""
    V = ctx.V
    uses = {}
    body = next((s for _, s in sorted(V.loops(q).items(), key=lambda x: len(x[1])) if some in s), None)
    if body is None:
        ctx.bad("gather:loop", "the reports are not read one after the other", ctx.where(q, some))
        return
    for blk in body:
        for si, a in enumerate(q.blocks[blk][0]):
            if a[0] == "=" and a[2][0] in ("bin", "chk") or a[0] == "=" and a[2][0].startswith("bin"):
                for o in ops(a[2]):
                    y = V.operand(q, o, blk, si)
                    f = item_field(y, src)
                    if f and "Add" in json_s(a[2]):
                        uses.setdefault(f, set()).add(blk)
        t = q.blocks[blk][1]
        if t[0] == "call" and last(callee_name(t) or "") in ("element_wise_sum", "push", "add_assign", "add", "extend"):
            for i in range(len(t[2])):
                f = item_field(V.arg(q, blk, t, i), src)
                if f:
                    uses.setdefault(f, set()).add(blk)
    hs = [h for h, s in V.loops(q).items() if s is body]
    for f in ("rows_ready", "rows_pulled_from_leaf", "per_column_bytes_ready", "reached_eos"):
        blks = uses.get(f)
        ctx.ob("gather:counts", bool(blks), f"{f} of the reports is not counted", ctx.where(q, some))
        if blks:
            err = fail_blocks(ctx, q)
            ok, path = ctx.must_pass(q, some, blks | err, sorted(set(q.returns()) | set(hs)))
            ctx.ob("gather:counts", ok, f"{f} of a report can be left out", ctx.where(q, path[-1] if path else some))


def json_s(x):
    return repr(x)


def item_field(y, src):
    for w in walk(y):
        if w.k == "f" and w.a[0].k == "at" and w.a[0].a[0] is src:
            return w.a[1]
    return None


def transport(ctx):
    P, V = ctx.P, ctx.V
    n = 0
    for q in P.own:
        if q.skip or not q.coroutine:
            continue
        eos = arms(ctx, q, "WorkerToCoordinatorMsg", "LoadInfoEos")
        li = arms(ctx, q, "WorkerToCoordinatorMsg", "LoadInfo")
        es = [e for e in ends_of_stream(ctx, q) if e[0].k == "p"]
        if not eos or not li or not es:
            continue
        sends = [(k, t) for k, t in q.calls() if re.search(r"Unbounded?Sender<.*>::send$|mpsc::.*Sender<.*>::send$", callee_name(t) or "") and "LoadInfo" in P.ty_s(q.ty(o_local(t[2][1]))) and "Msg" not in P.ty_s(q.ty(o_local(t[2][1]))) ]
        if not sends:
            continue
        n += 1
        heads = {h for h, s in V.loops(q).items() if any(a in s for a, _ in li)}
        chan = {V.arg(q, k, t, 0) for k, t in sends}
        for s, g in li:
            through = {k for k, _ in sends}
            gone = set()
            for x in range(len(q.blocks)):
                t = q.blocks[x][1]
                if t[0] == "switch" and t[1][0] in "cm":
                    y = V.operand(q, t[1], x, len(q.blocks[x][0]))
                    if y.k == "discr" and any(z in chan for z in [y.a[0]]):
                        m = dict((v, w) for v, w in t[2])
                        gone.add((x, m.get(0, t[3])))
            ok = not (avoiding(q, g, through, gone) & (heads | set(q.returns())))
            ctx.ob("reports:forwarded", ok, "a report of a worker can be left out", ctx.where(q, g))
        for k, t in sends:
            y = V.arg(q, k, t, 1)
            ctx.ob("reports:content", y.k == "f" and any(w.k == "p" for w in walk(y)) and y.a[0].k in ("var", "down", "f", "at", "as") or "LoadInfo" in show(y), f"what is forwarded is not the report that was received: {show(y)[:100]}", ctx.where(q, k))
        # the sender lives in this task only, and is given up at the end of the reports
        rel = set()
        for x in range(len(q.blocks)):
            t = q.blocks[x][1]
            if t[0] == "call" and re.search(r"Option<.*>::take$|mem::(take|replace)$|mem::drop$", callee_name(t) or "") and t[2] and V.arg(q, x, t, 0) in chan:
                rel.add(x)
        for blk, si, a in q.assigns():
            if a[2][0] == "agg" and a[2][1][0] == "adt" and a[2][1][1].endswith("Option") and not a[2][2] and "LoadInfo" in P.ty_s(q.ty(a[1][0])) and "Sender" in P.ty_s(q.ty(a[1][0])):
                rel.add(blk)
        for x in range(len(q.blocks)):
            t = q.blocks[x][1]
            if t[0] == "drop" and "Sender" in place_ty(P, q, t[1]) and "LoadInfo" in place_ty(P, q, t[1]):
                rel.add(x)
        for s, g in eos:
            ok, path = ctx.must_pass(q, g, rel, sorted(heads))
            ctx.ob("reports:end", ok, "the reports of a task do not end when the worker says so, so gathering them waits for the query to end", ctx.where(q, path[-1] if path else g))
        for src, none, some in es:
            ctx.ob("reports:lost", all(none not in s for s in V.loops(q).values() if some in s), "the reports of a task do not end with the channel to its worker", ctx.where(q, none))
        par = next((b for b in P.own if q.path.startswith(b.path + "::") and not b.skip), None)
        for b in ctx.tree(par) if par else []:
            for k, t in b.calls():
                if last(callee_name(t) or "") in ("clone", "downgrade", "forget") and t[2] and t[2][0][0] in "cm" and re.search(r"Sender<.*LoadInfo>", P.ty_s(b.ty(o_local(t[2][0])))) and "Msg" not in P.ty_s(b.ty(o_local(t[2][0]))):
                    ctx.bad("reports:sender", "a sender of reports is kept besides the one that ends with the reports", ctx.where(b, k))
    ctx.floor("report forwarders", n, 1)
    # worker side
    m = 0
    for q in P.own:
        if q.skip or not q.coroutine:
            continue
        made = [(blk, si, a) for x in ctx.tree(q) for blk, si, a in x.assigns() if a[2][0] == "agg" and a[2][1][0] == "adt" and a[2][1][1].endswith("WorkerToCoordinatorMsg")]
        kick = [(k, t) for x in ctx.tree(q) for k, t in x.calls() if (callee_name(t) or "").endswith("::kick_off_first_sampler")]
        if not made or not kick or "generated" in q.file:
            continue
        m += 1
        names = {}
        for x in ctx.tree(q):
            for blk, si, a in x.assigns():
                if a[2][0] == "agg" and a[2][1][0] == "adt" and a[2][1][1].endswith("WorkerToCoordinatorMsg"):
                    names.setdefault(a[2][1][2], []).append((x, blk))
        for v in ("LoadInfo", "LoadInfoEos"):
            ctx.ob("worker:" + v, v in names, f"a worker never sends {v}", ctx.where(q, 0))
        for x, blk in names.get("LoadInfo", []):
            # only a report that was never made is left out
            good = always(ctx, x, blk)
            if not good:
                good = only_missing(ctx, x, blk)
            if any(re.search(r"Option<.*>::(filter|take_if|xor)$", callee_name(u) or "") for _, u in x.calls()):
                good = False
            ctx.ob("worker:forwards", good, "a worker can leave out a report", ctx.where(x, blk))
            par = chain_of(ctx, x)
            cut = [c0 for c0 in par if c0 in ("take", "take_while", "take_until", "skip", "skip_while", "step_by", "nth", "next", "scan")]
            ctx.ob("worker:all", not cut, f"a worker sends part of the reports ({cut})", ctx.where(x, blk))
        for x, blk in names.get("LoadInfoEos", []):
            ctx.ob("worker:end", always(ctx, x, blk), "a worker can leave out the end of its reports", ctx.where(x, blk))
        ch = [(x, k, t) for x in ctx.tree(q) for k, t in x.calls() if last(callee_name(t) or "") in ("chain", "yield_", "select")]
        # the end comes after the reports
        oks = False
        for x, k, t in ch:
            if last(callee_name(t)) == "chain" and len(t[2]) == 2:
                a, z = V.arg(x, k, t, 0), V.arg(x, k, t, 1)
                if made_in(z, "LoadInfoEos") and made_in(a, "LoadInfo") and not made_in(a, "LoadInfoEos"):
                    oks = True
        ctx.ob("worker:order", oks, "the end of the reports of a worker does not come after its reports", ctx.where(q, 0))
    ctx.floor("worker channels", m, 1)


def avoiding(q, src, blks, edges):
    """blocks reached from src without entering blks or taking the edges"""
    seen, todo = set(), [src]
    while todo:
        x = todo.pop()
        if x in seen or x in blks:
            continue
        seen.add(x)
        todo += [y for y in q.succs(x) if (x, y) not in edges]
    return seen


def place_ty(P, q, place):
    return P.ty_s(q.ty(place[0])) if not place[1] else ""


def only_missing(ctx, x, blk):
    """the block is passed unless what was received is an error or nothing"""
    V = ctx.V
    through = {blk} | fail_blocks(ctx, x)
    for s in range(len(x.blocks)):
        t = x.blocks[s][1]
        if t[0] == "switch" and t[1][0] in "cm":
            for d in V.rdefs(x, t[1][1][0], s, len(x.blocks[s][0])):
                if d != "entry" and d[3][0] == "rv" and d[3][1][0] == "discr":
                    y = V.operand(x, t[1], s, len(x.blocks[s][0]))
                    if any(w.k in ("call", "filtered", "op", "phi") and not (w.k == "call" and last(w.a[0]) in ("ok", "branch", "new")) for w in walk(y)):
                        continue
                    ty = ctx.P.ty_s(d[3][1][2])
                    m = dict((v, w) for v, w in t[2])
                    if ty.startswith("core::option::Option<"):
                        through.add(m.get(0, t[3]))
                    elif ty.startswith("core::result::Result<") or "ControlFlow<" in ty:
                        through.add(m.get(1, t[3]))
    return ctx.must_pass(x, 0, through)[0]


def chain_of(ctx, x):
    """names of the adaptors a closure's stream goes through, up to where it is returned"""
    top = x
    while True:
        up = next((b for b in ctx.P.own if x.path.startswith(b.path + "::") and x.path.count("::{closure") == b.path.count("::{closure") + 1 and x.path[:len(b.path)] == b.path), None)
        use = ctx.V.closure_use(x.path)
        use = [u for u in use if last(callee_name(u[2]) or "") in ("filter_map", "map", "then", "flat_map", "filter", "for_each", "inspect")]
        if use or up is None:
            break
        x = up
    out = []
    for bb, k, t, ai in use:
        y = ctx.V.arg(bb, k, t, 0)
        for w in walk(y):
            if w.k == "call":
                out.append(last(w.a[0]))
        # what is made of it
        S = flow_locals(bb, t[3][0]) if not t[3][1] else set()
        for k2, t2 in bb.calls():
            if t2[2] and o_local(t2[2][0]) in S:
                out.append(last(callee_name(t2) or ""))
    return out


def made_in(y, v):
    return any(w.k == "agg" and w.a[1] == v for w in walk(y))


def run(ctx):
    inject(ctx)
    builder(ctx)
    gather(ctx)
    transport(ctx)
