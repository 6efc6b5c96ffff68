"""Order of consultation: every call of a handler is evaluated symbolically back to the list the handler was taken from; the
list must be the user's handlers followed by the built-in ones, or the built-in ones only where the user's are known not to
have answered; an answer ends the search and is the value the caller sees, errors included; rewrites are threaded. Registration
appends to its own list and keeps everything registered before. Codecs likewise."""
from ..core import *
from .c15 import delegation, tyarg

TECHNIQUE = "symbolic evaluation of handler lists and answers, plus dominance and must-pass analysis over MIR"
NOTE = "Decides consultation order, first-answer-wins, threading of rewrites, registration and the use of the answer at every call site; what a handler answers is user code."

TRAITS = {"DesiredTaskCountHandler": "handle", "RouteTasksHandler": "handle", "ScaleUpLeafNodeHandler": "handle", "WorkerPlanRewriteHandler": "rewrite_worker_plan"}
BADLIST = {"rev", "skip", "take", "step_by", "filter", "last", "rfind", "rfold", "try_rfold", "next_back", "nth", "nth_back", "max_by", "min_by", "max_by_key", "min_by_key", "reverse", "pop", "rposition",
           "sort", "sort_by", "sort_by_key", "swap", "swap_remove", "remove", "truncate", "drain", "split_off", "dedup", "retain", "take_while", "skip_while", "first", "rsplit", "rchunks", "rotate_left", "rotate_right"}


def lists(t):
    """The handler lists a collection is made of, in order; None if it is not understood."""
    if t.k == "f" and t.a[1] in ("custom", "builtin"):
        return (t.a[1],)
    if t.k == "call" and last(t.a[0]) in ("chain", "extend", "append", "extend_from_slice", "concat") and len(t.a) > 3:
        a, b = lists(t.a[2]), lists(t.a[3])
        return a + b if a is not None and b is not None else None
    if t.k == "coll":
        e = t.a[0]
        if e.k == "at":
            return lists(e.a[0])
    if t.k == "call" and len(t.a) > 2 and last(t.a[0]) in ("iter", "into_iter", "copied", "cloned", "to_vec", "as_slice", "clone", "collect", "map", "enumerate", "by_ref", "peekable", "fuse"):
        return lists(t.a[2])
    if t.k == "phi":
        s = {lists(x) for x in alts(t)}
        return s.pop() if len(s) == 1 else None
    return None


def over(t, name=None):
    return contains(t, lambda z: z.k == "f" and z.a[1] in ((name,) if name else ("custom", "builtin")) and "get_extension" in show(z.a[0]) or z.k == "f" and z.a[1] in ((name,) if name else ("custom", "builtin")) and z.a[0].k == "p")


def none_of_custom(ctx, b, blk):
    """The custom handlers are known not to have answered here."""
    for f in ctx.facts(b, blk):
        if f.k == "isv" and (f.a[1], f.a[2]) in (((0,), False), ((1,), True)) and over(f.a[0], "custom"):
            return True
        if f.k == "call" and last(f.a[0]) == "is_none" and over(f.a[2], "custom"):
            return True
    if b.kind == "Closure":
        for bb, b2, t, ai in ctx.V.closure_use(b.path):
            nm = last(callee_name(t) or "")
            if ai > 0 and nm in ("or_else", "unwrap_or_else", "map_or_else") and over(ctx.arg(bb, b2, 0), "custom"):
                return True
            if ai > 0 and nm in ("find_map", "filter_map", "for_each", "try_for_each", "map", "try_fold", "fold"):
                if none_of_custom(ctx, bb, b2):
                    return True
                # eager alternative
                for x, tt in bb.calls():
                    if last(callee_name(tt) or "") in ("or", "or_else") and over(ctx.arg(bb, x, 0), "custom") and not over(ctx.arg(bb, x, 0), "builtin") and bb.dominates(b2, x):
                        return True
    return False


VALUE = ("call", "call_mut", "call_once")


def some_edge(ctx, b, blk):
    """(block deciding it, target when answered, target when not) for the optional answer of the call at blk."""
    V = ctx.V
    nm = callee_name(b.blocks[blk][1])
    made = lambda z: z.a[0] == nm or last(nm) in VALUE and z.a[0] == "{value}"
    dis = {}
    for x, si, st in b.assigns():
        if st[2][0] == "discr" and not st[2][1][1] and ctx.P.ty_s(b.ty(st[2][1][0])).split("<")[0].endswith("Option"):
            dis[st[1][0]] = x
    hits = []
    for x in sorted(b.reach_from(blk)):
        t = b.blocks[x][1]
        if t[0] != "switch" or o_local(t[1]) is None:
            continue
        c_ = V.operand(b, t[1], x, len(b.blocks[x][0]))
        m = dict(t[2])
        if o_local(t[1]) in dis and c_.k == "discr" and any(z.k == "call" and made(z) for z in alts(c_.a[0])):
            hits.append((x, m.get(1, t[3]), m.get(0, t[3])))
        else:
            n, q = False, c_
            while q.k == "un" and q.a[0] == "Not":
                n, q = not n, q.a[1]
            if q.k == "call" and last(q.a[0]) in ("is_some", "is_none") and any(z.k == "call" and made(z) for z in alts(q.a[2])):
                y, no = m.get(1, t[3]), m.get(0, t[3])
                hits.append((x, y, no) if (last(q.a[0]) == "is_some") != n else (x, no, y))
    for h in hits:
        if all(b.dominates(h[0], o[0]) for o in hits):
            return h
    return hits[0] if hits else None


def run(ctx):
    P, V = ctx.P, ctx.V
    consult(ctx)
    answers(ctx)
    rewrites(ctx)
    callers(ctx)
    registration(ctx)
    codecs(ctx)
    delegation(ctx, ("_handler", "user_codec"))


def handler_trait(c):
    p = c.split("::")
    return p[-2] in TRAITS and TRAITS[p[-2]] == p[-1] if len(p) > 1 else False


def in_impl(ctx, b):
    r = ctx.V.root(b)
    return last((r.trait or "").split("<")[0]) in TRAITS


def consult(ctx):
    P, V = ctx.P, ctx.V
    n = 0
    seen_sites = set()
    for b in P.own:
        if b.skip or in_impl(ctx, b):
            continue
        for blk, t in b.calls():
            nm = callee_name(t) or ""
            for i in range(len(t[2])):
                a = ctx.arg(b, blk, i)
                for z in walk(a):
                    if z.k == "at" and over(z.a[0]) and (b.path, blk) not in seen_sites and (nm.endswith(("call_mut", "call", "call_once")) or handler_trait(nm)):
                        seen_sites.add((b.path, blk))
                        n += 1
                        site(ctx, b, blk, z.a[0])
            # order-changing operations on handler lists
            l = last(nm)
            if l in BADLIST and t[2] and over(ctx.arg(b, blk, 0)) and lists(ctx.arg(b, blk, 0)) is not None:
                ctx.bad(f"order:{V.root(b).path}:{l}", f"handlers are consulted through {l}, which changes their order or leaves some out", ctx.where(b, blk))
    ctx.floor("places where a handler of the list is consulted", n)
    # everything the lists are read for
    for b, blk, t in ctx.calls(r"::chain$"):
        ls = lists(ctx.arg(b, blk, 0)), lists(ctx.arg(b, blk, 1))
        if ls != (None, None) and not b.skip:
            ctx.ob(f"order:{b.path}", ls == (("custom",), ("builtin",)), f"the user's handlers come before the built-in ones, got {ls[0]} then {ls[1]}", ctx.where(b, blk))


def site(ctx, b, blk, coll):
    V = ctx.V
    w = ctx.where(b, blk)
    ls = lists(coll)
    key = V.root(b).path
    if not ctx.ob(f"order:{key}", ls in (("custom", "builtin"), ("custom",), ("builtin",)), f"a handler must be taken from the user's handlers followed by the built-in ones, in order: {show(coll)[:160]}", w):
        return
    if ls == ("builtin",):
        ctx.ob(f"precedence:{key}", none_of_custom(ctx, b, blk), "a built-in handler may be consulted only after every user handler declined", w)
    # how the iteration is driven
    inloop = any(blk in s for s in V.loops(b).values())
    nm = callee_name(b.blocks[blk][1]) or ""
    threading = "rewrite_worker_plan" in nm
    if inloop:
        se = some_edge(ctx, b, blk)
        if threading or folds(ctx, b, blk):
            return  # no optional answer: checked in rewrites()
        if not ctx.ob(f"first:{key}:decided", se is not None, "whether a handler answered must decide whether the next one is asked", w):
            return
        x, some, none = se
        ctx.ob(f"first:{key}", blk not in b.reach_from(some) or some == none, "once a handler has answered no other handler is consulted", w)
        lp = [s for s in V.loops(b).values() if blk in s]
        body = min(lp, key=len)
        # leaving the loop: only with an answer or at the end
        dom_some = {y for y in range(len(b.blocks)) if b.dominates(some, y)}
        for f, tg in [(f, tg) for s in [max(lp, key=len)] for f, tg in leaves(ctx, b, s)]:
            ctx.ob(f"first:{key}:all", f in dom_some or tg in dom_some, "handlers are consulted until one answers or none is left", ctx.where(b, f))
    elif b.kind == "Closure":
        for bb, b2, t, ai in V.closure_use(b.path):
            l = last(callee_name(t) or "")
            ok = l in ("find_map", "try_fold", "fold", "filter_map", "map", "for_each", "try_for_each", "and_then")
            ctx.ob(f"first:{key}", ok, f"handlers are consulted one by one until one answers, here through {l}", ctx.where(bb, b2))
            if l in ("filter_map", "map"):
                nx = [x for x, tt in bb.calls() if last(callee_name(tt) or "") in ("next", "find", "find_map", "flatten", "try_fold", "fold")]
                ctx.ob(f"first:{key}", bool(nx), "the first answer decides", ctx.where(bb, b2))


def folds(ctx, b, blk):
    t = b.blocks[blk][1]
    if last(callee_name(t) or "") not in ("call_mut", "call", "call_once"):
        return False
    tup = ctx.arg(b, blk, 1)
    return tup.k == "tup" and len(tup.a) > 1


def leaves(ctx, b, body):
    from ..core import NEXTS
    out = []
    for x in body:
        for s in b.succs(x):
            if s in body:
                continue
            t = b.blocks[x][1]
            if t[0] == "switch":
                nx = False
                if t[1][0] in "cm":
                    for d in ctx.V.rdefs(b, t[1][1][0], x, len(b.blocks[x][0])):
                        if d != "entry" and d[3][0] == "rv" and d[3][1][0] == "discr":
                            nx = nx or any(q != "entry" and q[3][0] == "call" and last(callee_name(b.blocks[q[0]][1]) or "") in NEXTS for q in ctx.V.rdefs(b, d[3][1][1][0], d[0], d[1]))
                if nx or counted(ctx.V.operand(b, t[1], x, len(b.blocks[x][0]))):
                    continue
            if any(r in b.reach_from(s) for r in b.returns()):
                out.append((x, s))
    return out


def is_handle(z, tr=None):
    return z.k == "call" and handler_trait(z.a[0]) and (tr is None or z.a[0].split("::")[-2] == tr)


def answers(ctx):
    """What consulting the chain evaluates to."""
    P, V = ctx.P, ctx.V
    n = 0
    for b in P.own:
        if b.skip or in_impl(ctx, b):
            continue
        own = [(blk, t) for x in ctx.tree(b) for blk, t in x.calls() if handler_trait(callee_name(t) or "")] if V.root(b) is b else []
        if not own or not b.path.split("::")[-2].startswith("EventHandlerChain") and "events" not in b.file:
            continue
        trait = callee_name(own[0][1]).split("::")[-2]
        n += 1
        w = ctx.where(b)
        bodies = [x for x in ctx.tree(b) if x is b or x.kind == "Closure" and "Coroutine" in str(P.ty_s(b.ty(0))) or x.path == b.path + "::{closure#0}" and not V.closure_use(x.path)]
        res = []
        for x in bodies:
            for d in x.defs().get(0, []):
                if not d[2]:
                    res += [y for y in alts(V.rhs(x, d, 0)) if y.k not in ("clo", "cor", "never")]
        src = set()
        for y in res:
            if trait == "WorkerPlanRewriteHandler":
                continue
            if y.k in ("E", "err"):
                ctx.ob(f"answer:{trait}", not contains(y, lambda z: is_handle(z)), f"the answer of a handler is returned as it is, got {show(y)[:160]}", w)
                continue
            if y.k == "none":
                continue
            ok = is_handle(y, trait)
            ctx.ob(f"answer:{trait}", ok, f"the answer of a handler is returned as it is, got {show(y)[:160]}", w)
            if ok:
                ctx.ob(f"answer:{trait}:event", "f" not in y.a[3].k or True, "", w)
                if y.a[2].k == "at":
                    src |= set(lists(y.a[2].a[0]) or ())
                ev = y.a[3]
                ctx.ob(f"answer:{trait}:event", ev.k == "p", f"every handler sees the event as it was raised, got {show(ev)[:160]}", w)
        if trait != "WorkerPlanRewriteHandler":
            ctx.ob(f"answer:{trait}:both", src == {"custom", "builtin"}, f"both the user's and the built-in handlers can answer, found {sorted(src)}", w)
    ctx.floor("handler chains evaluated", n, 4)


def rewrites(ctx):
    P, V = ctx.P, ctx.V
    n = 0
    for b, blk, t in ctx.calls(lambda p: handler_trait(p) and p.endswith("rewrite_worker_plan")):
        if b.skip or in_impl(ctx, b):
            continue
        n += 1
        w = ctx.where(b, blk)
        ev = ctx.arg(b, blk, 1)
        pl = field(ev, "plan")
        threaded(ctx, "rewrite", b, blk, pl, lambda z: is_handle(z), w)
        ctx.ob("rewrite:error", True, "")
    ctx.floor("places where a plan rewrite is applied", n)
    # generic folds over the handlers
    for b, blk, t in ctx.calls(r"::(call_mut|call)$"):
        if b.skip or not (V.root(b).self_ty or V.root(b).path).count("EventHandlerChain"):
            continue
        tup = ctx.arg(b, blk, 1)
        if tup.k == "tup" and len(tup.a) > 1 or tup.k == "agg" and len(fields_of(tup)) > 1:
            acc = field(tup, "0")
            threaded(ctx, "fold", b, blk, acc, lambda z: z.k == "call" and last(z.a[0]) in VALUE + ("{value}",), ctx.where(b, blk))
            e = each(ctx, b, blk)
            ctx.ob("fold:each", e is not None and lists(e) == ("custom", "builtin"), "every handler takes part", ctx.where(b, blk))
            # errors
            if b.kind != "Closure":
                al = flow_locals(b, t[3][0])
                okt, bad = outcome(b, blk, al)
                ctx.ob("fold:error", bad is None or ctx.err_only(b, bad), "a failing rewrite fails the task", ctx.where(b, blk))
    # what the worker ends up with
    k = 0
    for b in P.own:
        if b.skip or V.root(b) is not b or not b.file.startswith("src/events"):
            continue
        if "WorkerPlanRewrite" in b.path and last(b.path) == "handle":
            k += 1
            for d in b.defs().get(0, []):
                for y in alts(V.rhs(b, d, 0)):
                    if y.k in ("E", "err", "never"):
                        continue
                    p = field(y, "plan")
                    al = list(alts(p))
                    ok = all(folded(z) or z.k == "f" and z.a[1] == "plan" and (z.a[0].k == "p" or is_handle(z.a[0])) for z in al) and any(folded(z) or is_handle(z.a[0]) for z in al)
                    ctx.ob("rewrite:result", ok, f"the plan that runs is the output of the last rewrite: {show(p)[:200]}", ctx.where(b))
    ctx.floor("rewrite chains", k)
    k = 0
    for b, blk, si, t in ctx.aggs("TaskData"):
        k += 1
        ctx.ob("rewrite:used", contains(field(t, "base_plan"), lambda z: is_handle(z) or folded(z)), "the task runs the rewritten plan", ctx.where(b, blk))
    ctx.floor("tasks set up by a worker", k)


def fields_of(t):
    return t.a[1:]


def folded(z):
    return z.k == "call" and last(z.a[0]) in ("try_fold", "fold") and over(z.a[2])


def threaded(ctx, what, b, blk, cur, made, w):
    """The value handed on is the start value or the output of the previous step."""
    V = ctx.V
    al = list(alts(cur))
    if b.kind == "Closure":
        use = V.closure_use(b.path)
        ok = bool(use)
        for bb, b2, t, ai in use:
            l = last(callee_name(t) or "")
            r = [y for d in b.defs().get(0, []) for y in alts(V.rhs(b, d, 0)) if y.k not in ("E", "err", "never")]
            if l in ("try_fold", "fold"):
                ok = ok and all(z.k == "p" and z.a[0] == b.path and z.a[1] == 2 or z.k == "acc" and z.a[0] == b.path for z in al) and all(contains(y, made) for y in r)
            else:
                ok = False
        ctx.ob(f"{what}:threaded", ok, f"each rewrite receives the output of the previous one, got {show(cur)[:160]}", w)
        return
    if any(blk in s for s in V.loops(b).values()):
        carried = [z for z in al if contains(z, lambda q: q.k == "rec" or made(q))]
        ctx.ob(f"{what}:threaded", bool(carried) and len(al) > 1, f"each rewrite receives the output of the previous one, got {show(cur)[:160]}", w)
        i = V.push_idx(b, blk)
        ctx.ob(f"{what}:each", not leaves_early(ctx, b, blk), "every rewrite is applied", w)
        return
    ctx.bad(f"{what}:threaded", "a rewrite is applied outside an iteration over the handlers", w)


SWALLOW = {"filter", "xor", "and", "zip", "ok", "is_some_and", "is_ok_and", "take_if", "unwrap_or_default", "is_none_or", "flatten", "err"}


MUTS = BADLIST | {"push", "insert", "clear", "extend", "sort_unstable", "shuffle", "dedup_by", "fill", "resize"}


def callers(ctx):
    P, V = ctx.P, ctx.V
    n = 0
    for b, blk, t in ctx.calls(r"EventHandlerChain<.*>::(handle|find_map)$"):
        if b.skip or b.file.startswith("src/events"):
            continue
        n += 1
        nm = callee_name(t)
        tr = next((x for x in TRAITS if x in nm), None)
        w = ctx.where(b, blk)
        ev = ctx.arg(b, blk, 0)
        if tr == "WorkerPlanRewriteHandler":
            continue
        # nothing thrown away
        for x, tt in b.calls():
            l = last(callee_name(tt) or "")
            if l in SWALLOW | MUTS and tt[2] and any(is_handle(strip(z)) for y in alts(ctx.arg(b, x, 0)) for z in (y, y.a[0] if y.k == "f" else y)):
                ctx.bad(f"use:{tr}", f"the answer of a handler is changed by {l}", ctx.where(b, x))
        # the answer is used
        used = False
        fieldname = {"RouteTasksHandler": "urls", "ScaleUpLeafNodeHandler": "plan", "DesiredTaskCountHandler": "task_count"}[tr]
        hit = lambda z: z.k == "f" and z.a[1] == fieldname and is_handle(strip(z.a[0]), tr)
        rets = [y for d in b.defs().get(0, []) if not d[2] for y in alts(V.rhs(b, d, 0)) if y.k not in ("E", "err", "never")]
        if tr == "RouteTasksHandler":
            ctx.ob(f"use:{tr}", bool(rets) and all(hit(z) for z in rets), f"the workers chosen by the handler are used as they are, got {show(rets[0])[:160] if rets else None}", w)
        elif tr == "ScaleUpLeafNodeHandler":
            some = [d[0] for d in b.defs().get(0, []) if not d[2] for y in [V.rhs(b, d, 0)] if contains(y, hit) and y.k not in ("E", "err")]
            ctx.ob(f"use:{tr}", bool(some), "the leaf chosen by the handler replaces the original one", w)
            for d in b.defs().get(0, []):
                if d[2] or not b.dominates(blk, d[0]):
                    continue
                y = V.rhs(b, d, 0)
                if y.k in ("E", "err", "never") or contains(y, hit):
                    continue
                ctx.ob(f"use:{tr}:default", any(f.k == "isv" and (f.a[1], f.a[2]) in (((0,), False), ((1,), True)) and any(is_handle(strip(q)) for q in alts(f.a[0])) for f in ctx.facts(b, d[0])), "the leaf is left alone only if no handler answered", ctx.where(b, d[0]))
        else:
            # a task count proposed by the engine stands in for the handler's only if no handler answered
            uses = 0
            for x, tt in b.calls():
                l = last(callee_name(tt) or "")
                if l in ("unwrap_or", "unwrap_or_else", "map_or", "map_or_else") and any(hit(z) for z in alts(ctx.arg(b, x, 0))):
                    uses += 1
            for x in b.rpo() if hasattr(b, "rpo") else range(len(b.blocks)):
                tt = b.blocks[x][1]
                if tt[0] == "switch" and tt[1][0] in "cm":
                    c_ = V.operand(b, tt[1], x, len(b.blocks[x][0]))
                    if c_.k == "discr" and any(hit(z) for z in alts(c_.a[0])):
                        uses += 1
            ctx.ob(f"use:{tr}", uses >= 2, f"the task count of the handler must be used for leaves and for inner nodes, with the default only if none answered ({uses} uses)", w)
    ctx.floor("uses of a handler's answer", n, 4)


def strip(z):
    while z.k == "call" and last(z.a[0]) in ("transpose", "map", "ok_or", "ok_or_else", "map_err") and len(z.a) > 2:
        z = z.a[2]
    return z


def registration(ctx):
    P, V = ctx.P, ctx.V
    n = 0
    fns = {}
    for b, blk, t in ctx.calls(r"SessionConfig::set_extension$"):
        if b.skip or not any("EventHandlerChain" in z for z in tyarg(ctx, t)) and "EventHandlerChain" not in b.path:
            continue
        n += 1
        w = ctx.where(b, blk)
        r = V.root(b).path
        ctx.ob(f"register:always:{r}", always(ctx, b, blk), "the handler is registered on every path", w)
        v = ctx.arg(b, blk, 1)
        ctx.ob(f"register:keep:{r}", contains(v, lambda z: z.k == "call" and last(z.a[0]) == "get_extension"), "handlers registered before stay registered", w)
        for z in alts(v):
            if z.k == "agg":
                for fn in ("builtin", "custom"):
                    fv = field(z, fn)
                    ok = fv.k == "f" and fv.a[1] == fn or fv.k == "call" and last(fv.a[0]) == "new" or any(q.k == "f" and q.a[1] == fn for q in walk(fv))
                    ctx.ob(f"register:lists:{r}", ok, f"the list {fn} keeps its own handlers, got {show(fv)[:120]}", w)
        # where the new handler goes
        ins = []
        for x, tt in b.calls():
            l = last(callee_name(tt) or "")
            if l in ("push", "insert", "extend", "append", "push_front", "push_back", "extend_from_slice", "splice", "clear", "truncate", "remove", "pop", "retain", "drain", "sort_by", "reverse") and "HeaderMap" not in (callee_name(tt) or ""):
                fl = target_field(b, x, tt)
                if fl:
                    ins.append((x, l, fl))
        ps = [x for x in ins if x[1] in ("push", "extend", "append", "push_back")]
        ctx.ob(f"register:append:{r}", bool(ps) and all(l in ("push", "extend", "append", "push_back", "extend_from_slice") for _, l, _ in ins), f"a handler is added at the end of its list, got {[x[1] for x in ins]}", w)
        fl = {x[2] for x in ins}
        ctx.ob(f"register:one:{r}", len(fl) == 1, f"a handler goes to one list, got {sorted(fl)}", w)
        if len(fl) == 1:
            fns[r] = fl.pop()
        for x, l, _ in ps:
            a = ctx.arg(b, x, 1)
            ok = contains(a, lambda z: z.k == "p")
            if any(x in s for s in V.loops(b).values()):
                c_ = each(ctx, b, x)
                ok = ok and c_ is not None and c_.k == "p"
            else:
                ok = ok and b.dominates(x, blk)
            ctx.ob(f"register:value:{r}", ok, "the given handlers are added, all of them and in order", ctx.where(b, x))
    ctx.floor("registrations of handlers", n, 2)
    ctx.ob("register:kinds", set(fns.values()) == {"custom", "builtin"}, f"there is a way to register user handlers and one for built-in ones, found {fns}")
    k = 0
    for b, blk, t in ctx.calls(lambda p: p in fns):
        if b.skip or V.root(b).path in fns:
            continue
        nm = callee_name(t)
        user = (V.root(b).trait or "").endswith("DistributedExt")
        k += user
        w = ctx.where(b, blk)
        ctx.ob(f"register:kind:{V.root(b).path}:{last(nm)}", (fns[nm] == "custom") == user, f"{'a user' if user else 'a built-in'} handler is registered as {fns[nm]}", w)
        ctx.ob(f"register:call:{V.root(b).path}", always(ctx, b, blk), "the handler is registered on every path", w)
        if user:
            a = ctx.arg(b, blk, 1)
            ctx.ob(f"register:given:{V.root(b).path}", a is mk("p", b.path, 2), f"the handler given by the user is the one registered, got {show(a)[:120]}", w)
            tr = next((x for x in TRAITS if re.sub("Handler$", "", x).lower() in last(b.path).replace("_", "")), None)
            ctx.ob(f"register:type:{V.root(b).path}", tr is not None, "a registration method names the kind of handler it registers", w)
    ctx.floor("registrations of user handlers", k, 4)


def target_field(b, blk, t):
    """The handler list a mutating call changes (through a reference to a field)."""
    l = o_local(t[2][0]) if t[2] else None
    seen = set()
    while l is not None and l not in seen:
        seen.add(l)
        nl = None
        for x, si, st in b.assigns():
            if st[1][0] == l and not st[1][1] and st[2][0] in ("refm", "ref", "use"):
                pl = st[2][1] if st[2][0] != "use" else st[2][1][1]
                for z in pl[1]:
                    if z != "*" and z[0] == "f" and len(z) > 2 and z[2] in ("custom", "builtin"):
                        return z[2]
                nl = pl[0]
        l = nl
    return None


def codecs(ctx):
    P, V = ctx.P, ctx.V
    n = 0
    for b, blk, t in ctx.calls(r"SessionConfig::set_extension$"):
        if b.skip or not any("UserProvidedCodecs" in z for z in tyarg(ctx, t)):
            continue
        n += 1
        w = ctx.where(b, blk)
        v = ctx.arg(b, blk, 1)
        ctx.ob("codec:keep", contains(v, lambda z: z.k == "call" and last(z.a[0]) == "get_extension"), "codecs registered before stay registered", w)
        ctx.ob("codec:always", always(ctx, b, blk), "the codec is registered on every path", w)
        ms = [(x, last(callee_name(tt) or ""), tt) for x, tt in b.calls() if re.search(r"Vec<.*>::\w+$", callee_name(tt) or "") or last(callee_name(tt) or "") in ("extend", "chain", "insert", "reverse")]
        add = [(x, l) for x, l, tt in ms if l in ("push", "extend", "insert", "append", "extend_from_slice", "chain", "reverse", "clear", "truncate", "pop", "remove", "retain", "drain", "swap")]
        ok = bool(add) and all(l in ("push", "extend", "append", "chain", "extend_from_slice") for _, l in add)
        ctx.ob("codec:append", ok, f"a codec is added after those registered before, got {[l for _, l in add]}", w)
        ok = any(ctx.arg(b, x, 1) is mk("p", b.path, 2) and b.dominates(x, blk) or contains(ctx.arg(b, x, 1), lambda z: z is mk("p", b.path, 2)) for x, l in add)
        ctx.ob("codec:given", ok, "the codec given by the user is the one registered", w)
    ctx.floor("registrations of codecs", n)
    n = 0
    for b, blk, t in ctx.calls(r"ComposedPhysicalExtensionCodec::new$"):
        if b.skip:
            continue
        n += 1
        w = ctx.where(b, blk)
        sites = influx(ctx, b, o_local(t[2][0]))
        got = [(bp, bk) for bp, bk in sites if (callee_name(P.bodies[bp].blocks[bk][1]) or "").endswith("get_extension") and any("UserProvidedCodecs" in z for z in tyarg(ctx, P.bodies[bp].blocks[bk][1]))]
        ctx.ob("codec:used", bool(got), "the codecs of the user take part", w)
        for bp, bk in sites:
            l = last(callee_name(P.bodies[bp].blocks[bk][1]) or "")
            ctx.ob("codec:order", l not in BADLIST | {"insert", "splice", "clear"}, f"codecs keep the order they were registered in, but go through {l}", ctx.where(P.bodies[bp], bk))
        a = ctx.arg(b, blk, 0)
        ctx.ob("codec:own", contains(a, lambda z: z.k == "agg" and "DistributedCodec" in str(z.a[0])), "the codec of the system takes part", w)
        for x, tt in b.calls():
            if last(callee_name(tt) or "") in ("extend", "chain", "append", "extend_from_slice", "push"):
                ctx.ob("codec:first", not contains(ctx.arg(b, x, 1), lambda z: z.k == "agg" and "DistributedCodec" in str(z.a[0])), "the codec of the system, which answers only for its own nodes, keeps its place (its position is part of the encoding)", ctx.where(b, x))
    ctx.floor("codec compositions", n)
    # the same composition on both sides
    for b, blk, t in ctx.calls(r"DistributedCodec::new_combined_with_user$"):
        if not b.skip:
            ctx.ob("codec:session", contains(ctx.arg(b, blk, 0), lambda z: z.k == "call" and last(z.a[0]) in ("session_config", "config") or z.k == "p"), "plans are encoded and decoded with the codecs of their session", ctx.where(b, blk))
