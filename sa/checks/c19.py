"""Unions over tasks. The assignment lists, per task of the stage, the children it runs and which task of the child that is. The allocator enters every
child once per task it was given, with that task's number, into consecutive slots, and every child that was given none once into one of those
slots; no increment passes a child's limit. A task executes the children of its own slot: partition p is the partition of the first child that is
not used up by the children before it, under the child's own task context, and it is empty only after all of them; what is advertised is the largest sum of the
partitions of a slot's children; the specialised copy replaces exactly the children that are not in the slot, by empty ones of the same shape."""
from ..core import *
from .c32 import avoiding

TECHNIQUE = "symbolic terms over compiler MIR (which child, which partition, which context); loop-path analysis with edge conditions (each entry and each child exactly once, limits)"
NOTE = "that the shares add up to at most the number of slots (a sum of rounded fractions) is not decided: more would be an out-of-bounds panic, not a wrong result; proportionality of the shares is not judged"


def find(ctx):
    for p, a in ctx.P.adts.items():
        if a["kind"] != "struct" or not p.startswith("crate::"):
            continue
        for name, t in a["variants"][0]["fields"]:
            if re.fullmatch(r"(\w+::)*Vec<(\w+::)*Vec<\(usize, [\w:]*DistributedTaskContext\)(, .*)?>(, .*)?>", ctx.P.ty_s(t)):
                yield p, name


def count_of(y, ch):
    """y is the number of partitions of the plan ch"""
    return y.k == "call" and last(y.a[0]) == "partition_count" and any(z is ch for z in walk(y))


def entry(y, F, ti=None):
    """y is an entry of the assignment: the slot it is of"""
    if y.k == "at" and y.a[1].k == "idx" and y.a[1].a[0] is y.a[0] and y.a[0].k == "at":
        m = y.a[0]
        if F(m.a[0]):
            return m
    return None


def headers(b, V, blk):
    return [h for h, s in sorted(V.loops(b).items(), key=lambda x: len(x[1])) if blk in s]


def next_of(ctx, b, h):
    """for the loop with that header: (call of next, none, some)"""
    V = ctx.V
    s = V.loops(b)[h]
    inner = set().union(*[t for g, t in V.loops(b).items() if g != h and t < s] or [set()])
    for x in sorted(s - inner):
        t = b.blocks[x][1]
        if t[0] == "call" and last(callee_name(t) or "") in ("next", "next_back"):
            for y in sorted(s - inner):
                u = b.blocks[y][1]
                if u[0] == "switch" and u[1][0] in "cm" and b.dominates(x, y):
                    for d in V.rdefs(b, u[1][1][0], y, len(b.blocks[y][0])):
                        if d != "entry" and d[3][0] == "rv" and d[3][1][0] == "discr" and d[3][1][1] == t[3]:
                            m = dict((v, g) for v, g in u[2])
                            return x, m.get(0, u[3]), m.get(1, u[3])
    for x in sorted(s - inner):
        u = b.blocks[x][1]
        ins, out = [y for y in b.succs(x) if y in s], [y for y in b.succs(x) if y not in s]
        if u[0] != "switch" or len(ins) != 1 or len(out) != 1:
            continue
        z = V.operand(b, u[1], x, len(b.blocks[x][0]))
        i = counted_to(z)
        if i is None:
            continue
        incs = {w for w, si, a in b.assigns() if w in s and a[2][0] == "bin" and a[2][1].startswith("Add") and a[2][3][0] == "k" and a[2][3][1].get("v") == 1 and set(alts(V.operand(b, a[2][2], w, si))) == i[0]}
        if h not in avoiding(b, ins[0], incs, set()) and len(incs) == 1:
            return x, out[0], ins[0]
    return None


def counter_of(ctx, b, k, i, n):
    """i counts the rounds of the innermost loop around k from 0 up to n"""
    hs = headers(b, ctx.V, k)
    e = next_of(ctx, b, hs[0]) if hs else None
    if e is None or b.blocks[e[0]][1][0] != "switch":
        return False
    z = counted_to(ctx.V.operand(b, b.blocks[e[0]][1][1], e[0], len(b.blocks[e[0]][0])))
    return z is not None and z[0] == set(alts(i)) and z[1] is n


def counted_to(z):
    """(counter, bound) of the test `i < n` on a counter from 0 by 1"""
    al = list(alts(z))
    if not al or not all(w.k == "op" and w.a[0] == "Lt" and w.a[2] is al[0].a[2] for w in al):
        return None
    l = [w.a[1] for w in al]
    if len(l) == 1:
        l = list(alts(l[0]))
    if not any(show(w) == "0" for w in l) or not all(show(w) == "0" or w.k == "ctr" and show(w.a[0]) == "1" for w in l):
        return None
    return frozenset(l), al[0].a[2]


def execute(ctx, ty, F):
    P, V = ctx.P, ctx.V
    n = 0
    for b in P.own:
        if b.skip or not b.path.endswith("ExecutionPlan>::execute") or (b.self_ty or "").split("<")[0] != ty:
            continue
        for k, t in b.calls():
            if not re.search(r"ExecutionPlan(>)?::execute$", callee_name(t) or ""):
                continue
            n += 1
            a0, a1, a2 = V.arg(b, k, t, 0), V.arg(b, k, t, 1), V.arg(b, k, t, 2)
            e = a0.a[1].a[0] if a0.k == "at" and a0.a[1].k == "f" and a0.a[1].a[1] == "0" else None
            m = entry(e, lambda y: y.k == "f" and y.a[1] == F) if e is not None else None
            ctx.ob("run:child", m is not None and a0.a[0].k == "f" and a0.a[0].a[1] == "children", f"a task does not run the children assigned to it: {show(a0)[:140]}", ctx.where(b, k))
            if m is None:
                continue
            ti = m.a[1]
            ctx.ob("run:slot", ti.k == "f" and ti.a[1] == "task_index" and ti.a[0].k == "call" and last(ti.a[0].a[0]) == "from_ctx", f"a task runs the children of another slot: {show(ti)[:100]}", ctx.where(b, k))
            ctx.ob("run:context", any(z.k == "f" and z.a[1] == "1" and z.a[0] is e for z in walk(a2)), f"a child does not run under its own task context: {show(a2)[:100]}", ctx.where(b, k))
            # the partition
            okp = False
            for z in alts(a1):
                if z.k == "p":
                    okp = True
                    continue
                ok = z.k == "sum" and len(z.a[0]) == 2 and any(co == 1 and len(fs) == 1 and fs[0].k in ("rec", "p", "phi") for co, fs in z.a[0]) and \
                    any(co == -1 and len(fs) == 1 and count_of(fs[0], a0) for co, fs in z.a[0])
                ctx.ob("run:partition", ok, f"the partition of a child is not what is left after the children before it: {show(z)[:200]}", ctx.where(b, k))
            ctx.ob("run:partition", okp, f"the first child does not run the partition that was asked for: {show(a1)[:140]}", ctx.where(b, k))
            fs = ctx.facts(b, k)
            below = any(less(f, a1, lambda y: count_of(y, a0)) for f in fs)
            ctx.ob("run:below", below, "a child can be asked for a partition it does not have", ctx.where(b, k))
            hs = headers(b, V, k)
            es = [(src, none, some) for src, none, some in ends_of_stream(ctx, b) if src is m]
            if not es:
                ctx.bad("run:loop", "the children of a slot are not gone through one after the other", ctx.where(b, k))
                continue
            src, none, some = es[0]
            body = [s for s in V.loops(b).values() if some in s]
            hs = [h for h, s in V.loops(b).items() if some in s]
            subs = set()
            for blk, si, a in b.assigns():
                if a[2][0] == "bin" and a[2][1].startswith("Sub"):
                    y = V.operand(b, a[2][3], blk, si)
                    if count_of(y, a0):
                        subs.add(blk)
            for blk, u in b.calls():
                if last(callee_name(u) or "") in ("saturating_sub", "checked_sub", "wrapping_sub", "sub_assign", "sub") and len(u[2]) == 2 and count_of(V.arg(b, blk, u, 1), a0):
                    subs.add(blk)
            skip = avoiding(b, some, subs | {k}, set()) & set(hs)
            ctx.ob("run:subtract", bool(subs) and not skip, "a child can be passed over without its partitions being counted", ctx.where(b, some))
            reach = avoiding(b, some, set(hs) | {k} | fail_blocks(ctx, b), set())
            for d in b.defs().get(0, []):
                if d[2]:
                    continue
                y = V.rhs(b, d, 0)
                if y.k not in ("E", "never") and not any(z is a0 for z in walk(y)):
                    ctx.ob("run:empty", d[0] not in reach and last(str(y.a[0])) == "new" and "Empty" in show(y)[:40], f"a partition can be answered without running a child although children are left: {show(y)[:100]}", ctx.where(b, d[0]))
    ctx.floor("union executions", n, 1)


def less(f, x, isy):
    neg = False
    while f.k == "un" and f.a[0] == "Not":
        f, neg = f.a[1], not neg
    if f.k == "phi":
        return all(less(mk("un", "Not", z) if neg else z, None, isy) for z in alts(f))
    if f.k != "op" or len(f.a) != 3:
        return False
    o, l, r = f.a
    if neg:
        o = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt"}.get(o, "")
    if o == "Gt":
        o, l, r = "Lt", r, l
    return o == "Lt" and (x is None or l is x or l in alts(x)) and isy(r)


def advertised(ctx, ty, F):
    P, V = ctx.P, ctx.V
    n = 0
    for b, blk, y in ctx_aggs(ctx, ty):
        if "codec" in b.file:
            continue
        part = [z for z in walk(field(y, "properties")) if z.k == "agg" and z.a[1] == "UnknownPartitioning"]
        if not part:
            pr = field(y, "properties")
            ctx.ob("advertise:kept", pr.k == "f" and pr.a[1] == "properties" or pr.k == "p", f"the partitions advertised do not follow from the assignment: {show(pr)[:120]}", ctx.where(b, blk))
            continue
        n += 1
        m = field(y, F)
        ch = field(y, "children")
        v = part[0].a[3]
        ok = v.k == "call" and last(v.a[0]) == "max" and v.a[2].k == "coll"
        ctx.ob("advertise:max", ok, f"the partitions advertised are not those of the largest slot: {show(v)[:140]}", ctx.where(b, blk))
        if not ok:
            continue
        el, ix = v.a[2].a[0], v.a[2].a[1]
        if el.k == "call" and last(el.a[0]) == "sum":
            c0 = el.a[2]
            ok = c0.k == "coll" and c0.a[0].k == "call" and last(c0.a[0].a[0]) == "partition_count"
            ctx.ob("advertise:sum", ok, f"the partitions of a slot are not the sum over its children: {show(el)[:140]}", ctx.where(b, blk))
            continue
        adds = [(x, si, a) for x, si, a in b.assigns() if a[2][0] == "bin" and a[2][1].startswith("Add") and any(z.k == "call" and last(z.a[0]) == "partition_count" for o in ops(a[2]) for z in [V.operand(b, o, x, si)])]
        ctx.ob("advertise:sum", len(adds) == 1, "the partitions of a slot are not the sum over its children", ctx.where(b, blk))
        for x, si, a in adds:
            hs = headers(b, V, x)
            c = next(V.operand(b, o, x, si) for o in ops(a[2]) if V.operand(b, o, x, si).k == "call")
            kid = next((z for z in walk(c) if z.k == "at" and z.a[0] is ch), None)
            ctx.ob("advertise:child", kid is not None and kid.a[1].k == "f" and kid.a[1].a[1] == "0", f"what is counted for a slot is not its children: {show(c)[:140]}", ctx.where(b, x))
            ctx.ob("advertise:each", len(hs) >= 2 and through_all(ctx, b, x, hs[:2]), "a child of a slot can be left out of its partitions", ctx.where(b, x))
    ctx.floor("advertised counts", n, 1)


def through_all(ctx, b, x, hs):
    """x is passed once per element of the loops with these headers (innermost first)"""
    V = ctx.V
    cur = {x}
    for h in hs:
        s = V.loops(b)[h]
        e = next_of(ctx, b, h)
        if e is None:
            return False
        src, none, some = e
        r = avoiding(b, some, cur | fail_blocks(ctx, b), set())
        if h in r or any(y not in s for y in r if not ctx.err_only(b, y) and b.blocks[y][1][0] != "unreach"):
            return False
        # after the visit nothing leaves but the end
        r2 = set()
        for c in cur:
            for y in b.succs(c):
                r2 |= avoiding(b, y, {h} | fail_blocks(ctx, b), set())
        if any(y not in s and not ctx.err_only(b, y) and b.blocks[y][1][0] != "unreach" for y in r2):
            return False
        cur = {h}
    return True


def ctx_aggs(ctx, ty):
    for b in ctx.P.own:
        if b.skip:
            continue
        for blk, si, a in b.assigns():
            if a[2][0] == "agg" and a[2][1][0] == "adt" and a[2][1][1] == ty:
                yield b, blk, ctx.V.rvalue(b, a[2], blk, si)


def specialised(ctx, ty, F):
    P, V = ctx.P, ctx.V
    n = 0
    for b, blk, y in ctx_aggs(ctx, ty):
        ch = field(y, "children")
        if ch.k != "coll" or not any(z.k == "call" and "EmptyExec" in z.a[0] for z in walk(ch.a[0])):
            continue
        n += 1
        kept = [z for z in alts(ch.a[0]) if z.k == "at"]
        gone = [z for z in alts(ch.a[0]) if z.k != "at"]
        src = ch.a[1].a[0] if ch.a[1].k == "idx" else None
        ok = len(kept) == 1 and kept[0].a[1] is ch.a[1] and kept[0].a[0] is src and src.k == "f" and src.a[1] == "children"
        ctx.ob("specialise:kept", ok, f"a child of a slot is replaced by another: {show(ch)[:140]}", ctx.where(b, blk))
        for z in gone:
            same = z.k == "call" and last(z.a[0]) == "with_partitions" and kept and count_of(z.a[3], kept[0]) and any(w is kept[0] for w in walk(z.a[2]))
            ctx.ob("specialise:shape", same, f"a child left out is not replaced by an empty one of its shape: {show(z)[:140]}", ctx.where(b, blk))
        slots = []
        for q in ctx.tree(b):
            for x, t in q.calls():
                if not (callee_name(t) or "").endswith("EmptyExec::new"):
                    continue
                good = False
                for f in ctx.facts(q, x):
                    neg = False
                    while f.k == "un" and f.a[0] == "Not":
                        f, neg = f.a[1], not neg
                    if f.k == "call" and (last(f.a[0]) in ("contains", "any", "contains_key") and neg or last(f.a[0]) == "all" and not neg) and any(z.k == "at" and z.a[0].k == "f" and z.a[0].a[1] == F for z in walk(f)):
                        good = True
                        slots += [z.a[1] for z in walk(f) if z.k == "at" and z.a[0].k == "f" and z.a[0].a[1] == F]
                ctx.ob("specialise:which", good, "a child of the slot can be emptied, or one of another slot kept", ctx.where(q, x))
        sites = ctx.call_sites(b)
        for z in slots:
            ok = z.k == "p" and bool(sites)
            for q, x, t in sites if ok else []:
                w = V.arg(q, x, t, z.a[1] - 1)
                ok = ok and w.k == "f" and w.a[1] == "task_index"
            ctx.ob("specialise:slot", ok, f"a task is left with the children of another slot: {show(z)[:120]}", ctx.where(b, blk))
        for f in (F, "properties"):
            ctx.ob("specialise:" + f, field(y, f).k == "f" and field(y, f).a[1] == f, f"the specialised copy has another {f}", ctx.where(b, blk))
    ctx.floor("specialised copies", n, 1)


def rebuilt(ctx, ty, F):
    """a copy with other children has as many slots as the original"""
    P, V = ctx.P, ctx.V
    n = 0
    for b in P.own:
        if not b.path.endswith("::with_new_children") or (b.self_ty or "").split("<")[0] != ty:
            continue
        for k, t in b.calls():
            if not (callee_name(t) or "").startswith(ty + "::") or len(t[2]) < 3:
                continue
            n += 1
            args = [V.arg(b, k, t, i) for i in range(len(t[2]))]
            ok = any(z.k == "len" and z.a[0].k == "f" and z.a[0].a[1] == F for z in args)
            ctx.ob("rebuild:slots", ok, "a copy with other children has another number of slots", ctx.where(b, k))
            ctx.ob("rebuild:weights", any(z.k == "f" and z.a[1] == "child_weights" for z in args), "a copy with other children gives them other shares", ctx.where(b, k))
    ctx.floor("copies with other children", n, 1)


def split(ctx, ty, F):
    P, V = ctx.P, ctx.V
    n = 0
    for b in P.own:
        if b.skip:
            continue
        ps = []
        for k, t in b.calls():
            if re.search(r"Vec<.*>::push$", callee_name(t) or ""):
                y = V.arg(b, k, t, 1)
                if y.k == "tup" and len(y.a) == 2 and y.a[1].k == "agg" and y.a[1].a[0].endswith("DistributedTaskContext"):
                    ps.append((k, t, y))
        if not ps or "generated" in b.file or "codec" in b.file:
            continue
        n += 1
        kinds = {}
        for k, t, y in ps:
            x, i, c = y.a[0], field(y.a[1], "task_index"), field(y.a[1], "task_count")
            if show(i) == "0" and show(c) == "1":
                kinds.setdefault("rest", []).append((k, t, x))
            elif i.k == "idx" and i.a[0].k == "range" and show(i.a[0].a[0]) == "0" and i.a[0].a[1] is c:
                kinds.setdefault("layout", []).append((k, t, x, c))
            elif any(z.k == "ctr" for z in alts(i)) and counter_of(ctx, b, k, i, c):
                kinds.setdefault("layout", []).append((k, t, x, c))
            else:
                ctx.bad("split:entry", f"an entry of the assignment is not a task of its child: {show(y)[:160]}", ctx.where(b, k))
        ctx.ob("split:both", set(kinds) == {"rest", "layout"} and all(len(v) == 1 for v in kinds.values()), "children with and without tasks of their own are not both assigned", ctx.where(b, 0))
        if set(kinds) != {"rest", "layout"}:
            continue
        k, t, x, c = kinds["layout"][0]
        hs = headers(b, V, k)
        ctx.ob("split:tasks", len(hs) >= 2 and through_all(ctx, b, k, hs[:2]), "a task of a child can be left out of the assignment", ctx.where(b, k))
        slot = slot_of(ctx, b, k)
        okc = slot is not None and all(re.fullmatch(r"0|\(?(1 \+ )?ctr\([01], [^()]*\)\)?", show(z)) for z in alts(slot)) and any(w.k == "ctr" for w in walk(slot))
        inc = [w for w, si, a in b.assigns() if a[2][0] == "bin" and a[2][1].startswith("Add") and okc and V.operand(b, a[2][2], w, si) in (slot,) or okc and a[2][0] == "bin" and a[2][1].startswith("Add") and same_ctr(V.operand(b, a[2][2], w, si), slot)]
        inc = [w for w in inc if hs and w in V.loops(b)[hs[0]]]
        nxt = set().union(*[avoiding(b, s, set(inc), set()) for s in b.succs(k)]) if b.succs(k) else set()
        ctx.ob("split:slots", okc and bool(inc) and not (nxt & set(hs[:1])), f"two tasks of children can be given the same slot: {show(slot)[:100] if slot else ''}", ctx.where(b, k))
        k2, t2, x2 = kinds["rest"][0]
        h2 = headers(b, V, k2)
        e = next_of(ctx, b, h2[0]) if h2 else None
        ctx.ob("split:rest", e is not None, "the children without tasks of their own are not gone through", ctx.where(b, k2))
        if e is not None:
            src, none, some = e
            edges = set()
            for s in range(len(b.blocks)):
                u = b.blocks[s][1]
                if u[0] != "switch" or u[1][0] not in "cm":
                    continue
                y = V.operand(b, u[1], s, len(b.blocks[s][0]))
                edges |= zero_edges(y, u, c, s)
            r = avoiding(b, some, {k2} | fail_blocks(ctx, b), edges)
            ctx.ob("split:rest", h2[0] not in r and none not in r, "a child without tasks of its own can be left out of the assignment", ctx.where(b, k2))
            pos = positive_edges(ctx, b, c)
            r = avoiding(b, some, {h2[0]}, pos)
            ctx.ob("split:twice", k2 not in r, "a child can be assigned both its tasks and once more", ctx.where(b, k2))
            s2 = slot_of(ctx, b, k2)
            ok = s2 is not None and s2.k == "op" and s2.a[0] == "Rem" and same_ctr(s2.a[2], slot)
            ctx.ob("split:rest-slot", ok, f"a child without tasks of its own can be assigned to a slot that does not exist: {show(s2)[:100] if s2 else ''}", ctx.where(b, k2))
        caps(ctx, b)
    ctx.floor("allocators", n, 1)


def same_ctr(y, slot):
    return y is slot or bool({z for z in walk(y) if z.k == "ctr"} & {z for z in walk(slot) if z.k == "ctr"}) if slot is not None else False


def zero_edges(y, u, c, s):
    """edges taken when c is not zero"""
    m = dict((v, w) for v, w in u[2])
    t, f = (m.get(1, u[3]) if 0 in m else u[3]), m.get(0, u[3])
    neg = False
    while y.k == "un":
        y, neg = y.a[1], not neg
    if neg:
        t, f = f, t
    if y is c:
        return {(s, w) for v, w in u[2] if v != 0} | ({(s, u[3])} if 0 in m else set())
    if y.k == "op" and len(y.a) == 3 and any(z is c for z in y.a[1:]) and any(show(z) in ("0", "1") for z in y.a[1:]):
        o, l, r = y.a
        if o == "Ne" and "0" in (show(l), show(r)):
            return {(s, t)}
        if o == "Eq" and "0" in (show(l), show(r)):
            return {(s, f)}
        if o == "Gt" and l is c and show(r) == "0" or o == "Lt" and r is c and show(l) == "0" or o == "Ge" and l is c and show(r) == "1":
            return {(s, t)}
        if o == "Le" and l is c and show(r) == "0" or o == "Lt" and l is c and show(r) == "1":
            return {(s, f)}
    return set()


def positive_edges(ctx, b, c):
    """edges taken when c is zero"""
    out = set()
    for s in range(len(b.blocks)):
        u = b.blocks[s][1]
        if u[0] == "switch" and u[1][0] in "cm":
            y = ctx.V.operand(b, u[1], s, len(b.blocks[s][0]))
            z = zero_edges(y, u, c, s)
            if z:
                out |= {(s, w) for w in b.succs(s)} - z
    return out


def slot_of(ctx, b, k):
    """the index of what is pushed into"""
    V = ctx.V
    t = b.blocks[k][1]
    l = o_local(t[2][0])
    seen = set()
    todo = [l]
    while todo:
        l = todo.pop()
        if l in seen:
            continue
        seen.add(l)
        for d in b.defs().get(l, []):
            if d[3][0] == "call":
                u = b.blocks[d[0]][1]
                if last(callee_name(u) or "") in ("index_mut", "get_mut"):
                    return V.arg(b, d[0], u, 1)
                todo += [o_local(o) for o in u[2] if o[0] in "cm"]
            elif d[3][0] == "rv":
                rv = d[3][1]
                if rv[0] in ("ref", "refm"):
                    todo.append(rv[1][0])
                todo += [o_local(o) for o in ops(rv) if o[0] in "cm"]
    return None


def unlimited(ctx, b, src, dst, stop, edges):
    """whether dst is reached from src on a path that neither takes one of the edges nor branches on a flag that only one of them can have set"""
    V = ctx.V
    ismax = lambda w: w.k == "f" and w.a[1] == "max"
    seen, todo = set(), [(src, frozenset())]
    while todo:
        k, st = todo.pop()
        if (k, st) in seen or k == stop:
            continue
        seen.add((k, st))
        if k == dst:
            return True
        env = dict(st)
        for si, a in enumerate(b.blocks[k][0]):
            if a[0] != "=" or a[1][1]:
                continue
            l, rv = a[1][0], a[2]
            env.pop(l, None)
            if rv[0] == "use" and rv[1][0] == "k" and rv[1][1].get("v") in (0, 1):
                env[l] = 1 - rv[1][1]["v"]
            elif rv[0] == "use" and rv[1][0] in "cm" and not rv[1][1][1] and rv[1][1][0] in env:
                env[l] = env[rv[1][1][0]]
            elif rv[0] == "un" and rv[1] == "Not" and rv[2][0] in "cm" and rv[2][1][0] in env:
                env[l] = 1 - env[rv[2][1][0]]
            elif rv[0] == "bin":
                z = V.rvalue(b, rv, k, si)
                if z.k == "op" and len(z.a) == 3:
                    o, x, y = z.a
                    if o == "Ge" and ismax(y) or o == "Le" and ismax(x):
                        env[l] = 0
                    elif o == "Lt" and ismax(y) or o == "Gt" and ismax(x):
                        env[l] = 1
        u, st2 = b.blocks[k][1], None
        good = set()
        if u[0] == "switch" and u[1][0] in "cm" and not u[1][1][1] and u[1][1][0] in env:
            m = dict((v, w) for v, w in u[2])
            good = {m.get(env[u[1][1][0]], u[3])}
        todo += [(y, frozenset(env.items())) for y in b.succs(k) if (k, y) not in edges and y not in good]
    return False


def clamped(ctx, b):
    """the shares the children start with are cut down to their limits"""
    V = ctx.V
    ismax = lambda w: any(z.k == "f" and z.a[1] == "max" for z in walk(w))
    ok = False
    for x, si, a in b.assigns():
        if a[1][1] in (["*"], [["*"]], [["d"]]) and a[2][0] in ("use", "bin"):
            y = V.rvalue(b, a[2], x, si)
            if y.k == "op" and y.a[0] == "min" and any(ismax(w) for w in y.a[1:]):
                ok = ok or whole_loop(ctx, b, x)
    for k, t in b.calls():
        if t[2] and not t[3][1]:
            y = V.arg(b, k, t, 0)
            for z in walk(y):
                if z.k == "coll" and any(w.k == "op" and w.a[0] == "min" and ismax(w) and any(q.k == "call" and last(q.a[0]) == "floor" for q in walk(w)) for w in walk(z.a[0])):
                    ok = True
    ctx.ob("caps:share", ok, "the share a child starts with can pass its limit", ctx.where(b, 0))




def whole_loop(ctx, b, x):
    """x is run for every child that has a limit"""
    V = ctx.V
    hs = headers(b, V, x)
    e = next_of(ctx, b, hs[0]) if hs else None
    if e is None:
        return False
    edges = set()
    for s in range(len(b.blocks)):
        u = b.blocks[s][1]
        if u[0] == "switch" and u[1][0] in "cm":
            y = V.operand(b, u[1], s, len(b.blocks[s][0]))
            m = dict((v, w) for v, w in u[2])
            if y.k == "discr" and y.a[0].k == "f" and y.a[0].a[1] == "max":
                edges.add((s, m.get(0, u[3])))
            if y.k == "op" and y.a[0] in ("Gt", "Ge", "Lt", "Le") and any(w.k == "f" and w.a[1] == "max" for w in y.a[1:]):
                edges.add((s, m.get(0, u[3])))
    return hs[0] not in avoiding(b, e[2], {x}, edges)


def caps(ctx, b):
    """no child gets more than its limit"""
    V = ctx.V
    incs = []
    clamped(ctx, b)
    for x, si, a in b.assigns():
        if a[2][0] == "bin" and a[2][1].startswith("Add") and a[2][3][0] == "k" and a[2][2][0] in "cm" and any(p[0] == "d" or p == "*" or p == ["*"] for p in a[2][2][1][1]):
            l = a[2][2][1][0]
            if any(d[3][0] == "call" and last(callee_name(b.blocks[d[0]][1]) or "") in ("index_mut", "get_mut") for d in b.defs().get(l, [])):
                incs.append(x)
    ctx.floor("increments", len(incs), 1)
    for x in incs:
        hs = headers(b, V, x)
        e = next_of(ctx, b, hs[0]) if hs else None
        if e is None:
            ctx.bad("caps:loop", "tasks are not given to the children one after the other", ctx.where(b, x))
            continue
        edges = set()
        for s in range(len(b.blocks)):
            u = b.blocks[s][1]
            if u[0] != "switch" or u[1][0] not in "cm":
                continue
            y = V.operand(b, u[1], s, len(b.blocks[s][0]))
            m = dict((v, w) for v, w in u[2])
            if y.k == "discr" and y.a[0].k == "f" and y.a[0].a[1] == "max":
                edges.add((s, m.get(0, u[3])))
            t, f = (m.get(1, u[3]) if 0 in m else u[3]), m.get(0, u[3])
            z, neg = y, False
            while z.k == "un":
                z, neg = z.a[1], not neg
            if neg:
                t, f = f, t
            if z.k == "op" and len(z.a) == 3:
                o, l, r = z.a
                ismax = lambda w: w.k == "f" and w.a[1] == "max"
                if o == "Ge" and ismax(r) or o == "Le" and ismax(l):
                    edges.add((s, f))
                if o == "Lt" and ismax(r) or o == "Gt" and ismax(l):
                    edges.add((s, t))
            if z.k == "call" and last(z.a[0]) in ("is_some_and", "is_none_or") and any(w.k == "f" and w.a[1] == "max" for w in walk(z)):
                edges.add((s, f if last(z.a[0]) == "is_some_and" else t))
        ctx.ob("caps:limit", not unlimited(ctx, b, e[2], x, hs[0], edges), "a child can get more tasks than its limit", ctx.where(b, x))


def run(ctx):
    n = 0
    for ty, F in find(ctx):
        if not any(b.path.endswith("ExecutionPlan>::execute") and (b.self_ty or "").split("<")[0] == ty for b in ctx.P.own):
            continue
        n += 1
        execute(ctx, ty, F)
        advertised(ctx, ty, F)
        specialised(ctx, ty, F)
        split(ctx, ty, F)
        rebuilt(ctx, ty, F)
    ctx.floor("unions over tasks", n, 1)
