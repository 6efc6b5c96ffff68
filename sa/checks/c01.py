"""Exchange arithmetic. For every node that reads another stage, the request it makes to the connection pool (range of partitions,
task, partition, expected head) and the partition counts it and its producer advertise are reduced to polynomials over symbolic
naturals, per case (task before/after the remainder, real/padding partition, ...), and compared with the definition: partition p of
consumer task t reads t*P+p of every producer task and the producer has P*T partitions; a coalescing exchange reads partition
p mod P of the producer task at offset p div P of its contiguous group. The same is done along the way of a partition: pool slot,
demultiplexer channel, worker-side execution and tag, and the virtual partitions of a broadcast."""
from ..core import *
from ..arith import Arith, ArithSpec, N, sym, Poly
from ..spec import Spec

TECHNIQUE = "symbolic normal forms (polynomials over naturals) of index expressions from compiler MIR, by conditional constant propagation per case; def-use provenance of iteration"
NOTE = "Holds for all task counts, partition counts and indexes, over mathematical integers (no overflow of usize). Partitioning::partition_count, RepartitionExec and select_all are taken from DataFusion/futures."

POOL = "WorkerConnectionPool::execute"
WRAPS = re.compile(r"(RecordBatchStreamAdapter|select_all|::new$|::boxed$|::pin$|::into$|::from$)")
KEEP = re.compile(r"(RecordBatchStreamAdapter|select_all|::new$|::boxed$|::pin$|::into$|::from$|inspect|map_err|::into_iter$|::iter$|::fuse$)")


def named(y, *names):
    return y.k == "call" and last(y.a[0]) in names


def cases():
    """n producer tasks over T consumer tasks, seen from task t, partition p of the consumer: q, r of the division."""
    t, u, v, r, w, i, j, k, P1 = sym("t", "u", "v", "r", "w", "i", "j", "k", "P")
    P = N(1) + i + w                                    # i < P
    one = N(1)
    out = []
    # task before the remainder: gets q+1 producers
    rA = t + one + u
    out.append(("task with an extra producer", dict(t=t, T=rA + one + v, r=rA, q=j + k, P=P, i=i, j=j, C=j + k + one, hit=True)))
    # no remainder
    out.append(("producers divide evenly", dict(t=t, T=t + one + v, r=N(0), q=j + one + k, P=P, i=i, j=j, C=j + one + k, hit=True)))
    # task after the remainder
    rB = one + r
    tB = rB + u
    out.append(("task without an extra producer", dict(t=tB, T=tB + one + v, r=rB, q=j + one + k, P=P, i=i, j=j, C=j + one + k + one, hit=True)))
    out.append(("padding partition", dict(t=tB, T=tB + one + v, r=rB, q=k, P=P, i=i, j=k, C=k + one, hit=False)))
    return out


class Exchange(ArithSpec):
    """The consuming node, its input stage being a remote stage."""

    def __init__(self, P, env, opaque):
        self.env = env
        super().__init__(P, self.atom, opaque)

    def variant(self, x):
        if x.k == "f" and x.a[1] == "input_stage":
            return "Remote"
        return super().variant(x)

    def atom(self, t):
        e = self.env
        if t.k == "f" and t.a[1] in ("task_index", "task_count") and all(named(x, "from_ctx") for x in alts(t.a[0])):
            return e["t"] if t.a[1] == "task_index" else e["T"]
        if t.k == "p" and t.a[1] == 2 and "part" in e:
            return e["part"]
        if named(t, "partition_count") and is_own(t.a[2]):
            return e["out"]
        if (t.k == "len" or named(t, "len")) and contains(t, lambda x: x.k == "f" and x.a[1] == "workers"):
            return e["n"]
        if named(t, "task_count"):
            return e["n"]
        return None

    def discr1(self, y, base):
        if base.endswith("option::Option") and y.k == "op" and y.a[0] in ("Div", "Rem"):
            d = self.ar.poly(y.a[2])
            if d is not None and d.pos():
                return {1}
        if base.endswith("option::Option") and y.k == "sum":
            d = self.ar.poly(y)
            if d is not None:
                return {1} if d.nonneg() else ({0} if (-d).pos() else None)
        return super().discr1(y, base)


def is_own(y):
    """the node's own partitioning: some accessor chain over self.properties"""
    return all(contains(z, lambda x: x.k == "f" and x.a[1] in ("properties", "cache") and x.a[0].k == "p" and x.a[0].a[1] == 1) or
               named(z, "output_partitioning", "properties") for z in alts(y))


def through(y, ok):
    """Strip wrappers that hand every item on."""
    while y.k == "call" and KEEP.search(y.a[0]) and len(y.a) > 2:
        xs = [x for x in y.a[2:] if contains(x, ok)]
        if len(xs) != 1:
            return y
        y = xs[0]
    return y


def run(ctx):
    P, V = ctx.P, ctx.V
    pools = [b for b in P.own if b.path.endswith(POOL)]
    ctx.floor("connection pools", len(pools))
    heads = ctx.method("NetworkBoundary", "producer_head")
    ctx.floor("kinds of exchange", len(heads), 3)
    opaque = tuple(b.path for b in pools + heads) + tuple(b.path for b in P.own if last(b.path) in ("from_ctx", "clone_inner"))
    ispool = lambda x: x.k == "call" and x.a[0].endswith(POOL)
    for h in heads:
        kind = last(h.self_ty.split("<")[0]) if h.self_ty else h.path
        kind = re.search(r"(\w+Exec)", h.path).group(1)
        ex = [b for b in ctx.method("ExecutionPlan", "execute") if b.path.startswith(f"<{h.path[1:].split(' as ')[0]} as")]
        ctx.ob(f"{kind}:executes", len(ex) == 1, f"{kind} must have one execution", ctx.where(h))
        if len(ex) != 1:
            continue
        e = ex[0]
        t, T1, P0, w = sym("t", "v", "p", "w")
        Pn, T = P0 + N(1) + w, t + N(1) + T1
        n = sym("n")
        # ---- the head the producer must have
        S = Exchange(P, dict(t=t, T=T, out=Pn, n=n), tuple(b.path for b in pools))
        S.env["cons"] = T
        me = mk("p", e.path, 1)
        cons = mk("p", h.path, 2)
        base = S.ar.atom
        S.ar.atom = lambda x: T if x is cons or x == cons else base(x)
        hr = S.spec(h.path, [mk("p", h.path, 1), cons])
        shapes = set()
        for y in alts(hr):
            if y.k in ("E", "never"):
                continue
            if y.k != "agg":
                ctx.bad(f"{kind}:head", f"cannot tell the head of the producer: {show(y)[:200]}", ctx.where(h))
                continue
            shapes.add(y.a[1])
            if y.a[1] == "BroadcastExec":
                p = S.ar.poly(field(y, "output_partitions"))
                ctx.ob(f"{kind}:head:scaled", p == Pn * T, f"the producer must be scaled to {Pn * T} partitions (P = {Pn}, T = {T}), not {p}: {show(y)[:200]}", ctx.where(h))
            elif y.a[1] == "RepartitionExec":
                for z in alts(field(y, "partitioning")):
                    for z in alts(z.a[3] if z.k == "agg" and z.a[1] == "Decoded" else z):
                        if z.k in ("E", "never"):
                            continue
                        got = scaled(S, z, Pn, T)
                        ctx.ob(f"{kind}:head:scaled:{z.a[1] if z.k == 'agg' else '?'}", got, f"the producer must be repartitioned in the consumer's own way, with P*T partitions: {show(z)[:250]}", ctx.where(h))
        # ---- what is requested
        if shapes & {"BroadcastExec", "RepartitionExec"}:
            ctx.ob(f"{kind}:head:one", len(shapes) == 1, f"one kind of head: {shapes}", ctx.where(h))
            S = Exchange(P, dict(t=t, T=T, out=Pn, n=n, part=P0), opaque)
            r = S.spec(e.path, [mk("p", e.path, k) for k in (1, 2, 3)])
            oks = [y for y in alts(r) if y.k not in ("E", "never")]
            ctx.ob(f"{kind}:result", bool(oks), f"no successful result: {show(r)[:200]}", ctx.where(e))
            for y in oks:
                z = through(y, ispool)
                ok = z.k == "coll" and ispool(z.a[0]) and whole(S, z.a[1], n)
                ctx.ob(f"{kind}:all-producers", ok, f"every producer task must be read exactly once, and all that is read returned: {show(y)[:400]}", ctx.where(e))
                if ok:
                    request(ctx, S, kind, z.a[0], e, t * Pn, t * Pn + Pn, None, t * Pn + P0, z.a[1])
        elif shapes == {"None"}:
            for label, d in cases():
                S = Exchange(P, dict(t=d["t"], T=d["T"], out=d["P"] * d["C"], n=d["q"] * d["T"] + d["r"], part=d["j"] * d["P"] + d["i"]), opaque)
                r = S.spec(e.path, [mk("p", e.path, k) for k in (1, 2, 3)])
                oks = [y for y in alts(r) if y.k not in ("E", "never")]
                bad = [y for y in alts(r) if y.k == "E" and not contains(y, lambda x: ispool(x) or named(x, "producer_head"))]
                ctx.ob(f"{kind}:{label}:served", bool(oks) and not bad, f"a valid partition must be served: {[show(y)[:160] for y in (bad or alts(r))][:3]}", ctx.where(e))
                start = d["t"] * d["q"] + (d["t"] if label.startswith("task with an") else d["r"])
                for y in oks:
                    z = through(y, ispool)
                    if not d["hit"]:
                        ctx.ob(f"{kind}:{label}", not contains(y, ispool) and contains(y, lambda x: x.k == "call" and "EmptyRecordBatchStream" in x.a[0]), f"a padding partition must be empty: {show(y)[:250]}", ctx.where(e))
                        continue
                    ctx.ob(f"{kind}:{label}", ispool(z), f"the partition must be read from one producer: {show(y)[:300]}", ctx.where(e))
                    if ispool(z):
                        request(ctx, S, f"{kind}:{label}", z, e, N(0), d["P"], start + d["j"], d["i"], None)
        # ---- partition counts the exchange advertises
        advertised(ctx, kind, h, shapes)
    producer(ctx)
    path_of_partition(ctx)
    broadcast(ctx)


def whole(S, it, n):
    """idx(range(0, n)) or idx(workers): every producer task once."""
    if it.k != "idx":
        return False
    s = it.a[0]
    if s.k == "range":
        lo, hi = S.ar.poly(s.a[0]), S.ar.poly(s.a[1])
        return lo == N(0) and hi == n
    return s.k == "f" and s.a[1] == "workers"


def request(ctx, S, key, call, e, lo, hi, task, part, it):
    a = call.a[2:]
    w = ctx.where(e)
    rg = [y for y in alts(a[2])]
    ok = len(rg) == 1 and rg[0].k == "range" and S.ar.poly(rg[0].a[0]) == lo and S.ar.poly(rg[0].a[1]) == hi
    ctx.ob(f"{key}:range", ok, f"the partitions of this consumer are [{lo}, {hi}), requested {show(a[2])[:200]}", w)
    if it is not None:
        ctx.ob(f"{key}:task", a[3] == it, f"each request must go to its own producer task: {show(a[3])[:200]}", w)
    else:
        p = S.ar.poly(a[3])
        ctx.ob(f"{key}:task", p == task, f"the producer task must be {task}, is {p}: {show(a[3])[:300]}", w)
    p = S.ar.poly(a[4])
    ctx.ob(f"{key}:partition", p == part, f"the partition read must be {part}, is {p}: {show(a[4])[:300]}", w)
    ctx.ob(f"{key}:head", named(a[5], "producer_head") and a[5].a[2].k == "p" and S.ar.poly(a[5].a[3]) == S.env["T"], f"the producer must be asked for the head scaled to all consumer tasks: {show(a[5])[:200]}", w)
    st = [y for y in alts(a[1])]
    ctx.ob(f"{key}:stage", all(contains(y, lambda x: x.k == "f" and x.a[1] == "input_stage") for y in st), f"the requests must refer to the input stage: {show(a[1])[:200]}", w)


def scaled(S, z, Pn, T):
    """Same partitioning with its count (Pn) scaled by T."""
    if z.k != "agg":
        return False
    vals = list(z.a[3:])
    counts = 0
    for v in vals:
        src = alts(v)
        p = S.ar.poly(v)
        if p is None:
            # the count of the consumer's own partitioning: the last field of the variant
            p = scaled_count(S, v, T)
            if p:
                counts += 1
                continue
            if not all(contains(x, lambda q: q.k == "f" and q.a[1] == "partitioning") for x in src):
                return False
        else:
            if p != Pn * T:
                return False
            counts += 1
    return counts == 1


def scaled_count(S, v, T):
    """field of the consumer's partitioning, times T"""
    own = [x for y in alts(v) for x in walk_terms(y) if x.k == "f" and contains(x.a[0], lambda q: q.k == "f" and q.a[1] == "partitioning") and counts_partitions(x)]
    if not own:
        return False
    m = sym("m")
    base = S.ar.atom
    S.ar.atom = lambda x: m if x in own else base(x)
    try:
        return S.ar.poly(v) == m * T
    finally:
        S.ar.atom = base


def counts_partitions(x):
    """the field of a Partitioning that holds the number of partitions"""
    v = x.a[0].a[1] if x.a[0].k == "var" else None
    return x.a[1] == ("1" if v == "Hash" else "0")


def walk_terms(t):
    return list(walk(t))


def advertised(ctx, kind, h, shapes):
    """Constructors and rebuilders of the exchange keep or set its partition count."""
    P = ctx.P
    ty = h.path[1:].split(" as ")[0]
    for b in ctx.method("NetworkBoundary", "with_input_stage"):
        if not b.path.startswith(f"<{ty} as"):
            continue
        t, v = sym("t", "v")
        out, n = sym("out", "n")
        S = Exchange(P, dict(t=N(0), T=N(1), out=out, n=n), ())
        r = S.spec(b.path, [mk("p", b.path, 1), mk("p", b.path, 2)])
        for y in alts(r):
            if y.k in ("E", "never"):
                continue
            ps = props_of(S, y, P)
            if "None" in shapes:
                same_count(ctx, kind, b, y)
                continue
            ctx.ob(f"{kind}:with_input_stage", ps, f"giving the exchange its stage must not change its partitions: {show(y)[:300]}", ctx.where(b))
    if "None" in shapes:
        # coalescing: P partitions of each producer times the largest group
        n_, u = sym("q", "u")
        for b in P.own:
            if not (b.path.startswith(ty + "::") and b.kind != "Closure" and b.argc >= 3 and "NetworkCoalesceExec" in P.ty_s(b.ty(0))):
                continue
            for label, q, r, T, C in [("even", sym("q") + N(1), N(0), N(1) + sym("u"), sym("q") + N(1)), ("uneven", sym("q"), sym("u") + N(1), sym("u") + N(2) + sym("v"), sym("q") + N(1))]:
                own = sym("m")
                S = Exchange(P, dict(t=N(0), T=T, out=own, n=q * T + r), ())
                base = S.atom

                def atom(x, b=b, base=base, T=T, own=own, q=q, r=r):
                    if x.k == "p" and x.a[0] == b.path and P.ty_s(b.ty(x.a[1])) == "usize":
                        # the last count is the number of consumer tasks
                        us = [i for i in range(1, b.argc + 1) if P.ty_s(b.ty(i)) == "usize"]
                        return T if x.a[1] == us[-1] else q * T + r
                    if named(x, "partition_count"):
                        return own
                    if x.k == "f" and counts_partitions(x) and contains(x.a[0], lambda z: z.k == "f" and z.a[1] == "partitioning" or named(z, "output_partitioning")):
                        return own
                    if x.k == "f" and x.a[1] == "tasks":
                        return q * T + r
                    return base(x)
                S.ar.atom = atom
                res = S.spec(b.path, [mk("p", b.path, i) for i in range(1, b.argc + 1)])
                for y in alts(res):
                    if y.k != "agg":
                        continue
                    pr = field(y, "properties")
                    for x in walk(pr):
                        if x.k == "agg" and x.a[0].endswith("Partitioning"):
                            for f in x.a[3:]:
                                p = S.ar.poly(f)
                                if p is None:
                                    continue
                                ctx.ob(f"{kind}:{last(b.path)}:{label}:{x.a[1]}", p == own * C, f"a coalescing exchange has P partitions for each producer of its largest group ({own * C}), not {p}: {show(f)[:200]}", ctx.where(b))


def same_count(ctx, kind, b, y):
    """A stage with as many tasks as the planned one leaves the partitions alone.

    The count the node was built with is P times its largest group, which need not
    be a multiple of the producers: for every such count the new one is the same."""
    if y.k not in ("upd", "agg"):
        return
    node = field(y, "properties")
    counts = {f for x in walk(node) if x.k == "agg" and x.a[0].endswith("Partitioning") for f in x.a[3:] if counted(f)}
    wrong, unknown, seen = None, 0, 0
    for per in range(1, 4):
        for k in range(1, 6):
            for c in range(1, 5):
                p = per * -(-k // c)

                def atom(x, p=p, k=k):
                    if x.k == "f" and counts_partitions(x) and contains(x.a[0], lambda q: q.k == "f" and q.a[1] == "partitioning"):
                        return N(p)
                    if named(x, "partition_count"):
                        return N(p)
                    if x.k == "f" and x.a[1] == "tasks" or named(x, "task_count"):
                        return N(k)
                    if (x.k == "len" or named(x, "len")) and contains(x, lambda q: q.k == "f" and q.a[1] == "workers"):
                        return N(k)
                    return None
                ar = Arith(atom)
                for f in counts:
                    for z in alts(f):
                        g = ar.poly(z)
                        seen += 1
                        if g is None:
                            unknown += 1
                        elif g != N(p) and wrong is None:
                            wrong = (per, k, c, p, g, z)
    if wrong:
        per, k, c, p, g, z = wrong
        ctx.bad(f"{kind}:with_input_stage:count", f"with {k} producers of {per} partition(s) and {c} consumer(s) the exchange has {p} partitions, but {g} once it is given its stage of {k} tasks: {show(z)[:200]}", ctx.where(b))
    else:
        ctx.ob(f"{kind}:with_input_stage:count", unknown == 0, f"the partitions of the exchange given its stage cannot be followed in {unknown} of {seen} case(s)", ctx.where(b))


def counted(f):
    return contains(f, lambda x: x.k == "op" or x.k == "sum" or x.k == "f" and counts_partitions(x) or named(x, "partition_count"))


def props_of(S, y, P):
    """does the rebuilt exchange keep its properties?"""
    if y.k == "agg":
        pr = field(y, "properties")
        return all(x.k == "f" and x.a[1] == "properties" and x.a[0].k == "p" for x in alts(pr))
    if y.k == "upd":
        return not contains(y, lambda x: x.k == "upd" and "properties" in str(x.a[2:]))
    return y.k in ("p", "call", "f")


def producer(ctx):
    """The head is put on top of the stage's plan with the requested partitions."""
    P = ctx.P
    ins = [b for b in P.own if b.path.endswith("ProducerHead::insert")]
    if not ins:
        ins = [b for b in P.own if b.kind != "Closure" and b.argc == 2 and "ProducerHead" in P.ty_s(b.ty(1)) and "dyn" in P.ty_s(b.ty(0)) and "ExecutionPlan" in P.ty_s(b.ty(0))]
    ctx.floor("places that put a head on a stage", len(ins))
    for b in ins:
        for v in ("None", "BroadcastExec", "RepartitionExec"):
            m, k1 = sym("m", "k")
            P_ = m + N(1)

            class H(ArithSpec):
                def variant(self, x, v=v):
                    return v if x.k == "p" and x.a[1] == 1 else super().variant(x)

            def atom(x, b=b):
                if x.k == "f" and x.a[1] == "output_partitions":
                    return P_ * k1
                if named(x, "partition_count"):
                    return P_
                return None
            S = H(P, atom, tuple(x.path for x in P.own if x.path.endswith(("BroadcastExec::new", "try_decoded"))))
            r = S.spec(b.path, [mk("p", b.path, 1), mk("p", b.path, 2)])
            oks = [y for y in alts(r) if y.k not in ("E", "never")]
            ctx.ob(f"insert:{v}:result", bool(oks), f"no result: {show(r)[:200]}", ctx.where(b))
            for y in oks:
                if v == "None":
                    ok = not contains(y, lambda x: x.k == "call" and ("BroadcastExec::new" in x.a[0] or "RepartitionExec" in x.a[0] and last(x.a[0]) == "try_new"))
                elif v == "BroadcastExec":
                    ok = y.k == "call" and "BroadcastExec" in y.a[0] and S.ar.poly(y.a[3]) == k1
                else:
                    ok = y.k == "call" and "RepartitionExec" in y.a[0] and contains(y.a[3], lambda x: x.k == "f" and x.a[1] == "partitioning" and x.a[0].k in ("p", "var"))
                ctx.ob(f"insert:{v}", ok, f"the head of the stage must have the requested partitions: {show(y)[:300]}", ctx.where(b))
                if ok and y.k == "call":
                    # never on top of another head of the same purpose: the input is the plan or the input of its old head
                    ok = all(x.k == "p" or named(x, "input") or x.k == "f" and x.a[1] == "input" for x in alts(y.a[2]))
                    ctx.ob(f"insert:{v}:input", ok, f"the head goes on the plan itself: {show(y.a[2])[:200]}", ctx.where(b))


ORDER = re.compile(r"Iterator::(rev|skip|step_by|chain|cycle|filter|filter_map|skip_while|take_while)$|slice.*::(sort\w*|reverse|swap|rotate\w*)$|Vec<T, ?A>::(swap_remove|insert|remove|reverse)$|\[T\]::(sort\w*|reverse|swap|rotate\w*)$")
LOOK = ("get", "get_mut", "index", "index_mut", "nth", "get_unchecked")


def lookups(ctx, root, over):
    """Positions at which lists that have one entry per element of the range `over` are read: (body, blk, index term)."""
    for q in ctx.tree(root):
        for blk, t in q.calls():
            if last(callee_name(t) or "") in LOOK and len(t[2]) == 2:
                coll = ctx.V.arg(q, blk, t, 0)
                if any(y.k == "coll" and y.a[1].k == "idx" and over(y.a[1].a[0]) for y in alts(coll)):
                    yield q, blk, ctx.V.arg(q, blk, t, 1)


def reordered(ctx, root, over):
    for q in ctx.tree(root):
        for blk, t in q.calls():
            n = callee_name(t) or ""
            if ORDER.search(n) and t[2]:
                y = ctx.V.arg(q, blk, t, 0)
                if over(y) or any(x.k == "coll" and contains(x.a[1], over) for x in alts(y)):
                    return f"{last(n)} in {q.path}"
    return None


def worker_exec(ctx):
    P, V = ctx.P, ctx.V
    s, i, w, x = sym("s", "i", "w", "x")
    one = N(1)

    def bound(which):
        return lambda y: y.k == "f" and y.a[1] == f"target_partition_{which}"

    def request_range(y):
        return y.k == "range" and bound("start")(y.a[0]) and bound("end")(y.a[1])

    # ---- the worker executes exactly the partitions of the request, in order
    n = 0
    for b in P.own:
        if not (b.coroutine and b.path.endswith("Worker::execute_task::{closure#0}")):
            continue
        n += 1
        for label, start, end, count, served in (
                ("partition of the plan", s, s + i + one + w, s + i + one + w, True),
                ("partition the plan does not have", x + w, x + w + i + one, x, False)):
            def atom(t):
                if bound("start")(t):
                    return start
                if bound("end")(t):
                    return last_[0]
                if t.k == "idx":
                    return i
                if counts_up(t, bound("start")) or t.k == "ctr" and any(bound("start")(z) for z in walk(t.a[0])):
                    return start + i
                if named(t, "partition_count"):
                    return count
                return None
            isx = lambda t: t.k == "call" and t.a[0].endswith("ExecutionPlan::execute")
            for last_ in ([end], [sym("e")]):       # a counting loop never ends while the counter is known to be below the end
                S = ArithSpec(P, atom, tuple(q.path for q in P.own if last(q.path) in ("plan", "read")))
                r = S.spec(b.path, [mk("p", b.path, 1)])
                if any(y.k not in ("E", "never") and contains(y, isx) for y in alts(r)) or not served and any(y.k not in ("E", "never") for y in alts(r)):
                    break
            oks = [y for y in alts(r) if y.k not in ("E", "never")]
            got = [y for y in oks if contains(y, isx)]
            if not served:
                ctx.ob(f"worker:{label}", not got and any(y.k == "E" for y in alts(r)), f"a partition the plan does not have must be an error: {[show(y)[:200] for y in got][:2]}", ctx.where(b))
                continue
            own_err = [y for y in alts(r) if y.k == "E" and not contains(y, lambda t: t.k == "err")]
            ctx.ob(f"worker:{label}", bool(got) and not own_err, f"a partition of the plan must be executed: {[show(y)[:200] for y in own_err or alts(r)][:2]}", ctx.where(b))
            for y in got:
                cs = [z for z in walk(y) if z.k == "coll" and contains(z.a[0], isx)]
                ok = bool(cs) and request_range(cs[0].a[1].a[0] if cs[0].a[1].k == "idx" else cs[0].a[1])
                ok = ok or any(isx(z) and any(counts_up(v, bound("start")) for v in walk(z.a[3])) for z in walk(y)) and counted_to(ctx, b, bound("start"), bound("end"))
                ctx.ob("worker:all-partitions", ok, f"one stream for each partition of the requested range, in order: {show(y)[:300]}", ctx.where(b))
                for z in walk(y):
                    if isx(z):
                        p = S.ar.poly(z.a[3])
                        ctx.ob("worker:partition", p == start + i, f"the k-th stream must be partition start+k, not {p}: {show(z.a[3])[:200]}", ctx.where(b))
                        ctx.ob("worker:plan", named(z.a[2], "plan") and contains(z.a[2], lambda q: q.k == "f" and q.a[1] == "producer_head"), f"what is executed is the task's plan under the requested head: {show(z.a[2])[:200]}", ctx.where(b))
    ctx.floor("worker executions", n)



def path_of_partition(ctx):
    P, V = ctx.P, ctx.V
    s, i, w, x = sym("s", "i", "w", "x")
    one = N(1)

    def bound(which):
        return lambda y: y.k == "f" and y.a[1] == f"target_partition_{which}"

    def request_range(y):
        return y.k == "range" and bound("start")(y.a[0]) and bound("end")(y.a[1])

    worker_exec(ctx)

    # ---- the worker tags what it sends with the partition it came from
    n = 0
    for b in P.own:
        for blk, si, a in b.assigns():
            rv = a[2]
            if not (rv[0] == "agg" and rv[1][0] == "adt" and "FlightAppMetadata" in str(rv[1])):
                continue
            for y in tags(ctx, b):
                n += 1
                S = ArithSpec(P, lambda t: s if bound("start")(t) else i if t.k == "idx" and request_range(t.a[0]) else None)
                p = S.ar.poly(field(y, "partition"))
                ctx.ob("tag", p == s + i, f"the k-th stream of a request must be tagged with partition start+k, not {p}: {show(field(y, 'partition'))[:200]}", ctx.where(b, blk))
    ctx.floor("tags of messages", n)
    for b in P.own:
        if b.coroutine and b.path.endswith("WorkerService>::execute_task::{closure#0}"):
            bad = reordered(ctx, b, lambda y: contains(y, lambda z: request_range(z) or named(z, "execute_task")))
            ctx.ob("tag:order", bad is None, f"the streams of a request must keep the order of its partitions: {bad}", ctx.where(b))

    # ---- the client hands a tagged message to the receiver of its partition
    for b in P.own:
        if not (b.coroutine and b.path.endswith("WorkerChannel>::execute_task::{closure#0}") and "grpc" in b.path):
            continue
        for q, blk, y in lookups(ctx, b, request_range):
            S = ArithSpec(P, lambda t: s if bound("start")(t) else s + i if t.k == "f" and t.a[1] == "partition" else None)
            p = S.ar.poly(y)
            ctx.ob("demultiplex", p == i, f"a message of partition start+k belongs to receiver k, not {p}: {show(y)[:200]}", ctx.where(q, blk))
        rs = [y for y in alts(V.ret(b.path)) if y.k != "E"]
        for y in rs:
            ok = y.k == "coll" and y.a[1].k == "idx" and (request_range(y.a[1].a[0]) or any(z.k == "coll" and z.a[1].k == "idx" and request_range(z.a[1].a[0]) for z in alts(y.a[1].a[0])))
            ctx.ob("demultiplex:order", ok, f"one stream for each requested partition, in order: {show(y)[:300]}", ctx.where(b))
        bad = reordered(ctx, b, request_range)
        ctx.ob("demultiplex:reordered", bad is None, f"the receivers must keep the order of the partitions: {bad}", ctx.where(b))

    # ---- the pool serves each partition from its own slot
    for b in P.own:
        if not b.path.endswith(POOL):
            continue
        rng = lambda y: y.k == "p" and y.a[0] == b.path and "Range<usize>" in P.ty_s(b.ty(y.a[1])) or y.k == "range" and all(f.k == "f" and f.a[0].k == "p" and f.a[0].a[0] == b.path for f in y.a[:2])
        us = [k for k in range(1, b.argc + 1) if P.ty_s(b.ty(k)) == "usize"]
        n = 0
        for q, blk, y in lookups(ctx, b, rng):
            n += 1
            S = ArithSpec(P, lambda t: s if t.k == "f" and t.a[1] == "start" else i if t.k == "idx" else s + i if t.k == "p" and t.a[0] == b.path and t.a[1] == us[-1] else None)
            p = S.ar.poly(y)
            ctx.ob("slot", p == i, f"partition start+k is in slot k, not {p}: {show(y)[:200]}", ctx.where(q, blk))
        bad = reordered(ctx, b, lambda y: rng(y) or named(y, "execute_task"))
        ctx.ob("slot:order", bad is None, f"streams must be put in the slots in the order of their partitions: {bad}", ctx.where(b))
        for q in ctx.tree(b):
            for blk, si, a in q.assigns():
                rv = a[2]
                if rv[0] == "agg" and rv[1][0] == "adt" and "ExecuteTaskRequest" in str(rv[1]):
                    for y in tags(ctx, q, "ExecuteTaskRequest"):
                        for which in ("start", "end"):
                            z = field(y, f"target_partition_{which}")
                            ok = all(v.k == "f" and v.a[1] == which and rng(v.a[0]) for v in alts(z))
                            ctx.ob(f"slot:request:{which}", ok, f"the connection must be asked for the range of the consumer: {show(z)[:200]}", ctx.where(q, blk))


def counts_up(t, start):
    """a counter of a while loop that begins at `start` and grows by one"""
    xs = alts(t) if t.k == "phi" else []
    return len(xs) == 2 and any(start(x) for x in xs) and any(x.k == "ctr" and any(start(f) for f in walk(x.a[0])) and contains(x.a[0], lambda z: z is c(1)) or x.k == "ctr" and x.a[0].k == "sum" and any(start(f) for f in walk(x.a[0])) for x in xs)


def counted_to(ctx, b, start, end):
    """some loop goes on exactly while the counter is below `end`"""
    for q in ctx.tree(b):
        for h, body in ctx.V.loops(q).items():
            for x in body:
                t = q.blocks[x][1]
                if t[0] == "switch" and any(s not in body for s in q.succs(x)):
                    for z in alts(ctx.V.operand(q, t[1], x, len(q.blocks[x][0]))):
                        if z.k == "op" and z.a[0] in ("Lt", "Ne", "Ge", "Eq") and end(z.a[2]) and (start(z.a[1]) or counts_up(z.a[1], start) or z.a[1].k == "ctr"):
                            return True
    return False


def tags(ctx, b, name="FlightAppMetadata"):
    """The values of a struct built in this body."""
    out = []
    for blk, si, a in b.assigns():
        rv = a[2]
        if rv[0] == "agg" and rv[1][0] == "adt" and name in str(rv[1]):
            out.append(ctx.V.rvalue(b, rv, blk, si))
    return out


def broadcast(ctx):
    """Partition c*M + r of a broadcast is real partition r, executed once, handed to one of N consumers."""
    P, V = ctx.P, ctx.V
    i, k, w = sym("i", "k", "w")
    M = i + N(1) + w
    for b in ctx.method("ExecutionPlan", "execute"):
        if not re.match(r"<crate::\w+::broadcast::BroadcastExec as", b.path):
            continue
        me = [y for y in (1, 2, 3)]
        atom = lambda t: M if named(t, "partition_count") or (t.k == "len" and contains(t, lambda z: z.k == "f" and z.a[1] == "queues")) else k * M + i if t.k == "p" and t.a[0] == b.path and t.a[1] == 2 else None
        S = ArithSpec(P, atom)
        n = 0
        for q in ctx.tree(b):
            for blk, t in q.calls():
                nm = callee_name(t) or ""
                y = None
                if nm.endswith("ExecutionPlan::execute") and len(t[2]) == 3:
                    y = V.arg(q, blk, t, 1)
                elif last(nm) in LOOK and len(t[2]) == 2 and contains(V.arg(q, blk, t, 0), lambda z: z.k == "f" and z.a[1] == "queues"):
                    y = V.arg(q, blk, t, 1)
                if y is not None:
                    n += 1
                    p = S.ar.poly(y)
                    ctx.ob(f"broadcast:{last(nm)}", p == i, f"partition c*M+r of a broadcast over M partitions is its input partition r, not {p}: {show(y)[:200]}", ctx.where(q, blk))
        ctx.floor("uses of a broadcast's real partition", n, 1)
    for b in P.own:
        if not re.match(r"crate::\w+::broadcast::BroadcastExec::", b.path) or "BroadcastExec" not in P.ty_s(b.ty(0)) or b.kind == "Closure":
            continue
        m, c_ = sym("m", "c")
        us = [j for j in range(1, b.argc + 1) if P.ty_s(b.ty(j)) == "usize"]
        S = ArithSpec(P, lambda t: m if named(t, "partition_count") else c_ if t.k == "p" and us and t.a[1] == us[0] else None)
        for y in alts(S.spec(b.path, [mk("p", b.path, j) for j in range(1, b.argc + 1)])):
            if y.k != "agg" or not y.a[0].endswith("BroadcastExec"):
                continue
            for z in walk(field(y, "properties")):
                if z.k == "agg" and z.a[0].endswith("Partitioning"):
                    for f in z.a[3:]:
                        p = S.ar.poly(f)
                        ctx.ob("broadcast:advertised", p == m * c_, f"a broadcast advertises its input's partitions once per consumer task, not {p}: {show(f)[:200]}", ctx.where(b))
            qs = [z for z in walk(field(y, "queues")) if z.k == "idx"]
            ok = any(z.a[0].k == "range" and S.ar.poly(z.a[0].a[0]) == N(0) and S.ar.poly(z.a[0].a[1]) == m for z in qs)
            ctx.ob("broadcast:queues", ok, f"one queue for each input partition: {show(field(y, 'queues'))[:200]}", ctx.where(b))
            ctx.ob("broadcast:consumers", all(S.ar.poly(v) == c_ for v in alts(field(y, "consumer_task_count"))), f"as many consumers of each queue as consumer tasks: {show(field(y, 'consumer_task_count'))[:200]}", ctx.where(b))
