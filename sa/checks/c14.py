"""Metrics across the wire, decided by composition over MIR: for every metric kind the engine knows (the variants of its
metric enum, and every custom metric type the encoder recognises), the encoder is evaluated symbolically for a metric of
that kind, its message is put through the decoder, and what comes out - including the effects the decoder applies to the
fresh counter, gauge, timer or timestamp it creates - must be the same kind with the same name, value, partition and
labels. The set-level functions must visit every metric once, keep every metric that was converted, and may skip only on the
two errors that mean 'this kind cannot be carried'."""
import copy
from ..core import *
from ..roundtrip import *

TECHNIQUE = "symbolic composition of encoder and decoder terms over MIR per metric kind, with effect summaries for mutable metric objects; must-pass analysis of the set conversions"
NOTE = "Decides every metric kind of the engine's enum and every custom kind the encoder recognises; the upstream counters' own add/set/value are trusted to be inverse; the metric category label (summary/dev) is not claimed."

FRESH = {  # constructor type -> {effect method: (accessor method, decoder of the argument)}
    "Count": {"add": "value"}, "Gauge": {"set": "value"}, "Time": {"add_duration": "value"}, "Timestamp": {"set": "value"},
    "PruningMetrics": {"add_pruned": "pruned", "add_matched": "matched"},
    "RatioMetrics": {"set_part": "part", "set_total": "total", "add_part": "part", "add_total": "total"},
}
PURE = {"clone", "value", "pruned", "matched", "part", "total", "new_display", "new_debug", "into", "from", "deref"}


class FxSpec(Spec):
    """Specialisation that also records what is done to freshly made objects."""

    def __init__(self, *a, ctx=None):
        super().__init__(*a)
        self.fx = {}
        self.ctx = copy.copy(ctx)
        self.ctx.V, self.ctx.gcache = self, {}

    def finished(self, nb):
        for blk, t in nb.calls():
            nm = callee_name(t)
            if nm is None or not t[2] or nm in self.P.bodies or last(nm) in PURE:
                continue
            a = self.args(nb, blk, t)
            objs = [x for x in alts(a[0]) if x.k == "call" and x.a[1] and last(x.a[0]) in ("new", "default") and type_of(x) in FRESH]
            for x in objs:
                self.fx.setdefault(x, []).append((last(nm), tuple(a[1:]), self.ctx.facts(nb, blk), any(blk in s for s in self.loops(nb).values())))


def type_of(x):
    p = x.a[0].split("::")
    return re.sub(r"<.*", "", p[-2]) if len(p) > 1 else ""


def norm(t):
    def rule(u):
        if u.k == "call" and len(u.a) > 2:
            l = last(u.a[0])
            x = u.a[2]
            if l == "new" and "tomic" in u.a[0] and x.k == "call" and last(x.a[0]) == "load":
                return x.a[2]
            if l == "deserialize" and x.k == "call" and last(x.a[0]) == "serialize":
                return x.a[2]
            if l == "from_nanos" and "Duration" in u.a[0]:
                return x
            if l == "from_timestamp_nanos" and x.k == "call" and last(x.a[0]) == "timestamp_nanos_opt":
                return x.a[2]
        if u.k == "agg" and u.a[1] in ("Owned", "Borrowed") and "Cow" in u.a[0]:
            return u.a[3]
        return None
    return rewrite(t, rule)


def run(ctx):
    P, V = ctx.P, ctx.V
    ad = P.adts.get("datafusion_physical_expr_common::metrics::value::MetricValue") or next((a for k, a in P.adts.items() if k.endswith("::MetricValue")), None)
    encs = [b for b in P.own if b.kind == "Fn" and "metrics::Metric>" in P.ty_s(b.ty(1) if b.argc else 0) and "generated::worker::Metric," in P.ty_s(b.ty(0)) and b.argc == 1]
    decs = [b for b in P.own if b.kind == "Fn" and b.argc == 1 and "Arc<" in P.ty_s(b.ty(0)) and "metrics::Metric>" in P.ty_s(b.ty(0)) and P.ty_s(b.ty(1)).endswith("generated::worker::Metric")]
    ctx.fns(encs + decs)
    ctx.floor("metric encoders", len(encs))
    ctx.floor("metric decoders", len(decs))
    if not (ad and encs and decs):
        return
    e, d = encs[0], decs[0]
    p = mk("p", e.path, 1)
    S = Spec(P, (), {})
    S.spec(e.path, [p])
    vals = [t for t in S.unknown if t.k == "call" and last(t.a[0]) == "value" and t.a[2] is p]
    if not ctx.ob("anchor:value", len(vals) == 1, "the encoder must decide by the metric's value", f"{e.file}:{e.line}"):
        return
    M = vals[0]
    dcs = [t for t in S.unknown if t.k == "call" and last(t.a[0]) in ("downcast_ref", "downcast", "is") and contains(t, lambda x: x is M)]
    ctx.floor("metric kinds", len(ad["variants"]), 16)
    ctx.floor("custom metric kinds", len(dcs), 10)
    for v in ad["variants"]:
        cases = [None] if v["name"] != "Custom" else dcs + [None]
        for dc in cases:
            A = {M: v["name"]}
            if v["name"] == "Custom":
                A.update({x: "None" for x in dcs})
                if dc is not None:
                    A[dc] = "Some"
            lab = v["name"] + (":" + dc.a[1].split("::")[-1] if dc is not None else "")
            one(ctx, P, e, d, p, M, A, v, dc, lab)
    ctx.floor("metric messages whose tags were compared", prost_tags(ctx, lambda f: f.endswith("metrics_proto.rs")), 0)
    no_narrowing(ctx, [b for b in P.own if b.file.endswith("metrics_proto.rs")])
    sets(ctx, P, V, e, True)
    sets(ctx, P, V, d, False)
    readers(ctx, P, V)


def one(ctx, P, e, d, p, M, A, v, dc, lab):
    where = f"{e.file}:{e.line} in {e.path}"
    S = FxSpec(P, (), A, ctx=ctx)
    y = S.spec(e.path, [p])
    ys = [x for x in alts(y) if x.k not in ("E", "err", "never")]
    if v["name"] == "Custom" and dc is None:
        ctx.ob("reject:unknown-custom", not ys, f"a custom metric of an unknown type must be refused, not encoded as {show(phi(ys))[:200]}", where)
        return
    if not ctx.ob(f"encode:{lab}", len(ys) == 1, f"a {lab} metric must be encoded as one message, found {show(phi(ys))[:200]}", where):
        return
    S = FxSpec(P, (), A, ctx=ctx)
    z = S.spec(d.path, [ys[0]])
    zs = [x for x in alts(z) if x.k not in ("E", "err", "never")]
    rej = [x for x in alts(z) if x.k == "E" and not contains(x, lambda w: w.k == "err")]
    if not ctx.ob(f"decode:{lab}", len(zs) == 1 and not rej, f"an encoded {lab} metric must be accepted and decoded to one metric, found {show(z)[:250]}", where):
        return
    z = zs[0]
    if not ctx.ob(f"metric:{lab}", z.k == "call" and last(z.a[0]) in ("new_with_labels", "new"), f"decoded {lab} is {show(z)[:200]}", where):
        return
    if not ctx.ob(f"labels:{lab}", len(z.a) == 5 and same_labels(z.a[4], p), f"labels of a decoded {lab} are {show(z.a[4])[:200] if len(z.a) > 4 else 'missing'}", where):
        return
    pt = z.a[3]
    ctx.ob(f"partition:{lab}", pt.k == "call" and last(pt.a[0]) == "partition" and pt.a[2] is p, f"partition of a decoded {lab} is {show(pt)[:200]}", where)
    val = z.a[2]
    if not ctx.ob(f"kind:{lab}", val.k == "agg" and val.a[1] == v["name"], f"a {lab} metric is decoded as {show(val)[:200]}", where):
        return
    for f, ty in v["fields"]:
        got = norm(field(val, f))
        ok, why = same(ctx, P, S, got, M, v["name"], f, dc)
        ctx.ob(f"field:{lab}:{f}", ok, f"{f} of a decoded {lab} becomes {show(got)[:200]} {why}", where)


def orig(t, M, var, f):
    return t.k == "f" and t.a[1] == f and t.a[0].k == "var" and t.a[0].a[1] == var and t.a[0].a[0] is M


def same_labels(t, p):
    if t.k == "call" and last(t.a[0]) == "labels" and t.a[2] is p:
        return True
    if t.k != "coll" or t.a[1].k != "idx":
        return False
    src = t.a[1].a[0]
    L = at(src, t.a[1])
    e = t.a[0]
    return (src.k == "call" and last(src.a[0]) == "labels" and src.a[2] is p and e.k == "call" and last(e.a[0]) == "new" and len(e.a) == 4
            and all(x.k == "call" and last(x.a[0]) == n and x.a[2] is L for x, n in ((e.a[2], "name"), (e.a[3], "value"))))


def same(ctx, P, S, got, M, var, f, dc):
    if orig(got, M, var, f):
        return True, ""
    if dc is not None and f == "value":
        # a custom value: same type, field by field
        ad = P.adts.get(dc.a[1].split("<")[0])
        if got.k != "agg" or got.a[0] != dc.a[1].split("<")[0] or not ad:
            return False, f"(expected a {dc.a[1]})"
        bad = []
        for n, _ in ad["variants"][0]["fields"]:
            x = strip_calls(field(got, n), {"new", "from"})
            if not (x.k == "f" and x.a[1] == n and x.a[0] is dc):
                bad.append(f"{n} = {show(x)[:120]}")
        return not bad, "; ".join(bad)
    if got.k == "call" and got.a[1] and type_of(got) in FRESH:
        tbl = FRESH[type_of(got)]
        fx = S.fx.get(got, [])
        seen = set()
        for m, args, facts, loop in fx:
            acc = tbl.get(m)
            if acc is None:
                return False, f"(unexpected {m} on it)"
            if loop or acc in seen:
                return False, f"({m} applied more than once)"
            seen.add(acc)
            v = norm(args[0]) if args else NONE
            if not (v.k == "call" and last(v.a[0]) == acc and orig(v.a[2], M, var, f)):
                return False, f"({m} receives {show(v)[:200]})"
            for g in facts:
                if not (g.k == "isv" and contains(args[0], lambda w: w in alts(unwrap(g.a[0]))) and (g.a[1], g.a[2]) in (((1,), False), ((0,), True))) and not harmless(g, args[0]):
                    return False, f"({m} applies only if {show(g)[:160]})"
        miss = {a for a in tbl.values()} - seen
        return not miss, f"(its {sorted(miss)} is never set)" if miss else ""
    return False, ""


def harmless(g, arg):
    """A condition that only distinguishes message kinds (already fixed here) or errors."""
    return g.k == "isv" and g.a[0].k in ("agg",)


# ---- sets
def sets(ctx, P, V, conv, may_skip):
    n = 0
    side = "encode" if may_skip else "decode"
    for b, blk, t in ctx.calls(lambda x: x == conv.path):
        n += 1
        w = ctx.where(b, blk)
        src = each(ctx, b, blk)
        ctx.ob(f"set:{side}:each:{V.root(b).path}", src is not None, "every metric of the set must be converted exactly once", w)
        if src is not None:
            ctx.ob(f"set:{side}:all:{V.root(b).path}", not contains(src, lambda x: x.k in ("filtered", "flat", "slice") or x.k == "call" and ADAPT.search(x.a[0])), f"all metrics of the set must be visited: {show(src)[:150]}", w)
        R = V.callv(b, blk, t)
        # what the function does with the outcome
        if t[3][0] == 0 and not t[3][1]:
            ctx.ob(f"set:{side}:kept:{V.root(b).path}", True, "the converted metric must reach the result", w)
            continue
        heads = {h for h, s in V.loops(b).items() if blk in s}
        front = set(b.returns()) | heads
        use = set()
        dst = t[3][0]
        aliases = flow_locals(b, dst)
        okb, errb = outcome(b, blk, aliases)
        for x in b.reachable():
            tt = b.blocks[x][1]
            if tt[0] == "call" and x != blk and last(callee_name(tt) or "") in ("push", "insert", "push_back", "extend"):
                if any(a[0] in "cm" and a[1][0] in aliases for a in tt[2][1:]):
                    use.add(x)
        rets = {x for x, si, st in b.assigns() if st[1][0] == 0 and any(o_local(o) in aliases for o in ops(st[2]))} | {x for x, tt in b.calls() if tt[3][0] == 0 and any(o_local(o) in aliases for o in tt[2])}
        if okb is None and errb is None:
            ctx.ob(f"set:{side}:kept:{V.root(b).path}", bool(rets or use), "the converted metric must reach the result", w)
            continue
        if okb is not None:
            ok = not escapes(b, okb, use | rets, front)
            ctx.ob(f"set:{side}:kept:{V.root(b).path}", ok, "a metric that was converted must be added to the result on every path", w)
        if errb is not None:
            # blocks where the error has been compared with one of the 'unsupported' messages
            okskip = set()
            if may_skip:
                for x in b.reachable():
                    if any(f.k == "op" and f.a[0] == "Eq" and any("SUPPORTED" in str(z.a[0]) for z in walk(f) if z.k in ("c", "k")) for f in ctx.facts(b, x)):
                        okskip.add(x)
                    tt = b.blocks[x][1]
                    if tt[0] == "switch" and x in b.reach_from(errb):
                        cnd = V.operand(b, tt[1], x, len(b.blocks[x][0]))
                        if any(f.k == "op" and f.a[0] == "Eq" and any("SUPPORTED" in str(z.a[0]) for z in walk(f) if z.k in ("c", "k")) for f in alts(cnd)):
                            # the edge on which the comparison succeeded
                            for vv, tgt in tt[2]:
                                pass
                            okskip.add(tt[3] if any(vv == 0 for vv, _ in tt[2]) else next(tg for vv, tg in tt[2] if vv == 1))
            ok = not escapes(b, errb, rets | okskip, front)
            ctx.ob(f"set:{side}:errors:{V.root(b).path}", ok, "a metric that failed to convert for another reason than being unsupported must fail the conversion", w)
    ctx.floor(f"{side} set conversions", n)


def readers(ctx, P, V):
    """Every user of the set conversions hands over the whole set."""
    n = 0
    for b, blk, t in ctx.calls(r"(df_metrics_set_to_proto|metrics_set_proto_to_df)$"):
        n += 1
    ctx.notes["set conversions used"] = n
