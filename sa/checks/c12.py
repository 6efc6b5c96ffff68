"""Plan nodes across the wire, decided by composition over MIR: each message the plan codec can write is traced to
the node it was built from (the type of the downcast it sits under), put through the decoder symbolically, and the
node that comes out must be of the same type with the same stage identity, placement, weights, schema, partitioning
and children. Encoding anything else must be an error, and every encoded tag must be decoded."""
from ..core import *
from ..roundtrip import *

TECHNIQUE = "symbolic composition of encoder and decoder terms over MIR per plan node and stage state, tag-set query over derived codecs"
NOTE = "Decides every node and field of the plan codec; trusts prost, Url printing/parsing and the upstream partitioning and schema codecs."


class DecSpec(Spec):
    def builtin(self, nm, l, a, *r):
        if l == "decode" and a and a[-1].k in ("agg", "phi"):
            return a[-1]
        return super().builtin(nm, l, a, *r)


def run(ctx):
    P, V = ctx.P, ctx.V
    fam = lambda f: f.startswith("src/codec/")
    encs = [b for b in ctx.method("PhysicalExtensionCodec", "try_encode") if fam(b.file)]
    decs = [b for b in ctx.method("PhysicalExtensionCodec", "try_decode") if fam(b.file)]
    ctx.floor("plan codecs", len(encs), 1)
    nodes = set()
    for e in encs:
        d = next((x for x in decs if x.self_ty == e.self_ty), None)
        if not ctx.ob(f"pair:{e.self_ty}", d is not None, "an encoder must have a decoder", f"{e.file}:{e.line}"):
            continue
        n_p, buf_p, conv_p = (mk("p", e.path, i) for i in (2, 3, 4))
        out = {b.path: b for b in ctx.closure([e])}
        sites = []
        for b, blk, t in ctx.calls(r"prost::message::Message::encode\w*$", list(out.values())):
            y0 = ctx.arg(b, blk, 0)
            for root, ch, y in ctx.frames(b, y0, 3):
                if root is V.root(e):
                    fb, fblk = ch[-1] if ch else (b, blk)
                    gts = {x.a[1] for f in ctx.facts(fb, fblk) if f.k in ("isv", "eqv") and (f.a[1], f.a[2]) in (((1,), False), ((0,), True)) for x in walk(f.a[0]) if is_dc(x, n_p)}
                    for z in alts(y):
                        sites.append((fb, fblk, z, gts))
        # everything that is not written is refused
        marks = [blk for b, blk, z, g in sites if b is e]
        fails = []
        for dd in e.defs().get(0, []):
            if not dd[2]:
                t = V.rhs(e, dd, 0)
                if all(x.k in ("E", "err", "never") for x in alts(t)):
                    fails.append(dd[0])
        ok, path = ctx.must_pass(e, 0, set(marks) | set(fails))
        ctx.ob("encode:refuse", ok, "a node that is not written must be refused: there is a path through the encoder that returns success without writing anything", f"{e.file}:{e.line}")
        ctx.floor("plan messages written", len(sites), 6)
        for b, blk, y, gts in sites:
            where = ctx.where(b, blk)
            ds = {x for x in walk(y) if is_dc(x, n_p)}
            tys = {x.a[1] for x in ds} or gts
            if not ctx.ob("encode:source", len(tys) == 1, f"a message must describe one node type, found {sorted(tys)}", where):
                continue
            T_ = tys.pop()
            D = mk("call", next(iter(ds)).a[0] if ds else "?", T_, n_p) if not ds else next(iter(ds))
            name = T_.split("::")[-1]
            nodes.add(name)
            ad = P.adts.get(T_.split("<")[0])
            fields = [f[0] for f in ad["variants"][0]["fields"]] if ad else []
            stage = field(D, "input_stage", T_) if "input_stage" in fields else None
            for st in ("Local", "Remote") if stage else (None,):
                ch = child_of(ctx, T_, D, st, fields)
                yy = drop(y, D, {"Local": "Remote", "Remote": "Local"}.get(st)) if st else y
                S = DecSpec(P, (), {})
                x = S.spec(d.path, [mk("p", "codec", 0), yy, ch, mk("p", "ctx", 0), conv_p])
                rej = [z for z in alts(x) if z.k == "E" and z.a[0].k not in ("err",)]
                x = phi([z for z in alts(x) if z.k not in ("E", "err", "never")])
                x = norm(P, x)
                lab = f"{name}{':' + st if st else ''}"
                if not ctx.ob(f"kind:{lab}", x.k == "agg" and x.a[0] == T_, f"{name} is decoded as {show(x)[:300]}", where):
                    continue
                for f in fields:
                    judge(ctx, P, lab, T_, D, f, field(x, f), st, ch, where, fields)
    ctx.floor("node types written and read back", len(nodes), 6)
    # nodes the workers never see, and the ones they do
    ctx.floor("messages whose tags were compared", prost_tags(ctx, fam), 8)
    no_narrowing(ctx, [b for b in P.own if fam(b.file)])

    # whole plans: the same codec stack on both sides
    for nm in ("physical_plan_to_bytes_with_proto_converter", "physical_plan_from_bytes_with_proto_converter", "serialize_partitioning", "parse_protobuf_partitioning"):
        n = 0
        for b, blk, t in ctx.calls(rf"::{nm}$"):
            if not fam(b.file):
                continue
            ts = [ctx.arg(b, blk, i) for i in range(len(t[2]))]
            sub = [z for z in ts if contains(z, lambda w: w.k == "call" and w.a[0].endswith("ComposedPhysicalExtensionCodec::new")) or z.k == "p" or contains(z, lambda w: w.k == "p")]
            n += 1
            ctx.ob(f"codec:{nm}", bool(sub), "plans must be written and read with the combined codec", ctx.where(b, blk))
            # the converter handed to the callback keeps the deduplication state of the whole plan
            if V.root(b).trait and V.root(b).trait.endswith("PhysicalExtensionCodec"):
                cv = mk("p", V.root(b).path, 4 if last(V.root(b).path) == "try_encode" else 5)
                ctx.ob(f"converter:{nm}:{V.root(b).path}", cv in ts, "codecs must use the converter they were given", ctx.where(b, blk))
        ctx.floor(f"uses of {nm}", n, 1)


def is_dc(x, p):
    return x.k == "call" and last(x.a[0]) == "downcast_ref" and p in x.a


def drop(y, D, other):
    """Remove alternatives that read the stage as the other variant."""
    def rule(u):
        if u.k == "phi":
            ks = [z for z in u.a if not contains(z, lambda w: w.k == "var" and w.a[1] == other and contains(w.a[0], lambda q: q is D))]
            return phi(ks) if ks and len(ks) < len(u.a) else None
        return None
    return rewrite(y, rule)


def child_of(ctx, T_, D, st, fields):
    """What children() of the node yields, as the decoder's inputs."""
    if st == "Remote":
        return mk("arr")
    if st == "Local":
        return mk("arr", field(field(downcast(field(D, "input_stage", T_), "Local"), "0"), "plan"))
    if "children" in fields:
        return field(D, "children", T_)
    return mk("arr", field(D, "input", T_))


def norm(P, t):
    def rule(u):
        if u.k == "call":
            l = last(u.a[0])
            if l in ("from_slice", "parse") and len(u.a) == 3:
                return u.a[2]
            if l == "parse_protobuf_partitioning" and u.a[2].k == "call" and last(u.a[2].a[0]) == "serialize_partitioning":
                return u.a[2].a[2]
            if l == "output_partitioning" and len(u.a) == 3:
                return field(u.a[2], "partitioning")
        if u.k == "coll" and u.a[0].k == "at" and u.a[0].a[1] is u.a[1] and u.a[1].k == "idx" and u.a[1].a[0] is u.a[0].a[0]:
            return u.a[0].a[0]
        if u.k == "coll" and u.a[1].k == "idx":
            src = u.a[1].a[0]
            w = mk("at", src, u.a[1])
            e = u.a[0]
            if same_struct(P, e, w):
                return src
        if u.k == "tup" and u.a and all(z.k == "f" and z.a[1] == str(i) and z.a[0] is u.a[0].a[0] for i, z in enumerate(u.a)) and u.a[0].k == "f":
            return u.a[0].a[0]
        if u.k == "agg" and len(u.a) > 3:
            xs = {v.a[0] if v.k == "f" and v.a[1] == n else None for n, v in zip(u.a[2], u.a[3:])}
            ad = P.adts.get(u.a[0])
            if len(xs) == 1 and None not in xs and ad and ad["kind"] == "struct" and len(ad["variants"][0]["fields"]) == len(u.a) - 3:
                return xs.pop()
        return None
    return rewrite(t, rule)


def same_struct(P, e, w):
    return False


SKIP = {"metrics", "metric_set", "metrics_set", "worker_connections", "queues", "partition_samplers", "execution_started", "metrics_collection", "runtime_stats"}


def is_field(t, D, *path):
    """t is the projection of D written outermost last: is_field(D.a.b, D, "a", "b")."""
    for n in reversed(path):
        if t.k not in ("f", "var") or t.a[1] != n:
            return False
        t = t.a[0]
    return t is D


def judge(ctx, P, lab, T_, D, f, x, st, ch, where, fields):
    k = f"field:{lab}:{f}"
    msg = lambda: f"{f} of a decoded {lab} becomes {show(x)[:300]}"
    if f in SKIP:
        return
    if f == "input_stage":
        if not ctx.ob(k, x.k == "agg" and x.a[1] == st and field(x, "0").k == "agg", msg(), where):
            return
        got = field(x, "0")
        for n in got.a[2]:
            if n in SKIP:
                continue
            g = field(got, n)
            ok = is_field(g, D, "input_stage", st, "0", n)
            ctx.ob(f"{k}.{n}", ok, f"{n} of the stage of a decoded {lab} becomes {show(g)[:300]}", where)
        return
    if f == "properties":
        if "input_stage" in fields or "task_idx_map" in fields:
            # the node's own partitioning (or its count) is carried
            want = lambda z: is_field(z, D, "properties", "partitioning")
            ctx.ob(f"{k}.partitioning", contains(x, want), f"partitioning must be carried: {show(x)[:300]}", where)
            if "task_idx_map" in fields:
                ctx.ob(f"{k}.count", contains(x, lambda z: z.k == "call" and last(z.a[0]) == "partition_count" and want(z.a[2])), f"the number of partitions must be carried: {show(x)[:300]}", where)
            else:
                ctx.ob(f"{k}.partitioning.exact", any(z.k in ("call", "upd", "agg") and not (z.k == "call" and last(z.a[0]) == "partition_count") and any(isinstance(w, T) and want(w) for w in z.a) for z in walk(x)), f"partitioning must be used as decoded: {show(x)[:300]}", where)
                ctx.ob(f"{k}.schema", contains(x, lambda z: z.k == "call" and last(z.a[0]) == "schema" and D in z.a), f"schema must be carried: {show(x)[:300]}", where)
        else:
            ctx.ob(k, not contains(x, lambda z: z.k == "c" and z.a[0] not in (0, 1) and not isinstance(z.a[0], (bool, str))), msg(), where)
        return
    if f in ("children", "input"):
        c_ = ch if f == "children" else at(ch, c(0))
        ctx.ob(k, x is c_, msg(), where)
        return
    ctx.ob(k, is_field(x, D, f), msg(), where)
