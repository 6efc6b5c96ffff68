"""Round trips of the worker protocol, decided by composition: for every encoder E: domain -> message and
decoder D: message -> domain (paired by their signatures in the compiled program), D(E(x)) is evaluated over
the MIR for every variant of x and must normalise to x, field by field. Messages built in place are composed
with their decoder in the same way. Nested pairs are replaced by the identity they are separately shown to be.
In addition every tag a message encodes must be decoded, and no numeric conversion may narrow a value."""
from ..core import *
from ..roundtrip import *

TECHNIQUE = "symbolic composition of encoder and decoder terms over MIR (abstract interpretation), tag-set query over derived codecs"
NOTE = "Decides the mapping tables and field flow of every encoder/decoder pair; trusts prost's field codecs, uuid/url text forms and the upstream plan serialiser."
FILES = re.compile(r"^src/protocol/grpc/(worker_client|worker_service|metrics_proto)\.rs|^src/protocol/grpc/[a-z_]+\.rs")


def run(ctx):
    P, V = ctx.P, ctx.V
    fam = lambda f: bool(FILES.match(f)) or f.startswith("src/protocol/") and "/errors/" not in f and "/observability/" not in f
    rt = RT(ctx, fam, only=lambda k: "metrics::" not in k[0])
    n = rt.check()
    ctx.floor("encoder/decoder pairs of the worker protocol", len(rt.keys), 7)
    ctx.floor("round trips evaluated", n, 10)
    for need in ("CoordinatorToWorkerMsg", "WorkerToCoordinatorMsg", "SetPlanRequest"):
        ctx.ob(f"pair:{need}", any(last(k[1]) == need for k in rt.keys), f"{need} must have an encoder and a decoder")

    # messages built in place, for which only a decoder is a function of its own
    decs = {}
    for b in P.own:
        if b.kind == "Closure" or b.argc < 1 or not fam(b.file) or "generated" in b.file:
            continue
        i = core_ty(P.ty_s(b.ty(1)))
        o = P.ty_s(b.ty(0))
        if "::generated::" in i and b.argc == 1 and not b.trait and i.split("<")[0] in P.adts and not i.startswith("["):
            decs.setdefault(i, []).append(b)
    inplace = 0
    for g, ds in decs.items():
        if any(k[1] == g for k in rt.keys):
            continue
        for bb, blk, si, t in ctx.aggs(last(g), lambda p: p == g):
            if "generated" in bb.file or "test_utils" in bb.file or "metrics_proto" in bb.file:
                continue
            for d in ds:
                for a, x, y, es in rt.compose(None, d, {}, arg=lambda S: S.rvalue(bb, bb.blocks[blk][0][si][2], blk, si)):
                    inplace += 1
                    x = rt.noerr(x)
                    ok = x.k in ("p", "f") and not contains(x, lambda z: z.k in ("phi", "agg"))
                    ctx.ob(f"inplace:{last(g)}", ok, f"the decoder must recover the request the message was built from: {show(x)[:500]}", ctx.where(bb, blk))
    ctx.floor("requests built in place", inplace, 1)
    ctx.floor("protocol messages whose tags were compared", prost_tags(ctx, lambda f: "generated/worker" in f), 10)
    no_narrowing(ctx, [b for b in P.own if fam(b.file) and "generated" not in b.file])
