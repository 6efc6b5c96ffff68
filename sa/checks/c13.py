"""Errors across the wire, decided by composition over MIR: for every encoder/decoder pair of the error codec
and every variant of the engine, arrow, parquet, object-store, parser, schema and I/O error types, decode(encode(e))
must normalise to e; the variants that the code documents as carried as text are enumerated in the rule and must
still be carried with their text. Every tag that can be encoded must be decoded, and the conversion from and to a
transport status must round-trip through the same detail bytes and marker."""
from ..core import *
from ..roundtrip import *

TECHNIQUE = "symbolic composition of encoder and decoder terms over MIR per enum variant, tag-set query over derived codecs"
NOTE = "Decides every row of the error tables; trusts prost, the upstream error constructors and Display."

# documented as carried as text (or, for diagnostics, trimmed): variant -> what it must become
TEXT = {
    ("DataFusionError", "ExecutionJoin"): "Internal",
    ("DataFusionError", "External"): "External",
    ("DataFusionError", "Ffi"): "External",
    ("Error", "InvalidPath"): "Generic",
    ("Error", "JoinError"): "Generic",
    ("ParquetError", "NeedMoreDataRange"): "General",
}
# kinds of std::io::ErrorKind without a code of their own: decoded as Other (test_unknown_error_kind)
IO_OTHER = {"QuotaExceeded", "CrossesDevices", "InvalidFilename", "FilesystemLoop", "InProgress", "Uncategorized", "TooManyOpenFiles", "InputOutputError"}


def run(ctx):
    P, V = ctx.P, ctx.V
    fam = lambda f: f.startswith("src/protocol/grpc/errors/")

    def extra(u):
        if u.k == "call" and u.a[0].endswith("Column::new") and len(u.a) == 4:
            r, n = u.a[2], u.a[3]
            if r.k == "f" and n.k == "f" and r.a[1] == "relation" and n.a[1] == "name" and r.a[0] is n.a[0]:
                return r.a[0]  # spans are documented as not carried
        return None

    rt = RT(ctx, fam, extra=extra)
    io = [k for k in rt.keys if k[0].endswith("io::error::Error")]
    rt.keys = [k for k in rt.keys if k not in io]

    def allow(dom, v, x, y, e, d):
        p = mk("p", e.path, rt.shape[e.path][0])
        src = lambda t: any(z.k == "var" and z.a[0] is p and z.a[1] == v for z in walk(t))
        mine = lambda t, n: t.k == "f" and t.a[1] == n and t.a[0] is mk("var", p, v)
        to = TEXT.get((dom.rsplit("::", 1)[-1], v))
        if to and x.k == "agg" and x.a[1] == to and (src(x) or v == "NeedMoreDataRange"):
            return f"carried as text in {to}"
        if dom.endswith("DataFusionError") and v == "Diagnostic" and x.k == "agg" and x.a[1] == v and mine(field(x, "1"), "1"):
            return "diagnostic trimmed, error kept"
        if dom.startswith("object_store") and x.k == "agg" and x.a[1] == v and "store" in x.a[2]:
            # static store names: a table from known names to themselves
            if not all(mine(t, n) for n, t in zip(x.a[2], x.a[3:]) if n != "store"):
                return None
            names = [z for z in alts(field(x, "store")) if z.k == "c"]
            srcs = [z for z in walk(y) if mine(z, "store")]
            if len(srcs) != 1 or len(names) < 13:
                return None
            for nm in names:
                S = Spec(P, rt.opaque0, {})
                r = field(rt.noerr(rt.norm(S.spec(d.path, [subst(y, {srcs[0]: nm})]), True)), "store")
                if r is not nm and "nknown" not in str(nm.a[0]):
                    return None
            return f"{len(names)} store names each decoded as themselves"
        return None

    n = rt.check(allow)

    # I/O errors: kind by kind
    kinds = P.adts.get("core::io::error::ErrorKind") or P.adts.get("std::io::error::ErrorKind")
    for k in io:
        for e in rt.enc[k]:
            for d in rt.dec[k]:
                ctx.fns([e, d])
                di, ei = rt.shape[e.path]
                p = mk("p", e.path, di)
                probe = Spec(P, (), {})
                probe.spec(e.path, [mk("p", e.path, i + 1) for i in range(e.argc)])
                scr = [t for t in probe.unknown if t.k == "call" and last(t.a[0]) == "kind" and p in t.a]
                ctx.ob("io:kind", bool(scr), "the kind of an I/O error must be encoded", f"{e.file}:{e.line}")
                for kv in kinds["variants"] if kinds else []:
                    v = kv["name"]
                    S = Spec(P, (), {t: v for t in scr})
                    y = S.spec(e.path, [mk("p", e.path, i + 1) for i in range(e.argc)])
                    x = S.spec(d.path, [y])
                    n += 1
                    got = field(x, "0") if d.path in rt.tupled else x
                    kd = {z.a[1] for z in walk(got) if z.k == "agg" and last(z.a[0]) == "ErrorKind"}
                    want = {"Other"} if v in IO_OTHER else {v}
                    ctx.ob(f"io:{v}", kd == want, f"an I/O error of kind {v} is decoded as {sorted(kd)}", f"{e.file}:{e.line} / {d.file}:{d.line}")
                    ctx.ob(f"io:payload:{v}", p in walk_set(got) and (not ei or d.path not in rt.tupled or field(x, "1") is mk("p", e.path, ei)), "the text of an I/O error must be carried", f"{e.file}:{e.line}")
    ctx.floor("error encoder/decoder pairs", len(rt.keys) + len(io), 8)
    ctx.floor("error variants evaluated", n, 100)
    ctx.floor("messages whose tags were compared", prost_tags(ctx, fam), 10)
    no_narrowing(ctx, [b for b in P.own if fam(b.file)])

    # transport status
    encs = [(b, blk, t) for b, blk, t in ctx.calls(r"Status::with_details") if fam(b.file)]
    decs = [(b, blk, t) for b, blk, t in ctx.calls(r"Status::details$") if fam(b.file)]
    ctx.floor("status encoders", len(encs), 1)
    ctx.floor("status decoders", len(decs), 1)
    for b, blk, t in encs:
        code, marker, det = (ctx.arg(b, blk, i) for i in range(3))
        ctx.ob("status:details", contains(det, lambda z: z.k == "p"), "the encoded error must be carried in the status details", ctx.where(b, blk))
        for db, dblk, dt in decs:
            fs = ctx.facts(db, dblk)
            mk_ok = any(f.k == "op" and f.a[0] == "Eq" and marker in f.a[1:] and any(z.k == "call" and last(z.a[0]) == "message" for z in f.a[1:]) for f in fs)
            cd_ok = any(contains(f, lambda z: z is code) for f in fs)
            ctx.ob("status:marker", mk_ok, f"the decoder must recognise the marker the encoder writes ({show(marker)}): {[show(f) for f in fs]}"[:400], ctx.where(db, dblk))
            ctx.ob("status:code", cd_ok, f"the decoder must accept the status code the encoder uses ({show(code)})", ctx.where(db, dblk))


def walk_set(t):
    return set(walk(t))
