"""Round trips by composition: decode(encode(x)) is evaluated symbolically for every variant of x and must
normalise back to x. Recursion is closed coinductively: inside the composition a recursive decode(encode(y))
on a part y stays a call and is replaced by y (the induction hypothesis)."""
import re
from .core import *
from .spec import Spec, rewrite, eta

WRAP = re.compile(r"^(core::result::Result|core::option::Option|alloc::boxed::Box|alloc::sync::Arc|alloc::vec::Vec|core::pin::Pin)<(.*)>$")


def core_ty(s):
    s = s.strip()
    while True:
        o = s
        s = re.sub(r"^&('\S+ )?(mut )?", "", s)
        m = WRAP.match(s)
        if m:
            inner, d = m.group(2), 0
            for i, ch in enumerate(inner):
                if ch == "<":
                    d += 1
                elif ch == ">":
                    d -= 1
                elif ch == "," and d == 0:
                    inner = inner[:i]
                    break
            s = inner
        if s == o:
            return s


def is_proto(ty):
    return "::generated::" in ty or bool(re.search(r"Proto(<|$)", ty.split("<")[0]))


def tuple_parts(s):
    if not (s.startswith("(") and s.endswith(")")):
        return [s]
    out, d, cur = [], 0, ""
    for ch in s[1:-1]:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


PLAIN = {"str", "alloc::string::String", "usize", "u64", "bool", "dyn core::error::Error"}


def pairs(P, files):
    """({(domain, proto): [encoders]}, {(domain, proto): [decoders]}) by signature: domain -> proto and proto -> domain.
    The domain value may be any argument; a decoder may return it first in a tuple."""
    enc, dec = {}, {}
    for b in P.own:
        if b.kind == "Closure" or b.argc < 1 or not files(b.file) or b.trait or "as " in b.path.split("::")[0]:
            continue
        o = core_ty(P.ty_s(b.ty(0)))
        if is_proto(o):
            for i in range(1, b.argc + 1):
                d = core_ty(P.ty_s(b.ty(i)))
                if not is_proto(d) and d not in PLAIN:
                    enc.setdefault((d, o), []).append(b)
                    break
        else:
            i = core_ty(P.ty_s(b.ty(1)))
            o = core_ty((tuple_parts(o) or ["()"])[0])
            if is_proto(i) and o not in PLAIN:
                dec.setdefault((o, i), []).append(b)
    return enc, dec


def dom_index(P, b, dom):
    for i in range(1, b.argc + 1):
        if core_ty(P.ty_s(b.ty(i))) == dom:
            return i
    return 1


def extra_index(P, b, dom):
    o = [i for i in range(1, b.argc + 1) if i != dom_index(P, b, dom)]
    return o[0] if len(o) == 1 else None


class RT:
    """One family of encoders/decoders."""

    def __init__(self, ctx, files, opaque=(), extra=None, only=None, inv=()):
        self.ctx, self.P = ctx, ctx.P
        self.enc, self.dec = pairs(ctx.P, files)
        self.keys = [k for k in self.enc if k in self.dec and (only is None or only(k))]
        self.ident = {"from_slice", "deserialize_uuid", "serialize_uuid", "from_bytes", "parse"}
        self.opaque0 = set(opaque)
        self.extra = extra
        self.inv = list(inv)          # extra (decoder, encoder) path suffix pairs
        self.leaves = 0
        self.split_on = {}
        self.allpairs = [(d.path, e.path) for k in self.enc if k in self.dec for e in self.enc[k] for d in self.dec[k]]
        self.shape = {}
        for k in self.enc:
            for e in self.enc[k]:
                self.shape[e.path] = (dom_index(self.P, e, k[0]), extra_index(self.P, e, k[0]))
        self.tupled = {d.path for k in self.dec for d in self.dec[k] if core_ty(self.P.ty_s(d.ty(0))).startswith("(")}

    def norm(self, t, final):
        def rule(u):
            if u.k == "call":
                l = last(u.a[0])
                if l in self.ident and len(u.a) == 3:
                    return u.a[2]
                if len(u.a) >= 3:
                    for d, e in self.allpairs:
                        if u.a[0] == d:
                            ys = alts(self.noerr(u.a[2]))
                            if ys and all(y.k == "call" and (u.a[0], y.a[0]) in self.pairset for y in ys):
                                vs = []
                                for y in ys:
                                    di, ei = self.shape[y.a[0]]
                                    v = y.a[1 + di]
                                    if u.a[0] in self.tupled:
                                        v = mk("tup", v, y.a[1 + ei] if ei else mk("k", "none"))
                                    vs.append(v)
                                return phi(vs)
                    for d, e in self.inv:
                        if l == d:
                            ys = alts(self.noerr(u.a[2]))
                            if ys and all(y.k == "call" and last(y.a[0]) == e for y in ys):
                                return phi([y.a[2] for y in ys])
            if u.k == "agg" and last(u.a[0]) == "MaybeEncoded" and u.a[1] == "Encoded":
                xs = {y.a[0] for y in walk(u.a[3]) if y.k == "var" and y.a[1] == "Decoded"}
                if len(xs) == 1:
                    return xs.pop()
            if u.k == "coll":
                e = self.noerr(u.a[0])
                if e is not u.a[0]:
                    n = mk("coll", e, u.a[1])
                    return (self.eta1(n) if final else None) or n
            if self.extra:
                v = self.extra(u)
                if v is not None:
                    return v
            if not final:
                return None
            return self.eta1(u)
        return rewrite(t, rule)

    def eta1(self, u):
        if u.k == "agg" and len(u.a) > 3:
            xs = set()
            for n, v in zip(u.a[2], u.a[3:]):
                if v.k == "f" and v.a[1] == n:
                    xs.add(v.a[0])
                else:
                    return None
            if len(xs) == 1:
                x = xs.pop()
                if x.k == "var":
                    if x.a[1] != u.a[1]:
                        return None
                    return x.a[0] if self.split_on.get(x.a[0]) == x.a[1] else x
                ad = self.P.adts.get(u.a[0])
                if ad and ad["kind"] == "struct" and len(ad["variants"][0]["fields"]) == len(u.a) - 3:
                    return x
            return None
        if u.k == "agg" and len(u.a) == 3:
            # payload-free variant: known only under an assumption
            for x, v in self.split_on.items():
                if v == u.a[1] and self.tyof.get(x) == u.a[0]:
                    return x
        if u.k == "coll" and u.a[0].k == "at" and u.a[0].a[1] is u.a[1] and u.a[1].k == "idx" and u.a[1].a[0] is u.a[0].a[0]:
            return u.a[0].a[0]
        return None

    def clean(self, t):
        return phi([x for x in alts(self.noerr(t)) if x.k != "none"])

    def noerr(self, t):
        return phi([x for x in alts(t) if x.k not in ("E", "err", "never")])

    def compose(self, enc, dec, assume, ty=None, arg=None):
        """Leaves of decode(encode(p)): [(assumptions, term, encoded)] with case splits on the local enums inside p."""
        out = []
        todo = [dict(assume)]
        self.tyof = {x: ty for x in assume}
        inner = [q for q in self.allpairs if q[0] != dec.path and (enc is None or q[1] != enc.path)]
        self.pairset = {(d, e) for d, e in self.allpairs}
        opaque = {x for q in inner for x in q} | self.opaque0
        if enc is not None:
            opaque -= {enc.path}
        opaque -= {dec.path}
        while todo:
            a = todo.pop()
            self.split_on = a
            S = Spec(self.P, opaque, a)
            if arg is None:
                y = S.spec(enc.path, [mk("p", enc.path, i + 1) for i in range(enc.argc)])
            else:
                y = arg(S)
            y = self.norm(self.noerr(y), False)
            x = S.spec(dec.path, [y] + [mk("p", dec.path, i + 2) for i in range(dec.argc - 1)])
            x = S.await_(x)
            es = [z for z in alts(x) if z.k == "E"]
            x = self.noerr(self.norm(x, True))
            sp = None
            if len(a) < 3 and not (x.k == "p" or x in assume):
                for t, tt in S.unknown.items():
                    base = tt.split("<", 1)[0].lstrip("&")
                    ad = self.P.adts.get(base)
                    t = self.norm(t, False)
                    if ad and ad["kind"] == "enum" and t not in a and t.k in ("f", "p", "at") and not is_proto(base) and ad["local"]:
                        sp = (t, [v["name"] for v in ad["variants"]], base)
                        break
            if sp:
                self.tyof[sp[0]] = sp[2]
                for v in sp[1]:
                    z = dict(a)
                    z[sp[0]] = v
                    todo.append(z)
                continue
            self.leaves += 1
            out.append((a, x, y, es))
        return out

    def check(self, allow=None, prefix="roundtrip", strict_errors=True):
        """One obligation per pair, variant and leaf. allow(domain, variant, result term): documented loss."""
        ctx, P = self.ctx, self.P
        n = 0
        for k in self.keys:
            ad = P.adts.get(k[0].split("<")[0])
            vs = [(v["name"], len(v["fields"])) for v in ad["variants"]] if ad and ad["kind"] == "enum" else [(None, 1)]
            for e in self.enc[k]:
                for d in self.dec[k]:
                    ctx.fns([e, d])
                    di, ei = self.shape[e.path]
                    p = mk("p", e.path, di)
                    for v, nf in vs:
                        for a, x, y, es in self.compose(e, d, {p: v} if v else {}, k[0].split("<")[0]):
                            n += 1
                            if d.path in self.tupled:
                                rest = field(x, "1")
                                x = field(x, "0")
                                if ei and self.clean(rest) is not mk("p", e.path, ei):
                                    x = mk("context lost", rest)
                            name = f"{prefix}:{last(e.path)}->{last(d.path)}" + (f":{v}" if v else "")
                            ok = x is p
                            msg = "decoding what was encoded gives the same value"
                            if not ok and allow:
                                r = allow(k[0], v, x, y, e, d)
                                if r:
                                    ok, msg = True, r
                            rej = [z for z in es if z.a[0].k not in ("err",)] if strict_errors else []
                            if rej and ok:
                                ok, x = False, mk("rejected", *rej)
                            if not ok:
                                msg = "decoding what was encoded does not give back the same value: " + self.explain(p, v, x)
                            ctx.ob(name, ok, msg, f"{e.file}:{e.line} {e.path} / {d.file}:{d.line} {d.path}")
        return n

    def explain(self, p, v, x):
        if x.k == "never":
            return "it is always an error"
        w = mk("var", p, v) if v else p
        if x.k == "agg":
            if v and x.a[1] != v:
                return f"variant {v} becomes {x.a[1]}: {show(x)[:300]}"
            ds = [f"field {n} becomes {show(t)[:200]}" for n, t in zip(x.a[2], x.a[3:]) if not (t.k == "f" and t.a[1] == n and t.a[0] in (w, p))]
            return "; ".join(ds)[:600]
        return show(x)[:400]


def prost_tags(ctx, files):
    """Each hand-written or generated prost message decodes exactly the tags it encodes."""
    P = ctx.P
    def consts(b, rx):
        out = set()
        for blk, t in b.calls():
            nm = callee_name(t) or ""
            if re.search(rx, nm) and t[2] and t[2][0][0] == "k" and "v" in t[2][0][1]:
                out.add(t[2][0][1]["v"])
        return out
    oneof = {}
    for b in P.all:
        if b.kind != "Closure" and last(b.path) == "encode" and files(b.file) and not b.trait:
            ts = consts(b, r"prost::encoding::\w+::encode")
            if ts:
                oneof[b.path.rsplit("::", 1)[0]] = ts
    n = 0
    for b in P.all:
        if b.trait == "prost::message::Message" and last(b.path) == "encode_raw" and files(b.file):
            m = P.bodies.get(b.path.rsplit("::", 1)[0] + "::merge_field")
            if m is None:
                continue
            ctx.seen.add(b.path)
            tags = consts(b, r"prost::encoding::(btree_map::|hash_map::)?\w*(::)?encode")
            for blk, t in b.calls():
                nm = callee_name(t) or ""
                o = nm.rsplit("::", 1)[0]
                if last(nm) == "encode" and o in oneof:
                    tags |= oneof[o]
            acc = set()
            for x in m.reachable():
                t = m.blocks[x][1]
                if t[0] == "switch" and t[1][0] in "cm" and t[1][1][0] == 2 and not t[1][1][1]:
                    for v, tgt in t[2]:
                        if any(m.blocks[y][1][0] == "call" and last(callee_name(m.blocks[y][1]) or "") in ("merge", "merge_repeated") for y in m.reach_from(tgt)):
                            acc.add(v)
            n += 1
            lost = tags - acc
            ctx.ob(f"tags:{b.self_ty.split('::')[-1]}", not lost, f"fields encoded under tags {sorted(lost)} are not decoded" if lost else "every encoded tag is decoded", f"{b.file}:{b.line}")
    return n


WIDTH = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "f32": 24, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "f64": 53, "u128": 128, "i128": 128}


def no_narrowing(ctx, bodies, prefix="narrowing"):
    """No value is cut by a numeric conversion in these functions."""
    P = ctx.P
    n = 0
    for b in bodies:
        for blk, si, st in b.assigns():
            rv = st[2]
            if rv[0] == "cast" and rv[1][0] in ("c", "m") and not st[1][1]:
                src = P.ty_s(b.ty(rv[1][1][0])) if not rv[1][1][1] else None
                dst = P.ty_s(b.ty(st[1][0]))
                if src in WIDTH and dst in WIDTH:
                    n += 1
                    ctx.ob(f"{prefix}:{ctx.V.root(b).path}", WIDTH[dst] >= WIDTH[src], f"conversion from {src} to {dst} cuts values that cross the wire", ctx.where(b, blk))
    ctx.notes["numeric conversions"] = n
