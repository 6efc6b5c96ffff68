"""Merging of metrics. For every custom metric value the effects of observing a value and of merging another metric are evaluated down to
operations on its cells. A metric is what its name says (minimum, maximum, average, first, percentile, total): the cells must start from the
neutral element of that operation, observe and merge with that operation, merge each cell with the same cell of the other metric, and the
shown value must be computed from them as the name says. Merging may be skipped only for a metric of another kind or for a neutral part."""
import re
from ..core import *
from ..spec import Spec

TECHNIQUE = "effect summaries over MIR of every metric's observe, merge and read operations, compared with the algebra of its kind"
NOTE = "DDSketch (quantile sketches) is taken to merge and answer quantiles correctly. 'First' latencies keep any first observation when merged."

OPS = ("fetch_add", "fetch_min", "fetch_max", "fetch_sub", "compare_exchange", "compare_exchange_weak", "store", "swap", "fetch_update", "merge", "add", "insert", "add_many", "fetch_and", "fetch_or", "update", "try_update")
KINDS = [(re.compile(r"^P(\d+)\w*Metric$"), "sketch"), (re.compile(r"^Min\w*Metric$"), "min"), (re.compile(r"^Max\w*Metric$"), "max"), (re.compile(r"^Avg\w*Metric$"), "avg"),
         (re.compile(r"^First\w*Metric$"), "first"), (re.compile(r"^\w*Counter\w*Metric$"), "sum")]


class Eff(Spec):
    def __init__(self, P):
        super().__init__(P)
        self.eff = []

    def finished(self, nb):
        for blk, t in nb.calls():
            n = callee_name(t) or ""
            if last(n) in OPS and n not in self.P.bodies and ("Atomic" in n or "DDSketch" in n or "Cell" in n):
                a = self.args(nb, blk, t)
                self.eff.append((last(n), a, nb, blk))
            elif n in self.P.bodies and n not in self.stack:
                self.spec(n, list(self.args(nb, blk, t)))


def cell(t):
    """(owner, field) of the cell a term stands for, following loads and locks."""
    while True:
        if t.k == "call" and last(t.a[0]) in ("load", "lock", "clone", "deref", "unwrap", "borrow", "into_inner") and len(t.a) > 2:
            t = t.a[2]
        elif t.k in ("ref", "box", "var"):
            t = t.a[0]
        else:
            break
    return (t.a[0], t.a[1]) if t.k == "f" else None


def neutral(t):
    """The constant a cell starts with."""
    if t.k == "call" and last(t.a[0].split("@")[0]) == "new" and len(t.a) > 2 and "DDSketch" not in t.a[0]:
        t = t.a[2]
    s = show(t).strip("'")
    if t.k == "c" and isinstance(t.a[0], int):
        return {0: "zero", (1 << 64) - 1: "max"}.get(t.a[0], str(t.a[0]))
    if s.endswith("::MAX"):
        return "max"
    if s.endswith("::MIN") or s.endswith("default()") or re.search(r"Default>::default", s):
        return "zero"
    if "DDSketch" in s:
        return "sketch"
    return s


def kind_of(name):
    for rx, k in KINDS:
        m = rx.match(name)
        if m:
            return k, m.groups()
    return None, ()


def positive(t, v):
    """t is the observation v, possibly converted or raised to one."""
    for y in alts(t):
        while True:
            if y.k == "op" and y.a[0] == "max" and any(z is c(1) for z in y.a[1:]):
                y = next((z for z in y.a[1:] if z is not c(1)), y)
            elif y.k == "call" and len(y.a) > 2 and (last(y.a[0]) in ("as_nanos", "elapsed", "try_into", "into", "unwrap_or", "try_from", "from", "max", "as_secs_f64", "clamp", "min") or "cast" in y.a[0]):
                y = y.a[2]
            elif y.k in ("cast", "f") and isinstance(y.a[0], type(y)):
                y = y.a[0]
            elif y.k == "cast" and len(y.a) > 1 and isinstance(y.a[-1], type(y)):
                y = y.a[-1]
            else:
                break
        if not (y.k == "p" or contains(y, lambda z: z.k == "p" and z.a[1] > 1 if len(z.a) > 1 and isinstance(z.a[1], int) else z.k == "p")):
            return False
    return True


def run(ctx):
    P, V = ctx.P, ctx.V
    kinds = 0
    for agg in ctx.method("CustomMetricValue", "aggregate"):
        if agg.skip:
            continue
        ty = agg.self_ty
        name = last(str(ty))
        kd, grp = kind_of(name)
        if not ctx.ob(f"{name}:kind", kd is not None, "the name of a metric must say how it is merged", ctx.where(agg)):
            continue
        kinds += 1
        other = lambda o: contains(o, lambda z: z.k == "p" and show(z).endswith("#2"))
        mine = lambda o: not other(o) and contains(o, lambda z: z.k == "p" and show(z).endswith("#1"))
        # merging
        S = Eff(P)
        S.spec(agg.path, [mk("p", agg.path, i) for i in range(1, agg.argc + 1)])
        merge = {}
        for op, a, nb, blk in S.eff:
            w = ctx.where(nb, blk)
            dst = cell(a[0])
            if dst is None or not mine(dst[0]):
                ctx.ob(f"{name}:merge:into", False, f"merging changes the metric itself only: {op}({show(a[0])[:100]})", w)
                continue
            src = a[2] if op.startswith("compare") else a[1]
            merge.setdefault(dst[1], []).append((op, a, src, nb, blk))
        # observing
        obs = {}
        watch = []
        for b in P.own:
            if b.skip or b.kind == "Closure" or b.argc != 2 or b.trait:
                continue
            if str(b.self_ty) != str(ty) or not re.search(r"\b" + name + r"$", P.ty_s(b.ty(1)).replace("&", "").strip()):
                continue
            E = Eff(P)
            E.spec(b.path, [mk("p", b.path, i) for i in range(1, b.argc + 1)])
            if not E.eff:
                continue
            watch.append(b)
            for op, a, nb, blk in E.eff:
                d = cell(a[0])
                if d is not None:
                    obs.setdefault((b.path, d[1]), []).append((op, a, nb, blk))
        ctx.ob(f"{name}:observed", bool(watch), "a metric must have an operation that observes a value", ctx.where(agg))
        names = {f for _, f in obs}
        ctx.ob(f"{name}:merge:cells", set(merge) == names, f"every cell that observations change must be merged: observed {sorted(names)}, merged {sorted(merge)}", ctx.where(agg))
        want = {"min": "fetch_min", "max": "fetch_max", "avg": "fetch_add", "sum": "fetch_add", "first": "compare_exchange", "sketch": "merge"}[kd]
        for f, es in merge.items():
            ctx.ob(f"{name}:merge:{f}:once", len(es) == 1, f"a part must be merged exactly once into {f}: {[e[0] for e in es]}", ctx.where(agg))
            for op, a, src, nb, blk in es:
                w = ctx.where(nb, blk)
                ctx.ob(f"{name}:merge:{f}:operation", op == want, f"{name} must merge {f} with {want}, not {op}", w)
                sc = cell(src)
                if sc is None and kd == "min" and src.k == "op" and src.a[0] == "max" and any(z is c(1) for z in src.a[1:]):
                    sc = cell(next(z for z in src.a[1:] if z is not c(1)))
                ctx.ob(f"{name}:merge:{f}:same-cell", sc is not None and sc[1] == f and other(sc[0]), f"{f} must be merged with {f} of the other metric: {show(src)[:150]}", w)
                if op.startswith("compare"):
                    ctx.ob(f"{name}:merge:{f}:unset", a[1] is c(0), f"only an unset value may be replaced: {show(a[1])}", w)
                bad = [x for x in S.guards(nb, blk) if not skippable(x, other)] if hasattr(S, "guards") else []
                ctx.ob(f"{name}:merge:{f}:always", not bad, f"merging must not depend on anything but the kind of the other metric: {[show(x)[:100] for x in bad]}", w)
        for fct in ctx.tree(agg):
            for blk, t in fct.calls():
                if last(callee_name(t) or "") in OPS and not fct.skip:
                    bad = [x for x in ctx.facts(fct, blk) if not skippable(x, other)]
                    ctx.ob(f"{name}:merge:always", not bad, f"merging must not depend on anything but the kind of the other metric: {[show(x)[:120] for x in bad]}", ctx.where(fct, blk))
        for (path, f), es in obs.items():
            k = f"{name}:{last(path)}:{f}"
            for op, a, nb, blk in es:
                w = ctx.where(nb, blk)
                wop = {"sketch": "add"}.get(kd, want)
                ctx.ob(f"{k}:operation", op == wop, f"{name} must observe with {wop}, not {op}", w)
                v = a[2] if op.startswith("compare") else a[1]
                if kd == "avg" and any(v is y for y in alts(v)) and v is c(1):
                    continue
                ctx.ob(f"{k}:value", positive(v, None), f"the observed value itself must be recorded: {show(v)[:120]}", w)
            ctx.ob(f"{k}:once", len(es) == 1, f"one observation must be recorded once: {[e[0] for e in es]}", ctx.where(P.bodies[path]))
        if kd == "avg":
            for path in {p for p, _ in obs}:
                ones = [f for (p, f), es in obs.items() if p == path and all(e[1][1] is c(1) for e in es)]
                ctx.ob(f"{name}:{last(path)}:counted", len(ones) == 1 and len({f for p, f in obs if p == path}) == 2, f"each observation must count once: {ones}", ctx.where(P.bodies[path]))
        # the neutral element
        for b in ctx.method("CustomMetricValue", "new_empty"):
            if str(b.self_ty) != str(ty):
                continue
            r = Spec(P).spec(b.path, [mk("p", b.path, 1)])
            for y in alts(r):
                vals = {neutral(x) for x in y.a[3:]} if y.k == "agg" else {"zero"} if "default" in show(y) else {show(y)[:80]}
                exp = {"min": {"max"}, "sketch": {"sketch"}}.get(kd, {"zero"})
                same = y.k != "agg" or last(y.a[0]) == name
                ctx.ob(f"{name}:empty", vals == exp and same, f"an empty {name} must be neutral when merged: {show(y)[:150]}", ctx.where(b))
        dflt = [b for b in P.impl_methods("Default", "default") if str(b.self_ty) == str(ty)] if kd == "min" else []
        if kd == "min":
            ctx.ob(f"{name}:default", bool(dflt) and all(all(y.k == "agg" and {neutral(x) for x in y.a[3:]} == {"max"} for y in alts(Spec(P).spec(b.path, []))) for b in dflt), "a minimum must start from the largest value", ctx.where(agg))
        # what is shown
        for b in ctx.method("CustomMetricValue", "as_usize"):
            if str(b.self_ty) != str(ty):
                continue
            r = Spec(P).spec(b.path, [mk("p", b.path, 1)])
            w = ctx.where(b)
            if kd in ("min", "max", "first", "sum"):
                ctx.ob(f"{name}:shown", all(cell(y) is not None and cell(y)[1] in names for y in alts(r) if y.k != "c" and "MAX" not in show(y)), f"the value must be what was recorded: {show(r)[:150]}", w)
            elif kd == "avg":
                one = {f for (p, f), es in obs.items() if all(e[1][1] is c(1) for e in es)}
                tot = names - one
                ok = all(y.k == "op" and y.a[0] == "Div" and cell(y.a[1]) and cell(y.a[1])[1] in tot and divisor(y.a[2], one) or y is c(0) or y.k == "call" and last(y.a[0]) == "checked_div" for y in alts(r))
                ctx.ob(f"{name}:shown", ok, f"an average is the total divided by the number of observations: {show(r)[:200]}", w)
            else:
                qs = [z for z in walk(r) if z.k == "call" and last(z.a[0]) == "quantile"]
                exp = int(grp[0]) / 10 ** len(grp[0]) if grp else None
                got = {float(re.sub(r"[^0-9.]", "", show(z.a[3]).replace("f64", ""))) for z in qs if len(z.a) > 3 and re.search(r"\d", show(z.a[3]))}
                ctx.ob(f"{name}:shown", got == {exp}, f"{name} must show the quantile {exp}: {sorted(got)}", w)
    ctx.floor("metrics that are merged", kinds, 8)
    # maximum and average latencies of the coordinator, published when they are dropped
    pub = 0
    for d in P.impl_methods("Drop", "drop"):
        if d.skip or "latency" not in last(str(d.self_ty)).lower():
            continue
        pub += 1
        nm = last(str(d.self_ty))
        rec = {}
        for b in P.own:
            if b.skip or b.kind == "Closure" or b.trait or str(b.self_ty) != str(d.self_ty) or b.argc < 2:
                continue
            E = Eff(P)
            E.spec(b.path, [mk("p", b.path, i) for i in range(1, b.argc + 1)])
            for op, a, nb, blk in E.eff:
                cl = cell(a[0])
                if cl:
                    rec.setdefault(cl[1], []).append((op, a[1], nb, blk))
        for f, es in rec.items():
            for op, v, nb, blk in es:
                w = ctx.where(nb, blk)
                want = "fetch_max" if "max" in f else "fetch_min" if "min" in f else "fetch_add"
                ctx.ob(f"{nm}:{f}:operation", op == want, f"{f} must be recorded with {want}, not {op}", w)
                ctx.ob(f"{nm}:{f}:value", v is c(1) if "count" in f else positive(v, None) and v is not c(1), f"{f} must record the observation: {show(v)[:120]}", w)
            ctx.ob(f"{nm}:{f}:once", len(es) == 1, f"one observation is recorded once in {f}", ctx.where(d))
        for b in ctx.tree(d):
            for blk, t in b.calls():
                if last(callee_name(t) or "") != "add_duration":
                    continue
                dst, v = cell(V.arg(b, blk, t, 0)), V.arg(b, blk, t, 1)
                while v.k == "call" and last(v.a[0]).startswith("from_") and len(v.a) > 2:
                    v = v.a[2]
                w = ctx.where(b, blk)
                if dst and "avg" in dst[1]:
                    ok = v.k == "op" and v.a[0] == "Div" and cell(v.a[1]) and "sum" in cell(v.a[1])[1] and divisor(v.a[2], {f for f in rec if "count" in f})
                    ctx.ob(f"{nm}:shown-average", ok, f"an average is the total divided by the number of observations: {show(v)[:150]}", w)
                elif dst:
                    ok = cell(v) is not None and ("max" in cell(v)[1]) is ("max" in dst[1])
                    ctx.ob(f"{nm}:shown-{dst[1]}", ok, f"{dst[1]} shows what was recorded for it: {show(v)[:150]}", w)
    ctx.floor("latencies published when dropped", pub)


def divisor(t, one):
    t = next((z for z in t.a[1:] if z is not c(1)), t) if t.k == "op" and t.a[0] == "max" else t
    return cell(t) is not None and cell(t)[1] in one


def skippable(f, other):
    """The fact only says that the other metric is of the right kind, or has observations, or that a lock was not poisoned."""
    if f.k == "isv":
        t = f.a[0]
        return contains(t, lambda z: z.k == "call" and (last(z.a[0]).startswith("downcast_ref") or last(z.a[0]) in ("lock", "is")))
    if f.k == "call" and last(f.a[0]) == "is":
        return True
    if f.k == "un" and f.a[0] == "Not":
        return f.a[1].k == "call" and "ptr_eq" in f.a[1].a[0]
    if f.k == "op" and f.a[0] in ("Ne", "Gt", "Lt"):
        zs = [z for z in f.a[1:]]
        return any(cell(z) is not None and other(cell(z)[0]) for z in zs) and any(z is c(0) or "::MAX" in show(z) for z in zs)
    return False
