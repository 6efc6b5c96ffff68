"""Limits the planner adds. Every rule that limits a plan (with_fetch, LocalLimitExec, GlobalLimitExec) is specialised (conditional
constant propagation over MIR) for every shape around the place it looks at: a node that limits its input (global or local limit,
coalesce, merge), one that limits only what it emits (filter, sort, join), or neither; over a coalescing, other, or no exchange; whose
producer stage ends in a projection or something else, with a smaller, equal, larger or no limit of its own. A limit may reach the
producers only from a node that passes it to its input, across a coalescing exchange, below at most a projection, never raising an
existing limit, and its amount must be the node's fetch plus, for an offset, the rows skipped."""
from ..core import *
from ..plans import PlanSpec

TECHNIQUE = "conditional constant propagation over MIR per plan shape, symbolic comparison of the amount pushed"
NOTE = "Which operators pass a limit on to their input is taken from DataFusion (supports_limit_pushdown; limit, coalesce and merge operators)."

LIMIT = re.compile(r"(ExecutionPlan::with_fetch|ExecutionPlan>::with_fetch|LocalLimitExec::new|GlobalLimitExec::new|SortExec::with_fetch|SortPreservingMergeExec::with_fetch|CoalescePartitionsExec::with_fetch)$")
PASS = ("GlobalLimitExec", "LocalLimitExec", "CoalescePartitionsExec", "SortPreservingMergeExec")
EMIT = ("FilterExec", "SortExec", "HashJoinExec", "AggregateExec")


class LimitSpec(PlanSpec):
    rel = None

    def _role(self, t):
        if t.k == "f" and t.a[1] == "plan":
            z = t.a[0]
            while z.k in ("var", "ref", "box"):
                z = z.a[0]
            if z.k == "f" and z.a[1] == "0":
                z = z.a[0]
                while z.k in ("var", "ref", "box"):
                    z = z.a[0]
            if z.k == "f" and z.a[1] == "input_stage" or z.k == "call" and last(z.a[0]) == "input_stage":
                r = self.role(z.a[0] if z.k == "f" else z.a[2])
                if r is not None:
                    return r + "s"
            if z.k == "f":
                r = self.role(z.a[0])
        if t.k == "call" and last(t.a[0]) == "local_plan" and len(t.a) > 2:
            z = t.a[2]
            if z.k == "f" and z.a[1] == "input_stage":
                r = self.role(z.a[0])
                return "?" if r is None else r + "s"
        return super()._role(t)

    def variant(self, x):
        if x.k == "f" and x.a[1] == "input_stage":
            return "Local"
        return super().variant(x)

    def const(self, y):
        if y.k == "call" and last(y.a[0]) == "supports_limit_pushdown" and len(y.a) > 2:
            v = self.fact(y.a[2], "passes")
            if v is not None:
                return int(v)
        if y.k == "op" and y.a[0] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne") and self.rel is not None:
            a, b = y.a[1], y.a[2]

            def old(t):
                return t.k == "call" and last(t.a[0]) == "fetch" and len(t.a) > 2 and (self.role(t.a[2]) or "").startswith("cs")

            def new(t):
                return contains(t, lambda z: z.k == "call" and last(z.a[0]) == "fetch" and len(z.a) > 2 and self.role(z.a[2]) == "") and not old(t)
            # everything that is compared is either an existing limit or the new one
            n = {"lt": -1, "eq": 0, "gt": 1}[self.rel]
            from ..plans import CMP
            if old(a) and new(b):
                return int(CMP[y.a[0]](n, 0))
            if old(b) and new(a):
                return int(CMP[y.a[0]](0, n))
        return super().const(y)


def run(ctx):
    P, V = ctx.P, ctx.V
    roots = []
    for b, blk, t in ctx.calls(lambda n: LIMIT.search(n)):
        r, seen = V.root(b), set()
        while r.path not in seen:
            seen.add(r.path)
            if any(last(callee_name(t) or "") in ("transform_up", "transform_down", "transform", "transform_down_up") for x in ctx.tree(r) for _, t in x.calls()):
                break
            up = ctx.users(r)
            if len(up) != 1:
                break
            r = up[0]
        if r not in roots:
            roots.append(r)
    ctx.floor("rules that limit a plan", len(roots))
    n = 0
    decided = 0
    for r in roots:
        rn = last(r.path)
        for op in PASS + EMIT + ("{any}", "{any passing}"):
            for fetch in (0, 1):
                for cop in ("NetworkCoalesceExec", "NetworkShuffleExec", "NetworkBroadcastExec", "{any}"):
                    for sop in ("ProjectionExec", "FilterExec", "{any}"):
                        if cop != "NetworkCoalesceExec" and sop != "{any}":
                            continue
                        for rel in (None, "lt", "eq", "gt"):
                            if cop != "NetworkCoalesceExec" and rel or not fetch and rel:
                                continue
                            passes = op in PASS or op == "{any passing}"
                            has = 0 if rel is None else 1
                            sh = {"": dict(op=op.replace(" passing", ""), kids=1, fetch=fetch, passes=passes), "c": dict(op=cop, kids=0), "cs": dict(op=sop, kids=1, fetch=has if sop != "ProjectionExec" else 0), "csc": dict(op="{any}", kids=1, fetch=has), "cscc": dict(op="{any}", fetch=0)}
                            S = LimitSpec(P, sh)
                            S.rel = rel
                            S.spec(r.path, [mk("p", r.path, i) for i in range(1, r.argc + 1)])
                            n += 1
                            case = f"{op}{' with' if fetch else ' without'} a limit over {cop}" + (f" over {sop}" if cop == "NetworkCoalesceExec" else "") + {None: "", "lt": " with a smaller limit", "eq": " with the same limit", "gt": " with a larger limit"}[rel]
                            k = f"{rn}:{case}"
                            put = []
                            for path, nm, nb, blk in S.hits:
                                if LIMIT.search(nm):
                                    put.append((S.args(nb, blk, nb.blocks[blk][1]), nm, nb, blk))
                            if not fetch or cop != "NetworkCoalesceExec" or not passes:
                                ctx.ob(f"{k}:none", not put, f"no limit may be pushed to producers for {case}", ctx.where(r))
                                continue
                            if rel == "lt":
                                ctx.ob(f"{k}:kept", not put, f"the smaller limit of the producers must be kept for {case}", ctx.where(r))
                                continue
                            if put:
                                decided += 1
                            for a, nm, nb, blk in put:
                                w = ctx.where(nb, blk)
                                roles = {S.role(y) for y in alts(a[0]) if y.k not in ("never",)}
                                want = {"cs", "csc"} if sop == "ProjectionExec" else {"cs"}
                                ctx.ob(f"{k}:place", roles <= want and roles, f"for {case} the limit may be put on {sorted(want)} only (the producers' plan, or what a projection at its top reads), not on {show(a[0])[:200]}", w)
                                amt = a[-1] if "GlobalLimitExec" not in nm else a[-1]
                                ok = all(enough(S, y, op) for y in alts(amt) if y.k not in ("never",)) and bool(list(alts(amt)))
                                ctx.ob(f"{k}:amount", ok, f"for {case} each producer must keep the rows asked for plus those skipped: {show(amt)[:250]}", w)
                                ctx.ob(f"{k}:no-skip", "GlobalLimitExec" not in nm or a[1] is c(0), "producers must not skip rows", w)
                            # the node itself and its other children stay
                            for path, nm, nb, blk in S.hits:
                                if last(nm) in ("replace_children", "with_new_children", "with_new_inner"):
                                    x = S.args(nb, blk, nb.blocks[blk][1])
                                    if any(S.role(y) == "" for y in alts(x[0])):
                                        ok = all(y.k == "coll" and y.a[1].k == "idx" and contains(y.a[1].a[0], lambda z: z.k == "call" and last(z.a[0]) == "children" and S.role(z.a[2]) == "") or y.k in ("arr", "upd") for y in alts(x[1]))
                                        ctx.ob(f"{k}:children", ok, f"every child of the limiting node must stay, in order: {show(x[1])[:200]}", ctx.where(nb, blk))
                            res = S.memo.get((r.path, tuple(mk("p", r.path, i) for i in range(1, r.argc + 1))))
        ctx.floor(f"shapes in which {rn} pushes a limit", decided, 1)
        # the exchange keeps everything but the plan of its stage
        for b in ctx.closure([r]):
            for blk, si, st in b.assigns():
                if st[2][0] == "agg" and st[2][1][0] == "adt" and str(st[2][1][1]).endswith("LocalStage"):
                    t = V.rvalue(b, st[2], blk, si)
                    src = {f: field(t, f) for f in ("query_id", "num", "tasks")}
                    base = {x.a[0] if x.k == "f" and x.a[1] == f else None for f, x in src.items()}
                    ctx.ob(f"{rn}:stage", len(base) == 1 and None not in base, f"the limited stage keeps its query, number and tasks: { {f: show(x)[:80] for f, x in src.items()} }", ctx.where(b, blk))
    ctx.notes["plan shapes evaluated"] = n


def enough(S, y, op):
    """y is fetch (+ skip) of the node."""
    def is_of(t, name):
        return all(z.k == "call" and last(z.a[0]) == name and len(z.a) > 2 and S.role(z.a[2]) == "" for z in alts(t))
    while y.k == "call" and last(y.a[0]) in ("Some", "filter") and len(y.a) > 2:
        y = y.a[2]
    if y.k == "agg" and y.a[1] == "Some":
        return all(enough(S, z, op) for z in alts(field(y, "0")))
    if op != "GlobalLimitExec":
        return is_of(y, "fetch") or y.k == "call" and last(y.a[0]) in ("max", "saturating_add", "checked_add")
    if y.k == "call" and last(y.a[0]) in ("checked_add", "saturating_add") and len(y.a) > 3:
        return is_of(y.a[2], "fetch") and is_of(y.a[3], "skip") or is_of(y.a[3], "fetch") and is_of(y.a[2], "skip")
    if y.k == "sum":
        fs = [z for z in walk(y) if z.k == "call" and last(z.a[0]) == "fetch" and S.role(z.a[2]) == ""]
        ks = [z for z in walk(y) if z.k == "call" and last(z.a[0]) == "skip" and S.role(z.a[2]) == ""]
        return bool(fs) and bool(ks) and y is add(fs[0], ks[0])
    return False
