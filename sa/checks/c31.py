"""Aggregations added by the planner. Every function that builds an aggregation is specialised (conditional constant propagation over MIR)
for every shape of plan around the place it looks at: kind of exchange or other node, what feeds it (hash, round-robin or unknown
repartition, or another node), and what feeds that (partial, final or other aggregation, or another node). An aggregation may be built
only for an exchange fed by a hash repartition of a partial aggregation, and its mode, keys, aggregates, filters, input, input schema and
place in the plan are compared, as terms, with those of that partial aggregation; in every other shape the plan comes back as it was."""
from ..core import *
from ..plans import PlanSpec

TECHNIQUE = "conditional constant propagation over MIR per plan shape, symbolic comparison of the added operator with the one it merges"
NOTE = "What an aggregation of a given mode computes, and which orderings its input needs, is taken from DataFusion."

NEW = re.compile(r"aggregates::AggregateExec::(try_new\w*|new\w*|with_new_\w+|builder|with_mode)$")
BOUNDARY = ("NetworkShuffleExec", "NetworkCoalesceExec", "NetworkBroadcastExec")
MODES = ("Partial", "Final", "FinalPartitioned", "Single", "SinglePartitioned", "PartialReduce")


class AggSpec(PlanSpec):
    def variant(self, x):
        if x.k == "call" and last(x.a[0]) == "mode" and len(x.a) > 2:
            return self.fact(x.a[2], "mode")
        if x.k == "call" and last(x.a[0]) in ("partitioning", "output_partitioning") and len(x.a) > 2:
            v = self.fact(x.a[2], "part")
            if v:
                return v
        return super().variant(x)

    def const(self, y):
        if y.k == "call" and last(y.a[0]) in ("eq", "ne") and len(y.a) > 3:
            a, b = self.variant(y.a[2]), self.variant(y.a[3])
            if isinstance(a, str) and isinstance(b, str):
                return int((a == b) == (last(y.a[0]) == "eq"))
        return super().const(y)


def shapes(P):
    nodes = BOUNDARY + ("RepartitionExec", "{any}")
    for op in nodes:
        for cop, part in (("RepartitionExec", "Hash"), ("RepartitionExec", "RoundRobinBatch"), ("RepartitionExec", "UnknownPartitioning"), ("RepartitionExec", "Range"), ("CoalescePartitionsExec", "UnknownPartitioning"), ("{any}", "Hash")):
            for gop in ("AggregateExec", "{any}"):
                for mode in MODES if gop == "AggregateExec" else (None,):
                    yield op, cop, part, gop, mode


def run(ctx):
    P, V = ctx.P, ctx.V
    roots = []
    for b, blk, t in ctx.calls(lambda n: NEW.search(n)):
        r = V.root(b)
        while True:
            if any(last(callee_name(t) or "") in ("transform_up", "transform_down", "transform", "transform_down_up") for x in ctx.tree(r) for _, t in x.calls()):
                break
            up = ctx.users(r)
            if len(up) != 1:
                break
            r = up[0]
        if r not in roots:
            roots.append(r)
    ctx.floor("rules that add an aggregation", len(roots))
    n = 0
    for r in roots:
        rp = r.path
        for op, cop, part, gop, mode in shapes(P):
            sh = {"": dict(op=op, kids=1), "c": dict(op=cop, kids=1, part=part), "cc": dict(op=gop, kids=1, mode=mode)}
            S = AggSpec(P, sh, flags={"partial_reduce": 1})
            S.spec(r.path, [mk("p", r.path, i) for i in range(1, r.argc + 1)])
            n += 1
            may = op in BOUNDARY and cop == "RepartitionExec" and part == "Hash" and mode == "Partial"
            case = f"{op} over {cop}({part}) over {gop}" + (f"({mode})" if mode else "")
            made = [(nb, blk) for path, nm, nb, blk in S.hits if NEW.search(nm)]
            if not may:
                ctx.ob(f"{last(rp)}:{case}:untouched", not made, f"no aggregation may be added for {case}", ctx.where(r))
                swaps = [(nb, blk) for path, nm, nb, blk in S.hits if last(nm) in ("replace_children", "with_new_children", "with_new_inner") and nm.startswith(("dyn", "datafusion", "<")) and not made]
                ctx.ob(f"{last(rp)}:{case}:same", not swaps, f"{case} must stay as it is", ctx.where(r))
                continue
            ctx.ob(f"{last(rp)}:{case}:decided", bool(made), f"nothing could be decided for {case}", ctx.where(r))
            for nb, blk in made:
                t = nb.blocks[blk][1]
                a = S.args(nb, blk, t)
                k, w = f"{last(rp)}:{case}", ctx.where(nb, blk)
                if not callee_name(t).endswith("AggregateExec::try_new") or len(a) != 6:
                    ctx.bad(f"{k}:form", f"an aggregation is built in a way that is not understood: {callee_name(t)}", w)
                    continue

                def of(x, name):
                    """x is name() of the partial aggregation, as a whole."""
                    return all(y.k == "call" and last(y.a[0]) == name and len(y.a) > 2 and S.role(y.a[2]) == "cc" or
                               y.k == "coll" and y.a[1].k == "idx" and y.a[0] is mk("at", y.a[1].a[0], y.a[1]) and of(y.a[1].a[0], name) for y in alts(x)) and bool(list(alts(x)))
                ctx.ob(f"{k}:mode", all(S.variant(y) == "PartialReduce" for y in alts(a[0])), f"partial states may only be merged to partial states: {show(a[0])[:120]}", w)
                ctx.ob(f"{k}:keys", all(y.k == "call" and last(y.a[0]) == "as_final" and of(y.a[2], "group_expr") for y in alts(a[1])),
                       f"the keys must be the columns of the keys of the partial aggregation: {show(a[1])[:250]}", w)
                ctx.ob(f"{k}:aggregates", of(a[2], "aggr_expr"), f"the aggregates must be those of the partial aggregation, in order: {show(a[2])[:250]}", w)
                ctx.ob(f"{k}:filters", of(a[3], "filter_expr"), f"the filters must be those of the partial aggregation, in order: {show(a[3])[:250]}", w)
                ctx.ob(f"{k}:input", all(S.role(y) == "c" and not (y.k == "call" and last(y.a[0]) in ("downcast_ref",)) for y in alts(a[4])), f"the partial states must be merged after they were repartitioned: {show(a[4])[:250]}", w)
                ctx.ob(f"{k}:schema", of(a[5], "input_schema"), f"the input schema must be the one the aggregates were made for: {show(a[5])[:200]}", w)
                # it becomes the only child of the exchange
                puts = []
                for path, nm, nb2, b2 in S.hits:
                    if last(nm) in ("replace_children", "with_new_children", "with_new_inner") and S.args(nb2, b2, nb2.blocks[b2][1]):
                        x = S.args(nb2, b2, nb2.blocks[b2][1])
                        if any(contains(y, lambda z: z.k == "call" and NEW.search(z.a[0])) for y in x[1:]):
                            puts.append((x, nb2, b2))
                ctx.ob(f"{k}:placed", len(puts) >= 1, f"the aggregation must be placed below {op}", w)
                for x, nb2, b2 in puts:
                    ctx.ob(f"{k}:below-exchange", all(S.role(y) == "" for y in alts(x[0])) and (only(x[1])),
                           f"the aggregation must become the only input of the exchange: {show(x[0])[:100]} / {show(x[1])[:120]}", ctx.where(nb2, b2))
        # switched off: nothing happens
        S = AggSpec(P, {"": dict(op="NetworkShuffleExec", kids=1), "c": dict(op="RepartitionExec", kids=1, part="Hash"), "cc": dict(op="AggregateExec", kids=1, mode="Partial")}, flags={"partial_reduce": 0})
        x = S.spec(r.path, [mk("p", r.path, i) for i in range(1, r.argc + 1)])
        ctx.ob(f"{last(rp)}:off", not [1 for path, nm, nb, blk in S.hits if NEW.search(nm)] and all(y.k in ("E", "err") or S.role(y) == "" for y in alts(x)), f"when switched off the plan must be returned as it is: {show(x)[:150]}", ctx.where(r))
    ctx.notes["plan shapes evaluated"] = n


def only(t):
    """A list of one element."""
    if t.k in ("arr", "tup"):
        return len(t.a) == 1
    if t.k == "upd":
        return only(t.a[2])
    return t.k == "coll" or t.k == "call" and last(t.a[0]) in ("once", "from", "new") and len(t.a) == 3
