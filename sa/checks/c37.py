"""Splitting of scans over tasks. Every place where a leaf is turned into per-task variants of a file scan is specialised for what the
scan declares (partitioning or not) and what its file source answers (cannot split, split, error). In each case the collection of file
groups handed out is traced to its origin (the groups the source returned, or the scan's own groups, whole), every group is moved exactly
once into the scan of one task, chosen by an index that is in bounds, the scans start without groups, are padded to the same number of
partitions, and become the variants in task order. The constructor of the distributed leaf must refuse variants that disagree."""
from ..core import *
from ..spec import Spec
from .c02 import pos_of  # noqa: F401

TECHNIQUE = "conditional constant propagation over MIR per kind of scan, def-use provenance of file groups, per-element loop analysis"
NOTE = "FileSource::repartitioned (DataFusion) is trusted to cut files without losing or repeating bytes; the rest is decided at every place that builds variants of a file scan."

SELECT = re.compile(r"(^|::)(skip|take|step_by|skip_while|take_while|filter|filter_map|dedup\w*|truncate|retain|drain|split_off|remove|swap_remove|pop|pop_front|pop_back|chain|cycle|take_if|swap|insert|rev|sort\w*)$")
RANGES = re.compile(r"FileGroupPartitioner|repartition_file_groups|PartitionedFile::with_range|PartitionedFile::new_with_range|::split_files|split_groups_by")
GROUPS = "Vec<datafusion_datasource::file_groups::FileGroup"


def part(y):
    """output_partitioning of the scan."""
    return y.k == "f" and y.a[1] == "output_partitioning"


def rep(y):
    return y.k == "call" and last(y.a[0]) == "repartitioned"


class ScanSpec(Spec):
    def __init__(self, P, declared, answer):
        super().__init__(P)
        self.declared, self.answer, self.hits = declared, answer, []

    def discr1(self, y, base):
        if y.k == "call" and y.a[0].endswith("downcast_ref"):
            return {1} if base.endswith("Option") else {0}
        if part(y) and base.endswith("Option"):
            return {1} if self.declared else {0}
        if y.k == "f" and rep(y.a[0]):
            y = y.a[0]
        if rep(y):
            if base.endswith("Option"):
                return {0} if self.answer == "none" else {1}
            return {1} if self.answer == "err" else {0}
        return super().discr1(y, base)

    def const(self, y):
        if y.k == "call" and last(y.a[0]) in ("is_some", "is_none") and len(y.a) > 2 and part(y.a[2]):
            return int(self.declared == (last(y.a[0]) == "is_some"))
        return super().const(y)

    def builtin(self, nm, l, a, b, blk, t, j, p):
        if l in ("is_some", "is_none") and a and all(part(y) for y in alts(a[0])):
            return c(self.declared == (l == "is_some"))
        return super().builtin(nm, l, a, b, blk, t, j, p)

    def finished(self, nb):
        for blk, t in nb.calls():
            self.hits.append((nb.path.split("~")[0], nb, blk, callee_name(t) or ""))


def recv_ty(ctx, b, t, i=0):
    return ctx.P.ty_s(b.ty(t[2][i][1][0])) if len(t[2]) > i and t[2][i][0] in "cm" and not t[2][i][1][1] else ""


def origin(t):
    """What a collection of file groups is made of: 'own' (the scan's), 'cut' (the source's answer), 'whole' (new groups of all files of an
    own group)."""
    out = set()
    for y in alts(t):
        if y.k == "f" and y.a[1] == "file_groups":
            out.add("cut" if contains(y.a[0], rep) else "own")
        elif y.k == "coll" and y.a[0].k == "call" and y.a[0].a[0].endswith("FileGroup::new"):
            out.add("whole")
        elif y.k == "coll":
            out |= origin_of(y.a[0])
        else:
            out.add(show(y)[:80])
    return out


def origin_of(e):
    out = set()
    for y in alts(e):
        if y.k == "at":
            out |= origin(y.a[0])
        elif y.k == "call" and y.a[0].endswith("FileGroup::new"):
            out.add("whole")
        elif y.k == "never":
            continue
        else:
            out.add(show(y)[:80])
    return out


def emptied(ctx, b, local, blk, depth=3):
    """Every path to blk passes a place that empties .file_groups of the scan held in the local."""
    V = ctx.V
    hit = []

    names = {}
    for bk, si, st in b.assigns():
        rv = st[2]
        if rv[0] == "refm" and not st[1][1]:
            q = rv[1]
            pr = [x for x in q[1] if x != "*"]
            if q[0] == local and len(pr) == 1 and "file_groups" in str(pr[0]):
                names[st[1][0]] = True
        pr = [x for x in st[1][1] if x != "*"]
        if st[1][0] == local and len(pr) == 1 and "file_groups" in str(pr[0]):
            hit.append(bk)
    for bk, t in b.calls():
        nm = last(callee_name(t) or "")
        if t[2] and t[2][0][0] in "cm" and t[2][0][1][0] in names and not t[2][0][1][1]:
            if nm in ("clear", "take") or nm == "truncate" and V.arg(b, bk, t, 1) is c(0) or nm == "drain":
                hit.append(bk)
        pr = [x for x in t[3][1] if x != "*"]
        if t[3][0] == local and len(pr) == 1 and "file_groups" in str(pr[0]):
            hit.append(bk)
    # the scan before it was moved into this local
    for d in V.rdefs(b, local, blk, len(b.blocks[blk][0])):
        if d != "entry" and d[3][0] == "rv" and d[3][1][0] == "use" and d[3][1][1][0] in "cm" and not d[3][1][1][1][1] and d[3][1][1][1][0] != local:
            if emptied(ctx, b, d[3][1][1][1][0], d[0], depth):
                return True
        if d == "entry" and 0 < local <= b.argc and depth:
            up = [(x, bk, t) for x in ctx.P.own if not x.skip for bk, t in x.calls() if callee_name(t) == b.path and t[2][local - 1][0] in "cm"]
            if up and all(emptied(ctx, x, t[2][local - 1][1][0], bk, depth - 1) for x, bk, t in up):
                return True
    return bool(hit) and ctx.must_pass(b, 0, hit, [blk])[0]


def run(ctx):
    P, V = ctx.P, ctx.V
    sites = [(b, blk, t) for b, blk, t in ctx.calls(r"DistributedLeafExec::try_new$")]
    roots = []
    for b, blk, t in sites:
        r = V.root(b)
        while not (r.argc >= 1 and "ScaleUpLeafNodeEvent" in P.ty_s(r.ty(1))):       # helpers belong to the function that answers the event
            up = ctx.users(r)
            if len(up) != 1:
                break
            r = up[0]
        if r not in roots:
            roots.append(r)
    ctx.floor("places that split a leaf over tasks", len(roots))
    nfn = 0
    for r in roots:
        scope = [x for x in ctx.closure([r]) if not x.path.startswith(tuple(p for p in [""] if p))]
        scope = [x for x in scope if "DistributedLeafExec" not in x.path]
        nfn += len(scope)
        rp = last(r.path)
        w = ctx.where(r)
        for b in scope:
            for blk, t in b.calls():
                nm = callee_name(t) or ""
                ctx.ob(f"{rp}:no-ranges@{b.path}", not RANGES.search(nm), f"files may be cut into ranges only by their own source, this uses {nm}", ctx.where(b, blk))
                if SELECT.search(nm):
                    ctx.bad(f"{rp}:no-selection@{b.path}", f"file groups must be handed out as they are, this uses {nm}", ctx.where(b, blk))
            for blk, si, st in b.assigns():
                if st[2][0] == "agg" and st[2][1][0] == "adt" and str(st[2][1][1]).endswith("FileRange"):
                    ctx.bad(f"{rp}:no-ranges@{b.path}", "files may be cut into ranges only by their own source", ctx.where(b, blk))
        # per kind of scan
        for declared, answer in ((True, "none"), (False, "none"), (False, "some"), (False, "err")):
            S = ScanSpec(P, declared, answer)
            case = ("a scan that declares a partitioning" if declared else f"a scan whose source answers '{answer}'")
            k = f"{rp}:{'declared' if declared else answer}"
            res = S.spec(r.path, [mk("p", "{ev}", 1)])
            asks = [(nb, blk) for pth, nb, blk, nm in S.hits if last(nm) == "repartitioned"]
            if declared:
                ctx.ob(f"{k}:kept-whole", not asks, f"{case} must not be cut into ranges", w)
            elif answer == "err":
                ok = all(y.k in ("E", "err") or y.k == "call" and contains(y, lambda z: z.k in ("err", "E")) for y in alts(res) if y.k not in ("none", "never"))
                made = [1 for pth, nb, blk, nm in S.hits if nm.endswith("DistributedLeafExec::try_new")]
                ctx.ob(f"{k}:reported", ok and not made, f"a failure of the source to cut its files must be the answer: {show(res)[:200]}", w)
                continue
            for nb, blk in asks:
                t = nb.blocks[blk][1]
                a = [S.arg(nb, blk, t, i) for i in range(len(t[2]))]
                cfg = a[-1]
                ctx.ob(f"{k}:own-source", all(y.k == "f" and y.a[1] == "file_source" and y.a[0] is cfg for y in alts(a[0])), f"the files of a scan are cut by the scan's own source: {show(a[0])[:200]}", ctx.where(nb, blk))
                ctx.ob(f"{k}:ordering", any(contains(x, lambda z: z.k == "f" and z.a[1] == "output_ordering" and z.a[0] is cfg) for x in a[1:-1]), "the ordering the scan declares must be given to the source that cuts its files", ctx.where(nb, blk))
            # where groups are moved into scans
            ends = [(nb, blk) for pth, nb, blk, nm in S.hits if nm.endswith("DistributedLeafExec::try_new")]
            ctx.ob(f"{k}:variants", bool(ends), f"{case} must get its variants", w)
            moved = 0
            for pth, nb, blk, nm in S.hits:
                t = nb.blocks[blk][1]
                if last(nm) in ("push", "extend", "append", "extend_from_slice") and (GROUPS in recv_ty(ctx, nb, t) or "Vec<T>" == ""):
                    if any(pth == q.path for q in scope) is False:
                        continue
                    x = S.arg(nb, blk, t, 1)
                    o = origin_of(x)
                    moved += 1
                    want = {"whole", "own"} if declared else {"own"} if answer == "none" else {"cut"}
                    if "whole" in o:
                        o |= {z for y in alts(x) for z in whole(y)}
                        o -= {"whole"}
                        want = want | {"own"}
                    ctx.ob(f"{k}:origin", o <= want - {"whole"} or o <= want and bool(o), f"the groups handed out for {case} must be {sorted(want)}, found {sorted(o)}", ctx.where(nb, blk))
            for pth, nb, blk, nm in S.hits:
                t = nb.blocks[blk][1]
                if declared and last(nm) == "index_mut" and "FileScanConfig" not in recv_ty(ctx, nb, t):
                    n = size(S.arg(nb, blk, t, 0))
                    ctx.ob(f"{k}:places", n is None or contains(n, lambda z: z.k == "call" and last(z.a[0]) == "partition_count" or z.k == "len"),
                           f"the groups of {case} must keep their places, so there must be at least as many places as groups: {show(n)[:200] if n else ''}", ctx.where(nb, blk))
            ctx.ob(f"{k}:handed-out", moved > 0, f"the groups of {case} must be handed out", w)
            for nb, blk in ends:
                t = nb.blocks[blk][1]
                a0, a1 = S.arg(nb, blk, t, 0), S.arg(nb, blk, t, 1)
                ctx.ob(f"{k}:original", a0.k == "f" and a0.a[1] == "plan", f"the original of the variants is the leaf itself: {show(a0)[:150]}", ctx.where(nb, blk))
                ok = a1.k == "coll" and a1.a[0].k == "call" and last(a1.a[0].a[0]) in ("from_data_source", "new") and a1.a[1].k == "idx"
                n = a1.a[1].a[0] if ok else None
                if ok and n.k == "range":
                    ok = n.a[0] is c(0) and n.a[1].k == "f" and n.a[1].a[1] == "task_count"
                else:
                    ok = False
                ctx.ob(f"{k}:count", ok, f"there must be one variant per task, in task order: {show(a1)[:250]}", ctx.where(nb, blk))
        # each group once, in bounds
        npush = 0
        for b in scope:
            for blk, t in b.calls():
                nm = callee_name(t) or ""
                if last(nm) not in ("push", "extend", "append"):
                    continue
                if not re.search(r"Vec<T,A>::|Vec<T, A>::|as core::iter::traits::collect::Extend", nm):
                    continue
                ety = recv_ty(ctx, b, t)
                if not (GROUPS in ety or re.search(r"Vec<T\b|Vec<T/", ety) or "FileGroup" in ety or "PartitionedFile" in ety):
                    continue
                npush += 1
                src = each(ctx, b, blk)
                ctx.ob(f"{rp}:once@{b.path}", src is not None, "every group must be moved exactly once per round, on every path", ctx.where(b, blk))
                for rec in receivers(ctx, b, t[2][0]):
                    bk, tt = rec
                    i = V.arg(b, bk, tt, 1)
                    coll = V.arg(b, bk, tt, 0)
                    ln = size(coll)
                    ok = all(bounded(y, coll, ln) for y in alts(i))
                    ctx.ob(f"{rp}:in-bounds@{b.path}", ok, f"the position a group goes to must stay below the number of positions ({show(ln)[:100] if ln else '?'}): {show(i)[:250]}", ctx.where(b, bk))
        ctx.floor("places that hand a group out", npush)
        # start empty, end padded
        seen = 0
        for b in scope:
            for blk, t in b.calls():
                nm = callee_name(t) or ""
                ety = recv_ty(ctx, b, t)
                if last(nm) in ("from_elem", "resize", "repeat_n", "repeat") and "FileScanConfig" in ety and "Vec" not in ety:
                    seen += 1
                    ctx.ob(f"{rp}:starts-empty", emptied(ctx, b, t[2][0][1][0], blk), "the scans of the tasks must start without the groups of the original", ctx.where(b, blk))
                if last(nm) in ("resize", "resize_with") and GROUPS in ety:
                    x = V.arg(b, blk, t, 1)
                    big = [y for y in alts(x) if not (y.k == "c" and y.a[0] == 0)]
                    ok = bool(big) and all(longest(ctx, y) for y in big)
                    fill = V.arg(b, blk, t, 2)
                    ctx.ob(f"{rp}:padded-to", ok, f"all scans are padded to the longest: {show(x)[:250]}", ctx.where(b, blk))
                    ctx.ob(f"{rp}:padding-empty", fill.k == "call" and fill.a[0].endswith(("FileGroup::new", "FileGroup::default", "default")) and not contains(fill, lambda z: z.k == "f" and z.a[1] == "file_groups"), f"what a scan is padded with must be empty: {show(fill)[:150]}", ctx.where(b, blk))
                    ctx.ob(f"{rp}:padded-all", each(ctx, b, blk) is not None, "every scan must be padded", ctx.where(b, blk))
                    ctx.count = getattr(ctx, "count", 0) + 1
        ctx.floor("replicated scans", seen)
        ctx.floor("paddings", getattr(ctx, "count", 0))
    # the constructor refuses variants that disagree
    for b in [x for x in P.own if x.path.endswith("DistributedLeafExec::try_new")]:
        kinds = set()
        for x in ctx.tree(b):
            for blk in x.reachable():
                t = x.blocks[blk][1]
                if t[0] != "switch":
                    continue
                cnd = V.operand(x, t[1], blk, len(x.blocks[blk][0]))
                for v, tgt in [(v, y) for v, y in t[2]] + [(None, t[3])]:
                    if not ctx.err_only(x, tgt):
                        continue
                    for y in alts(cnd):
                        neg, z = False, y
                        while z.k == "un" and z.a[0] == "Not":
                            neg, z = not neg, z.a[1]
                        holds = (v is None) if len(t[2]) == 1 and t[2][0][0] == 0 else bool(v)
                        holds ^= neg
                        if z.k == "op" and z.a[0] in ("Eq", "Ne") and holds == (z.a[0] == "Ne"):
                            if contains(z, lambda q: q.k == "call" and last(q.a[0]) in ("partition_count", "output_partitioning")) or contains(z, lambda q: q.k == "f" and q.a[1] == "partitioning"):
                                kinds.add("partitions")
                            if any(q.k == "call" and last(q.a[0]) == "schema" for q in z.a[1:]):
                                kinds.add("schema")
                        if z.k == "call" and last(z.a[0]) in ("eq", "ne") and holds == (last(z.a[0]) == "ne"):
                            if any(q.k == "call" and last(q.a[0]) == "schema" for q in z.a[2:]):
                                kinds.add("schema")
        for need in ("partitions", "schema"):
            ctx.ob(f"try_new:{need}", need in kinds, f"variants with different {need} must be refused", ctx.where(b))
    ctx.notes["functions analysed"] = nfn


def whole(y):
    """Origin of the files of a new group: all files of the groups it is made from."""
    if y.k == "at":
        return origin_of(y.a[0].a[0]) if y.a[0].k == "coll" else set()
    if y.k == "call" and y.a[0].endswith("FileGroup::new"):
        if contains(y, rep):
            return {"cut"}
        if contains(y, lambda z: z.k == "f" and z.a[1] == "file_groups"):
            return {"own"}
    return set()


def receivers(ctx, b, o, depth=6):
    """index_mut calls through which the receiver of a push was reached."""
    out = []
    todo, seen = [o], set()
    while todo:
        x = todo.pop()
        if x[0] not in "cm" or x[1][0] in seen:
            continue
        seen.add(x[1][0])
        for d in b.defs().get(x[1][0], []) if isinstance(b.defs(), dict) else []:
            pass
        for bk, si, st in b.assigns():
            if st[1][0] == x[1][0] and not st[1][1]:
                rv = st[2]
                if rv[0] in ("ref", "refm"):
                    todo.append(("c", rv[1]))
                elif rv[0] == "use":
                    todo.append(rv[1])
        for bk, t in b.calls():
            if t[3][0] == x[1][0] and not t[3][1]:
                nm = last(callee_name(t) or "")
                if nm in ("index_mut",):
                    out.append((bk, t))
                elif nm in ("deref_mut", "as_mut", "unwrap", "expect", "get_mut") and t[2]:
                    todo.append(t[2][0])
    return out


def size(coll):
    for y in alts(coll):
        if y.k == "coll" and y.a[1].k == "idx":
            r = y.a[1].a[0]
            return r.a[1] if r.k == "range" and r.a[0] is c(0) else mk("len", r) if r.k != "call" else length(r)
    return None


def bounded(i, coll, ln):
    if i.k == "op" and i.a[0] == "Rem":
        n = i.a[2]
        return n is ln or n.k == "len" and (n.a[0] is coll or ln is n)
    if i.k == "op" and i.a[0] == "Div" and contains(i.a[2], lambda z: z.k == "call" and last(z.a[0]) == "div_ceil"):
        return any(z is ln for z in walk(i.a[2]))
    if i.k == "idx":
        return i.a[0] is coll or coll.k == "coll" and coll.a[1] is i
    return False


def longest(ctx, y):
    if y.k == "k":
        return True
    """Largest number of groups of all scans."""
    def lens(z):
        return contains(z, lambda q: q.k in ("len",) or q.k == "call" and last(q.a[0]) == "len")
    if y.k == "op" and y.a[0] == "max" and lens(y) and not contains(y, lambda z: z.k == "op" and z.a[0] == "min"):
        return all(z.k in ("c", "k") or z.k == "len" or z.k in ("rec", "acc", "ctr") or longest(ctx, z) for x in y.a[1:] for z in alts(x))
    if y.k == "call" and last(y.a[0]) == "max" and lens(y) and not contains(y, lambda z: z.k == "call" and (SELECT.search(z.a[0]) or last(z.a[0]) in ("min", "first", "last"))):
        return True
    if y.k in ("acc", "rec", "ctr", "phi"):
        return contains(y, lambda z: z.k == "call" and last(z.a[0]) == "max") and not contains(y, lambda z: z.k == "call" and last(z.a[0]) == "min")
    if y.k == "len" or y.k == "sum":
        return False
    return False
