"""Lock discipline. Every value that is, or owns, the guard of a thread-blocking lock (mutex, read-write lock, sharded map, watched value) is
followed from where it is created to where it is dropped or moved on: no point at which the task can be suspended, or at which the thread waits
for another task, is reached while one is alive. Every lock acquired while another is held - directly, in a called function, in a closure that
is run, or by dropping a value - is an edge of the acquisition order: no lock is acquired while one of the same kind and field is held, and the
order has no cycle."""
from ..core import *

TECHNIQUE = "guard-liveness dataflow over compiler MIR (moves, drops, suspension points) and a lock-acquisition order graph through the call graph"
NOTE = "locks taken inside dependencies (tokio, DataFusion, moka) are released before the call returns unless they return a guard, and the callbacks they run are the closures they are given; values dropped by a dependency do not take locks of this crate. A call on a child through a trait of a dependency (a plan executing its input, a stream polling its source) follows the tree of nodes, which has no cycle, so the locks of a node and of its descendants are always taken in that order."

GUARD = r"(?:\w+::)*(?:MutexGuard|MappedMutexGuard|RwLockReadGuard|RwLockWriteGuard|MappedRwLockReadGuard|MappedRwLockWriteGuard|ReentrantLockGuard|ReentrantMutexGuard|RwLockUpgradableReadGuard|ArcMutexGuard|ArcRwLockReadGuard|ArcRwLockWriteGuard)\b"
MAPREF = r"dashmap::(?:\w+::)*(?:Ref|RefMut|RefMulti|RefMutMulti|MappedRef|MappedRefMut|Iter|IterMut|Entry|OccupiedEntry|VacantEntry)\b"
WATCH = r"tokio::sync::watch::Ref\b"
ASYNC = r"tokio::sync::|async_lock::|futures_util::lock|futures::lock"
LOCK = re.compile(r"(?:^|::)(Mutex|FairMutex|ReentrantMutex|ReentrantLock|RwLock)(?:<.*>)?::(lock|read|write|upgradable_read|try_lock|try_read|try_write|try_lock_for|lock_arc|read_arc|write_arc|get_cloned|replace|set)$")
DASH = re.compile(r"(?:^|::)DashMap(?:<.*>)?::(?!new$|with_|clone$|default$|into_iter$|hasher$)(\w+)$|dashmap::DashMap.* as .*::(?:index|extend)$")
WCH = re.compile(r"watch::(?:Sender|Receiver)(?:<.*>)?::(send|send_replace|send_modify|send_if_modified|borrow|borrow_and_update|has_changed)$")
ONCE = re.compile(r"(?:OnceLock|LazyLock|OnceCell|Once)(?:<.*>)?::(get_or_init|get_or_try_init|force|call_once)$")
WAIT = re.compile(r"(?:^|::)(block_on|blocking_recv|blocking_send|block_in_place|blocking_lock|blocking_read|blocking_write)$|thread::\w*JoinHandle.*::join$|std::sync::(?:mpsc|mpmc)::.*::recv(?:_timeout)?$|std::thread::(?:functions::)?(?:sleep|park)$")
LATER = re.compile(r"spawn\w*$|::build_task$")


def owns(s, extra=()):
    """Does a value of the type spelled s own a guard (not only a reference to one)?"""
    for rx in (GUARD, MAPREF, WATCH) + tuple(extra):
        for m in re.finditer(rx, s):
            if rx is GUARD and re.search(ASYNC, m.group(0)):
                continue
            i, depth, by_ref = m.start(), 0, False
            # the name itself, then every enclosing bracket's name
            at = i
            while True:
                # a reference, or what an opaque type (a future, an iterator) gives, not what it holds
                if s[:at].endswith("= ") or re.search(r"(?:&(?:'\w+ )?(?:mut )?|\*(?:const|mut) )$", s[:at]):
                    by_ref = True
                    break
                j, depth = at - 1, 0
                while j >= 0:
                    c = s[j]
                    if c in ">)]" and not (c == ">" and s[j - 1] in "-="):
                        depth += 1
                    elif c in "<([":
                        if depth == 0:
                            break
                        depth -= 1
                    j -= 1
                if j < 0:
                    break
                k = j
                while k > 0 and (s[k - 1].isalnum() or s[k - 1] in "_:"):
                    k -= 1
                name = s[k:j]
                if s[j] == "(" and (name in ("fn", "Fn", "FnMut", "FnOnce") or name.endswith(("::Fn", "::FnMut", "::FnOnce"))) or last(name) in ("PhantomData", "Weak"):
                    by_ref = True
                    break
                if "dyn " in s[max(0, k - 5):k]:
                    by_ref = True
                    break
                at = k
            if not by_ref:
                return True
    return False


class Locks:
    def __init__(self, ctx):
        self.ctx, self.P, self.V = ctx, ctx.P, ctx.V
        self.extra = self.holders()
        self.memo_ty = {}
        self.acq = {}
        self.drops = self.drop_impls()
        self.edges = {}
        self.sites = 0

    def holders(self):
        """own types with a field that owns a guard"""
        out = set()
        while True:
            pats = tuple(r"\b%s\b" % re.escape(x) for x in out)
            new = {p for p, a in self.P.adts.items() if p.startswith("crate::") and p not in out and
                   any(owns(self.fty(f), pats) for f in fields(a))}
            if not new:
                return pats
            out |= new

    def fty(self, f):
        return f if isinstance(f, str) else self.P.ty_s(f)

    def guard(self, b, l):
        i = b.ty(l)
        if i not in self.memo_ty:
            self.memo_ty[i] = owns(self.P.ty_s(i), self.extra)
        return self.memo_ty[i]

    def drop_impls(self):
        out = {}
        for b in self.P.impl_methods("core::ops::drop::Drop", "drop") + self.P.impl_methods("Drop", "drop"):
            if b.self_ty:
                out[re.sub(r"<.*", "", b.self_ty)] = b
        return out

    # ---- what a call acquires
    def cls(self, b, blk, t, kind):
        f = t[1][1]
        ty = self.P.ty_s(f["a"][0]) if f.get("a") else "?"
        if kind in ("DashMap",) and len(f.get("a") or ()) > 1:
            ty = ", ".join(self.P.ty_s(i) for i in f["a"][:2])
        nm = None
        names = set()
        for y in alts(self.V.arg(b, blk, t, 0)):
            names.add(self.field_name(y))
        nm = names.pop() if len(names) == 1 else None
        return (f"{kind}<{ty}>", nm)

    def field_name(self, y):
        while True:
            if y.k == "f":
                if not str(y.a[1]).isdigit():
                    return y.a[1]
                y = y.a[0]
            elif y.k in ("var", "idx", "at", "rec") and hasattr(y.a[0], "k"):
                y = y.a[0]
            elif y.k == "call" and last(y.a[0]) in ("deref", "deref_mut", "as_ref", "borrow", "clone", "get", "index", "unwrap", "expect", "as_deref") and len(y.a) > 2:
                y = y.a[2]
            else:
                return None

    def direct(self, b, blk, t):
        """(class or None, blocks?) of a call"""
        n = callee_name(t) or ""
        if n.startswith("crate::") or re.search(ASYNC, n) and not WCH.search(n):
            return None
        m = LOCK.search(n)
        if m:
            return self.cls(b, blk, t, m.group(1)), not m.group(2).startswith("try_")
        if DASH.search(n):
            return self.cls(b, blk, t, "DashMap"), True
        if WCH.search(n):
            return self.cls(b, blk, t, "watch"), True
        m = ONCE.search(n)
        if m and "tokio" not in n:
            return self.cls(b, blk, t, "once"), True
        return None

    def targets(self, b, blk, t):
        """own bodies that run during this call"""
        p, r, f = callee(t)
        out = set()
        n = r or p or ""
        for x in (r, p):
            if x in self.P.bodies:
                out.add(x)
        if f is not None and not r and (f.get("tr") or "").startswith("crate::"):
            for x in self.P.impl_methods(f["tr"], last(p)):
                out.add(x.path)
        if n not in self.P.bodies and not LATER.search(n):
            for i, a in enumerate(t[2]):
                if a[0] == "fn":
                    for x in (a[1].get("r"), a[1]["p"]):
                        if x in self.P.bodies:
                            out.add(x)
                try:
                    y = self.V.arg(b, blk, t, i)
                except Exception:
                    continue
                for c in lazily(y):
                    if c.a[0] in self.P.bodies:
                        out.add(c.a[0])
        elif n in self.P.bodies:
            for i, a in enumerate(t[2]):
                for c in alts(self.V.arg(b, blk, t, i)):
                    if c.k == "clo" and c.a[0] in self.P.bodies:
                        out.add(c.a[0])
        # a coroutine does not run where it is created
        return {x for x in out if not self.P.bodies[x].coroutine}

    def dropped(self, b, t):
        s = self.P.ty_s(b.ty(t[1][0])) if not t[1][1] else ""
        return {d.path for name, d in self.drops.items() if s.startswith(name) or re.search(r"(?<![&\w:])%s\b" % re.escape(name), s) and not s.startswith("&")}

    def acquires(self, path, seen=None):
        """classes acquired (blocking) when the body runs, transitively"""
        if path in self.acq:
            return self.acq[path]
        seen = seen if seen is not None else set()
        out, todo = set(), [path]
        mine = set()
        while todo:
            x = todo.pop()
            if x in mine:
                continue
            mine.add(x)
            if x in self.acq:
                out |= self.acq[x]
                continue
            b = self.P.bodies[x]
            for blk in b.reachable():
                t = b.blocks[blk][1]
                if t[0] == "call":
                    d = self.direct(b, blk, t)
                    if d and d[1]:
                        out.add(d[0])
                    todo += self.targets(b, blk, t)
                elif t[0] == "drop":
                    todo += self.dropped(b, t)
        self.acq[path] = frozenset(out)
        return self.acq[path]

    # ---- where guards are alive
    def body(self, b):
        gl = {l for l in range(len(b.locals)) if self.guard(b, l)}
        clo = {}
        for blk, si, a in b.assigns():
            if a[2][0] == "agg" and a[2][1][0] in ("closure", "coroutine"):
                if any(o[0] == "m" and o[1][0] in gl for o in ops(a[2])) and not a[1][1]:
                    clo.setdefault(a[1][0], True)
                    self.captured(b, blk, a[2], gl)
        gl |= set(clo)
        starts = {l: frozenset({(self.P.ty_s(b.ty(l)), "param")}) for l in range(1, b.argc + 1) if l in gl}
        has_once = any(ONCE.search(callee_name(t) or "") for _, t in b.calls())
        if not gl and not has_once:
            return 0
        state = {0: dict(starts)}
        todo = [0]
        found = []

        def step(blk, st, report=False):
            st = dict(st)

            def take(o):
                """operand moved: the classes it carried"""
                if o[0] == "m" and o[1][0] in st:
                    l, pr = o[1]
                    if not pr or self.proj_owns(b, o[1]):
                        return st.pop(l)
                return frozenset()
            stmts, t = b.blocks[blk][0], b.blocks[blk][1]
            for s in stmts:
                if s[0] == "=":
                    got = frozenset()
                    for o in ops(s[2]):
                        got |= take(o)
                    d = s[1][0]
                    if got and d in gl:
                        st[d] = st.get(d, frozenset()) | got
                elif s[0] == "dead":
                    st.pop(s[1], None)
            if t[0] == "drop":
                if report:
                    held = {c for l, cs in st.items() if l != t[1][0] for c in cs}
                    for x in self.dropped(b, t):
                        for c in self.acquires(x):
                            found.append((blk, held, c, f"dropping a value ({last(x)})"))
                if not t[1][1]:
                    st.pop(t[1][0], None)
            elif t[0] == "call":
                got = frozenset()
                for o in t[2]:
                    got |= take(o)
                held = {c for cs in st.values() for c in cs}
                d = self.direct(b, blk, t)
                n = callee_name(t) or ""
                tg = self.targets(b, blk, t) if (report and (held or ONCE.search(n))) or (not d and not got and t[3][0] in gl) else set()
                if report:
                    if d and d[1]:
                        found.append((blk, held, d[0], f"`{last(n)}`"))
                    inner = set(held)
                    if d and (ONCE.search(n) or tg):
                        inner.add(d[0])     # its closure runs with the lock held
                    if WAIT.search(n) and held:
                        found.append((blk, held, None, f"`{last(n)}` waits for another task"))
                    if inner:
                        for x in tg:
                            for c in self.acquires(x):
                                found.append((blk, inner, c, f"`{last(n)}`"))
                dst = t[3][0] if t[3] else None
                if dst in gl:
                    new = got
                    if d:
                        new |= {d[0]}
                    if not new:
                        for x in tg:
                            new |= self.acquires(x)
                    if not new:
                        new = frozenset({(self.P.ty_s(b.ty(dst)), "?")})
                    st[dst] = frozenset(new)
            elif t[0] == "yield":
                held = {c for cs in st.values() for c in cs}
                if report and held:
                    found.append((blk, held, None, "the task can be suspended"))
            elif t[0] == "ret":
                pass
            return st

        while todo:
            x = todo.pop()
            o = step(x, state[x])
            for s in b.succs(x):
                cur = state.get(s)
                new = dict(cur or {})
                ch = cur is None
                for l, cs in o.items():
                    if not cs <= new.get(l, frozenset()):
                        new[l] = new.get(l, frozenset()) | cs
                        ch = True
                if ch:
                    state[s] = new
                    todo.append(s)
        for x in list(state):
            step(x, state[x], True)
        ctx = self.ctx
        for blk, held, c, why in found:
            if c is None:
                for h in held:
                    ctx.bad(f"held:{self.name(h)}", f"{why} while the guard of {self.name(h)} is alive", ctx.where(b, blk))
                continue
            for h in held:
                self.edges.setdefault((h, c), (ctx.where(b, blk), why))
        self.sites += sum(1 for blk in b.reachable() if b.blocks[blk][1][0] == "call" and self.direct(b, blk, b.blocks[blk][1]))
        return len(gl)

    def captured(self, b, blk, rv, gl):
        """An asynchronous block that owns a guard: it must move it to a local, which is then followed, or never be suspended."""
        c = self.P.bodies.get(rv[1][1])
        if c is None or not c.coroutine or not any(c.blocks[i][1][0] == "yield" for i in c.reachable()):
            return
        for n, o in enumerate(ops(rv)):
            if o[0] == "m" and o[1][0] in gl and not o[1][1]:
                moved = any(u[0] == "m" and u[1][0] == 1 and u[1][1] and u[1][1][0][1] == n for _, _, a in c.assigns() for u in ops(a[2])) or \
                    any(u[0] == "m" and u[1][0] == 1 and u[1][1] and u[1][1][0][1] == n for _, t in c.calls() for u in t[2])
                if not moved:
                    self.ctx.bad("held:captured", "an asynchronous block that can be suspended owns the guard of a lock", self.ctx.where(b, blk))

    def proj_owns(self, b, place):
        """does the projected part of a guard-owning local own the guard?  Unknown parts are taken to."""
        return True

    @staticmethod
    def name(c):
        return c[0].replace("datafusion_physical_plan::", "")[:120] + (f" (`{c[1]}`)" if c[1] not in (None, "?", "param") else "")


LAZY = {"map", "filter", "filter_map", "flat_map", "inspect", "enumerate", "zip", "chain", "take_while", "skip_while", "map_while", "scan", "peekable", "rev", "cloned",
        "copied", "by_ref", "into_iter", "iter", "iter_mut", "take", "skip", "step_by", "flatten", "fuse", "from_fn", "repeat_with", "successors", "map_err", "new"}


def lazily(y, depth=8):
    """closures that whoever consumes this value runs"""
    for c in alts(y):
        if c.k == "clo":
            yield c
        elif c.k == "call" and last(c.a[0]) in LAZY and depth:
            for x in c.a[2:]:
                if hasattr(x, "k"):
                    yield from lazily(x, depth - 1)


def fields(a):
    for v in a.get("variants", []):
        for f in v.get("fields", v[1] if isinstance(v, list) else []):
            if isinstance(f, (list, tuple)):
                yield f[-1]
            elif isinstance(f, dict):
                yield f.get("ty", f.get("t", ""))
            else:
                yield f


def same(a, c):
    return a[0] == c[0] and (a[1] == c[1] or a[1] is None or c[1] is None)


def run(ctx):
    P = ctx.P
    L = Locks(ctx)
    guards = bodies = yields_ = 0
    for b in P.own:
        n = L.body(b)
        if n:
            bodies += 1
            guards += n
            ctx.fns([b])
        yields_ += sum(1 for i in b.reachable() if b.blocks[i][1][0] == "yield")
    acq = sum(1 for b in P.own for k, t in b.calls() if L.direct(b, k, t))
    ctx.floor("functions that hold a guard", bodies, 8)
    ctx.floor("guards followed", guards, 20)
    ctx.floor("lock acquisitions", acq, 15)
    ctx.floor("suspension points", yields_, 20)
    ctx.ob("suspension:none-held", not any(o[0].startswith("held:") and not o[1] for o in ctx.obs), "no guard is alive at a suspension point")
    edges = {(a, c): w for (a, c), w in L.edges.items()}
    # every lock taken under another
    for (a, c), (w, why) in sorted(edges.items(), key=str):
        ctx.ob(f"nested:{L.name(a)}->{L.name(c)}", not same(a, c), f"{why} acquires {L.name(c)} while another lock of the same kind and field is held: two tasks that do so in opposite orders, or one that meets itself, wait forever", w)
    graph = {}
    for a, c in edges:
        if not same(a, c):
            graph.setdefault(a, set()).add(c)
    nodes = set(graph) | {c for s in graph.values() for c in s}
    for a in sorted(graph, key=str):
        # reachable back to a class that is the same lock
        seen, todo = set(), list(graph[a])
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for y in nodes:
                if same(x, y):
                    todo += graph.get(y, ())
        back = [x for x in seen if same(x, a)]
        ctx.ob(f"order:{L.name(a)}", not back, f"{L.name(a)} and the locks acquired while it is held ({', '.join(L.name(x) for x in graph[a])[:300]}) can be acquired in opposite orders", edges[(a, sorted(graph[a], key=str)[0])][0])

