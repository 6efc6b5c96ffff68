"""Value provenance: what a MIR operand is computed from, as a normalised term.

A term abstracts *all* executions: loop-carried and branch-dependent values become `phi`, the element of
an iterated collection becomes `at(coll, idx(coll))`, wrappers that carry a success value (Some, Ok, Ready,
Continue, Arc, Box, Pin, references, clones) are transparent, error payloads are kept apart (`E`/`err`),
integer + - * are kept in polynomial normal form, local functions and closures are inlined (so extracting
a helper does not change a term), and captures resolve to their creation site. No path is enumerated and
nothing is solved: it is one def-use abstract interpretation over the compiler's MIR."""
import re, sys
from .facts import callee, callee_name, program

sys.setrecursionlimit(60000)
_INTERN = {}


class T:
    __slots__ = ("k", "a", "id", "size", "_free", "_ps")

    def __repr__(self):
        return show(self)


def mk(k, *a):
    key = (k,) + a
    t = _INTERN.get(key)
    if t is None:
        t = T()
        t.k, t.a, t.id = k, a, len(_INTERN)
        t.size = 1 + sum(x.size for x in a if isinstance(x, T))
        t._free = None
        t._ps = None
        _INTERN[key] = t
    return t


def kids(t):
    if t.k == "sum":
        return [f for _, fs in t.a[0] for f in fs]
    return [x for x in t.a if isinstance(x, T)]


def _short(p):
    # <a::b::C as d::e::F>::m  ->  <C as F>::m ; a::b::C::m -> C::m
    return re.sub(r"\b(?:[A-Za-z_][A-Za-z_0-9]*::)+(?=[A-Za-z_{<\[]+[A-Za-z_0-9#{}]*::|[A-Z])", "", p)


def show(t, d=0):
    if d > 12:
        return "…"
    s = lambda x: show(x, d + 1) if isinstance(x, T) else str(x)
    k, a = t.k, t.a
    if k == "c":
        return repr(a[0])
    if k == "k":
        return _short(str(a[0]))
    if k == "p":
        return f"{a[0].split('::')[-1] if not a[0].endswith('}') else '::'.join(a[0].split('::')[-2:])}#{a[1]}"
    if k == "f":
        return f"{s(a[0])}.{a[1]}"
    if k == "var":
        return f"({s(a[0])} as {a[1]})"
    if k == "call":
        return f"{_short(a[0])}{'@' + str(a[1]).split('::')[-1] if a[1] else ''}({', '.join(s(x) for x in a[2:])})"
    if k == "agg":
        return f"{a[0].split('::')[-1]}::{a[1]}{{{', '.join(n + ': ' + s(x) for n, x in zip(a[2], a[3:]))}}}"
    if k in ("tup", "arr"):
        return "(" + ", ".join(s(x) for x in a) + ")"
    if k == "clo":
        return "clo[" + "::".join(a[0].split("::")[-3:]) + "]"
    if k == "fn":
        return "fn[" + _short(a[0]) + "]"
    if k == "sum":
        return "(" + " + ".join("*".join(([str(c)] if c != 1 or not fs else []) + [s(f) for f in fs]) for c, fs in a[0]) + ")"
    if k == "phi":
        return "phi{" + " | ".join(s(x) for x in a) + "}"
    if k == "at":
        return f"{s(a[0])}[{s(a[1])}]"
    return f"{k}({', '.join(s(x) for x in a)})"


# ---- constructors with simplification
def c(v):
    return mk("c", v)


NONE = mk("none")


def phi(ts):
    out = []
    for t in ts:
        if t.k == "phi":
            out.extend(t.a)
        elif t.k != "never":
            out.append(t)
    out = sorted(set(out), key=lambda t: t.id)
    if len(out) == 1:
        return out[0]
    if not out:
        return mk("never")
    return mk("phi", *out)


def alts(t):
    return list(t.a) if t.k == "phi" else [t]


def lift(f, t):
    if t.k == "phi":
        if len(t.a) > 24:
            return None
        return phi([f(x) for x in t.a])
    return None


def unwrap(t, only=None):
    """The payload; `only`: the one kind of failure (none or E) that is not part of the payload."""
    if t.k == "phi":
        return phi([unwrap(x, only) for x in t.a if x.k != "never"])
    if t.k in ("none", "E") and only in (None, t.k):
        return mk("never")
    return t


def carries(ty):
    return "Option<core::result::Result" in ty


def E(t):
    return mk("E", t)


def err(t):
    if t.k == "phi":
        es = [err(x) for x in t.a if x.k not in ("none",)]
        es = [x for x in es if x.k != "never"]
        return phi(es)
    if t.k == "E":
        return t.a[0]
    if t.k in ("call", "p", "f", "at", "rec", "k", "var", "err"):
        return mk("err", t)
    return mk("never")


OKV = {("core::option::Option", "Some"), ("core::result::Result", "Ok"), ("core::task::poll::Poll", "Ready"), ("core::ops::control_flow::ControlFlow", "Continue")}
ERRV = {("core::result::Result", "Err"), ("core::ops::control_flow::ControlFlow", "Break")}
NONEV = {("core::option::Option", "None"), ("core::task::poll::Poll", "Pending")}


def field(t, name, owner=""):
    r = lift(lambda x: field(x, name, owner), t) if t.k == "phi" else None
    if r is not None:
        return r
    k = t.k
    if k == "agg":
        if name in t.a[2]:
            return t.a[3 + t.a[2].index(name)]
        return mk("never")
    if k == "tup":
        try:
            return t.a[int(name)]
        except (ValueError, IndexError):
            pass
    if k == "upd":
        return t.a[2] if t.a[1] == name else field(t.a[0], name, owner)
    if k == "never":
        return t
    if k == "range" and name in ("start", "end"):
        return t.a[0] if name == "start" else t.a[1]
    return mk("f", t, name, owner)


def downcast(t, variant):
    if t.k == "phi":
        return phi([x for x in (downcast(x, variant) for x in t.a) if x.k != "never"])
    if t.k == "agg":
        return t if t.a[1] == variant else mk("never")
    if t.k == "never":
        return t
    if t.k in ("E", "none"):
        return mk("never")
    return mk("var", t, variant)


def _poly(t):
    if t.k == "sum":
        return dict((fs, cf) for cf, fs in t.a[0])
    if t.k == "c" and isinstance(t.a[0], int) and not isinstance(t.a[0], bool):
        return {(): t.a[0]} if t.a[0] else {}
    return {(t,): 1}


def _mkpoly(d):
    d = {fs: cf for fs, cf in d.items() if cf}
    if not d:
        return c(0)
    if len(d) == 1:
        (fs, cf), = d.items()
        if not fs:
            return c(cf)
        if cf == 1 and len(fs) == 1:
            return fs[0]
    items = sorted(d.items(), key=lambda x: (len(x[0]), tuple(f.id for f in x[0])))
    t = mk("sum", tuple((cf, fs) for fs, cf in items))
    t.size = 1 + sum(f.size for fs, _ in items for f in fs)
    return t


def add(a, b, sgn=1):
    d = dict(_poly(a))
    for fs, cf in _poly(b).items():
        d[fs] = d.get(fs, 0) + sgn * cf
    return _mkpoly(d)


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    d = {}
    for f1, c1 in _poly(a).items():
        for f2, c2 in _poly(b).items():
            fs = tuple(sorted(f1 + f2, key=lambda t: t.id))
            d[fs] = d.get(fs, 0) + c1 * c2
    return _mkpoly(d)


def op(o, a, b):
    if "phi" in (a.k, b.k):
        # keep alternatives apart only when cheap
        if a.k == "phi" and b.k != "phi" and len(a.a) <= 6:
            return phi([op(o, x, b) for x in a.a])
        if b.k == "phi" and a.k != "phi" and len(b.a) <= 6:
            return phi([op(o, a, x) for x in b.a])
    if o == "Add":
        return add(a, b)
    if o == "Sub":
        return sub(a, b)
    if o == "Mul":
        return mul(a, b)
    if o in ("min", "max", "Eq", "Ne", "BitAnd", "BitOr", "BitXor") and a.id > b.id:
        a, b = b, a
    if o in ("Gt", "Ge"):
        o, a, b = ("Lt" if o == "Gt" else "Le"), b, a
    return mk("op", o, a, b)


def neg(t):
    if t.k == "un" and t.a[0] == "Not":
        return t.a[1]
    if t.k == "op":
        o, a, b = t.a
        if o == "Lt":
            return mk("op", "Le", b, a)
        if o == "Le":
            return mk("op", "Lt", b, a)
        if o == "Eq":
            return mk("op", "Ne", a, b)
        if o == "Ne":
            return mk("op", "Eq", a, b)
    return mk("un", "Not", t)


def idx(coll):
    k = coll.k
    if k == "coll":
        return coll.a[1]
    return mk("idx", coll)


def at(coll, i):
    if coll.k == "phi":
        r = lift(lambda x: at(x, i), coll)
        if r is not None:
            return r
    if coll.k == "coll":
        e, ix = coll.a
        return e if ix is i else subst(e, {ix: i})
    if coll.k == "range":
        return add(coll.a[0], i)
    if coll.k == "arr" and i.k == "c" and isinstance(i.a[0], int) and i.a[0] < len(coll.a):
        return coll.a[i.a[0]]
    if coll.k == "arr" and len(coll.a) == 1:
        return coll.a[0]
    if coll.k == "arr":
        return phi(coll.a) if coll.a else mk("never")
    if coll.k in ("none", "never"):
        return mk("never")
    return mk("at", coll, i)


def elem(coll):
    return at(coll, idx(coll))


def length(coll):
    if coll.k == "coll":
        ix = coll.a[1]
        if ix.k == "idx":
            return length(ix.a[0])
    if coll.k == "range":
        return sub(coll.a[1], coll.a[0])
    if coll.k == "arr":
        return c(len(coll.a))
    if coll.k == "phi":
        return phi([length(x) for x in coll.a])
    return mk("len", coll)


# combinators evaluated once the function they are given becomes known
LATE = {"map", "and_then", "find_map", "filter_map", "flat_map", "unwrap_or_else", "or_else"}


def rebuild(t, ch):
    """Same node with other children, re-simplified. ch: list aligned with t.a for T entries."""
    k = t.k
    if k == "f":
        return field(ch[0], t.a[1], t.a[2])
    if k == "var":
        return downcast(ch[0], t.a[1])
    if k == "phi":
        return phi(ch)
    if k == "at":
        return at(ch[0], ch[1])
    if k == "idx":
        return idx(ch[0])
    if k == "len":
        return length(ch[0])
    if k == "op":
        return op(t.a[0], ch[0], ch[1])
    if k == "err":
        return err(ch[0])
    if k == "un" and t.a[0] == "Not":
        return neg(ch[0])
    if k == "call" and t.a[0] == "{value}" and ch[0].k in ("clo", "fn", "phi") and _ENG:
        return _ENG.apply(ch[0], list(ch[1:]))
    if k == "call" and len(ch) == 2 and _ENG and ch[1].k in ("clo", "fn") and kids(t)[1].k not in ("clo", "fn") and last(t.a[0]) in LATE:
        v = _ENG.builtin(t.a[0], last(t.a[0]), list(ch), None, None, None, None, t.a[0])
        if v is not None:
            return v
    it = iter(ch)
    return mk(k, *[next(it) if isinstance(x, T) else x for x in t.a])


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    ks = kids(t)
    if not ks:
        return t
    if t.k == "sum":
        acc = c(0)
        ch = False
        for cf, fs in t.a[0]:
            x = c(cf)
            for f in fs:
                g = subst(f, m, memo)
                ch |= g is not f
                x = mul(x, g)
            acc = add(acc, x)
        r = acc if ch else t
    else:
        nk = [subst(x, m, memo) for x in ks]
        r = t if all(x is y for x, y in zip(nk, ks)) else rebuild(t, nk)
    memo[t] = r
    return r


def walk(t, seen=None):
    """All sub-terms, each once."""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(kids(x))


def params(t):
    """The free function parameters of a term."""
    if t._ps is None:
        t._ps = frozenset(x for x in walk(t) if x.k == "p")
    return t._ps


def contains(t, pred):
    return any(pred(x) for x in walk(t))


# ---- names of callees
def last(path):
    return path.rsplit("::", 1)[-1]


TRANSPARENT = set("""clone deref deref_mut as_ref as_mut borrow borrow_mut into to_owned to_vec into_iter iter iter_mut collect cloned copied
boxed pin new_unchecked get_ref into_future shared ok_or ok_or_else into_inner as_slice as_mut_slice as_str as_bytes by_ref peekable fuse must_use
get_mut collect_vec try_collect try_into as_deref as_deref_mut branch from_output as_any into_boxed_slice lock
into_stream unwrap_unchecked as_pin_mut as_mut_ptr write read_lock get_unchecked_mut map_err inspect_ok inspect_err inspect
into_any boxed_local ok to_string into_string to_str as_usize_ref box_assume_init_into_vec_unsafe flatten_stream try_flatten_stream
now_or_never instrument in_current_span map_unchecked_mut project without_deref spawn_blocking_ret borrow_and_update into_boxed_str transpose context""".split())
UNWRAP = {"unwrap", "expect"}
WRAPNEW = re.compile(r"^(alloc::(rcs::arc::Arc|sync::Arc|boxed::Box|rc::Rc|rcs::rc::Rc)|core::pin::Pin|core::cell::|std::sync::(poison::)?(mutex|rwlock)|tokio_stream::wrappers|core::cmp::Reverse|alloc::borrow::Cow|lock_api::)")
ITER = re.compile(r"^(core::iter::|<?.*Iterator|itertools::|futures_util::stream|futures_core::stream|.*StreamExt|.*TryStreamExt)")


_ENG = None


class Engine:
    def __init__(self, P=None, opaque=()):
        global _ENG
        _ENG = self
        self.P = P or program()
        self.opaque = set(opaque)
        self.rets = {}
        self.vals = {}
        self.busy = set()
        self.reach_cache = {}
        self.creations = None
        self.uses_cache = {}
        self.loop_cache = {}
        self.depth = 0
        self.MAXSIZE = 60000

    # -------------------------------------------------- reaching definitions
    def rdefs(self, b, local, blk, pos):
        """Definitions of `local` (whole or part) reaching just before statement pos of blk (pos=len -> terminator).
        -> list of (block, stmt index|-1, projection, rhs) or 'entry'."""
        key = (b.path, local, blk, pos)
        r = self.reach_cache.get(key)
        if r is not None:
            return r
        defs = b.defs().get(local, [])
        byblk = {}
        for d in defs:
            byblk.setdefault(d[0], []).append(d)
        out, entry = [], False
        if not defs:
            self.reach_cache[key] = ["entry"]
            return ["entry"]
        seen = set()

        def scan(x, upto):
            """Definitions in block x before position `upto`, newest first; True if killed."""
            ds = byblk.get(x, [])
            cand = [d for d in ds if (d[1] if d[1] >= 0 else 10 ** 9) < upto]
            cand.sort(key=lambda d: d[1] if d[1] >= 0 else 10 ** 9, reverse=True)
            for d in cand:
                if d not in out:
                    out.append(d)
                if not d[2]:
                    return True
            return False

        if not scan(blk, pos):
            st = list(b.preds(blk))
            if blk == 0:
                entry = True
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                if not scan(x, 10 ** 9 + 1):
                    if x == 0:
                        entry = True
                    st.extend(b.preds(x))
        if entry:
            out.append("entry")
        self.reach_cache[key] = out
        return out

    # -------------------------------------------------- evaluation
    def operand(self, b, o, blk, pos):
        k = o[0]
        if k in ("c", "m"):
            return self.place(b, o[1], blk, pos)
        if k == "fn":
            j = o[1]
            return mk("fn", j.get("r") or j["p"])
        j = o[1]
        if "v" in j:
            return c(j["v"])
        if "vs" in j:
            return c(j["vs"])
        if "def" in j:
            d = j["def"]
            if d in self.P.bodies and self.P.bodies[d].kind in ("Const", "AssocConst", "InlineConst", "Static"):
                r = self.ret(d)
                if r.k == "c":
                    return r
            return mk("k", d)
        return mk("k", self.P.ty_s(j["ty"]) if "ty" in j else "?")

    def place(self, b, p, blk, pos):
        local, proj = p
        ev = self.local(b, local, blk, pos, proj)
        return ev

    def project(self, b, t, proj, blk, pos, ty=""):
        """ty: the type of what is projected, as far as the leading projections are concerned."""
        i = 0
        while i < len(proj):
            x = proj[i]
            if x == "*":
                i += 1
                continue
            if x[0] == "d":
                v = x[1]
                if v in ("Some", "Ok", "Ready", "Continue"):
                    # awaiting never yields Pending: a None or an error is the awaited value
                    if v != "Ready":
                        t = unwrap(t, "none" if v == "Some" and carries(ty) else "E" if v == "Ok" or v == "Continue" and "ControlFlow<core::result::Result" in ty else None)
                    i += 1
                    ty = ""
                    if i < len(proj) and proj[i] != "*" and proj[i][0] == "f":
                        i += 1
                    continue
                if v in ("Err", "Break"):
                    t = err(t) if v == "Err" else E(err(t))
                    i += 1
                    if i < len(proj) and proj[i] != "*" and proj[i][0] == "f":
                        i += 1
                    continue
                t = downcast(t, v)
                i += 1
                continue
            if x[0] == "f":
                name = x[2] if len(x) > 2 and x[2] is not None else str(x[1])
                owner = x[3] if len(x) > 3 and x[3] else ""
                if owner.startswith("{env}"):
                    t = self.capture(owner[5:], name, x[1])
                else:
                    t = field(t, str(name), owner)
            elif x[0] == "i":
                t = at(t, self.local(b, x[1], blk, pos, []))
            elif x[0] == "ci":
                t = at(t, c(x[1])) if not (len(x) > 3 and x[3]) else mk("at_end", t, c(x[1]))
            elif x[0] == "sub":
                t = mk("slice", t, c(str(x[1:])))
            i += 1
        return t

    def capture(self, clo, name, i):
        if self.creations is None:
            self.creations = {}
            for bb in self.P.all:
                for blk, si, st in bb.assigns():
                    rv = st[2]
                    if rv[0] == "agg" and rv[1][0] in ("closure", "coroutine"):
                        self.creations.setdefault(rv[1][1], []).append((bb, blk, si, rv))
        cr = self.creations.get(clo)
        if not cr:
            return mk("cap", clo, name)
        ts = []
        for bb, blk, si, rv in cr:
            try:
                ts.append(self.operand(bb, rv[2][i], blk, si))
            except IndexError:
                ts.append(mk("cap", clo, name))
        return phi(ts)

    def local(self, b, local, blk, pos, proj=()):
        # closure environments and coroutine upvars
        if proj and local == 1 and b.kind == "Closure" or (b.coroutine and local == 1):
            for j, x in enumerate(proj):
                if x != "*" and x[0] == "f" and len(x) > 3 and str(x[3]).startswith("{env}"):
                    t = self.capture(x[3][5:], x[2], x[1])
                    return self.project(b, t, proj[j + 1:], blk, pos)
                if x != "*":
                    break
        key = (b.path, local, blk, pos, str(proj))
        r = self.vals.get(key)
        if r is not None:
            return r
        if key in self.busy or self.depth > 400:
            return mk("rec", b.path, local)
        self.busy.add(key)
        self.depth += 1
        try:
            t = self._local(b, local, blk, pos, list(proj))
            if t.size > self.MAXSIZE:
                t = mk("big", b.path, local)
        finally:
            self.depth -= 1
            self.busy.discard(key)
        if self.depth == 0 or not any(x.k == "rec" for x in walk(t)):
            self.vals[key] = t
        return t

    def _local(self, b, local, blk, pos, proj):
        ds = self.rdefs(b, local, blk, pos)
        ts = []
        parts = []
        for d in ds:
            if d == "entry":
                if 1 <= local <= b.argc:
                    ts.append(self.project(b, self.param(b, local), proj, blk, pos, self.P.ty_s(b.ty(local))))
                elif len(ds) == 1:
                    ts.append(self.project(b, mk("undef", b.path, local), proj, blk, pos))
                continue
            dproj = [x for x in d[2] if x != "*"]
            pr = [x for x in proj if x != "*"]
            if not dproj:
                ts.append(self.project(b, self.rhs(b, d, local), proj, blk, pos, self.P.ty_s(b.ty(local))))
            elif dproj == pr[:len(dproj)]:
                ts.append(self.project(b, self.rhs(b, d, local), pr[len(dproj):], blk, pos))
                parts.append(d)
            elif pr == dproj[:len(pr)]:
                parts.append(d)
                nm = dproj[len(pr)]
                if nm[0] == "f":
                    ts.append(mk("updf", b.path, str(nm[2] if len(nm) > 2 and nm[2] is not None else nm[1]), self.rhs(b, d, local)))
        t = phi([x for x in ts if x.k != "updf"])
        ups = [x for x in ts if x.k == "updf"]
        for u in ups:
            t = mk("upd", t, u.a[1], phi([u.a[2]] + ([field(t, u.a[1])] if t.k not in ("never", "undef") else [])) if len(ups) > 1 or not self._must(b, parts, blk) else u.a[2])
        t = self.counter(b, local, t, blk)
        return t

    def _must(self, b, parts, blk):
        return len(parts) == 1 and b.dominates(parts[0][0], blk)

    def counter(self, b, local, t, blk):
        """while-loop counters: phi{a, rec+1} guarded by rec < n  ->  element of range(a, n)."""
        if t.k != "phi":
            return t
        rec = mk("rec", b.path, local)
        inc = [x for x in t.a if x.k == "sum" and x is add(rec, c(1))]
        if not inc:
            return t
        init = phi([x for x in t.a if x not in inc and x is not rec])
        return mk("at", mk("range", init, mk("bound", b.path, local)), mk("idx", mk("range", init, mk("bound", b.path, local)))) if False else mk("ctr", init, b.path, local)

    def param(self, b, i):
        if b.kind == "Closure":
            if i == 1:
                return mk("env", b.path)
            if b.coroutine:
                return mk("resume", b.path)
            return self.cparam(b, i)
        return mk("p", b.path, i)

    # closure parameters: from the combinator the closure is given to
    def cparam(self, b, i):
        key = ("cparam", b.path, i)
        if key in self.vals:
            return self.vals[key]
        if key in self.busy:
            return mk("p", b.path, i)
        self.busy.add(key)
        try:
            t = self._cparam(b, i)
        finally:
            self.busy.discard(key)
        self.vals[key] = t
        return t

    def closure_use(self, path):
        """The calls a closure value is directly passed to: [(body, block, terminator, arg position)]."""
        if path in self.uses_cache:
            return self.uses_cache[path]
        self.capture(path, "", 0) if self.creations is None else None
        out = []
        for bb, blk, si, rv in self.creations.get(path, []):
            st = bb.blocks[blk][0][si]
            locs = {st[1][0]}
            for _ in range(6):
                n = len(locs)
                for b2, s2, x in bb.assigns():
                    r = x[2]
                    src = None
                    if r[0] == "use" and r[1][0] in ("c", "m") and not [q for q in r[1][1][1] if q != "*"]:
                        src = r[1][1][0]
                    elif r[0] in ("ref", "refm") and not [q for q in r[1][1] if q != "*"]:
                        src = r[1][0]
                    elif r[0] == "cast" and r[1][0] in ("c", "m"):
                        src = r[1][1][0]
                    if src in locs and not x[1][1]:
                        locs.add(x[1][0])
                for b2, t in bb.calls():
                    nm = callee_name(t)
                    if nm and last(nm) in ("new", "pin", "boxed", "from") and t[2] and t[2][0][0] in ("c", "m") and t[2][0][1][0] in locs:
                        locs.add(t[3][0])
                if len(locs) == n:
                    break
            for b2, t in bb.calls():
                for ai, a in enumerate(t[2]):
                    if a[0] in ("c", "m") and a[1][0] in locs and not a[1][1]:
                        out.append((bb, b2, t, ai))
        self.uses_cache[path] = out
        return out

    def _cparam(self, b, i):
        p = mk("p", b.path, i)
        ts = []
        for bb, blk, t, ai in self.closure_use(b.path):
            nm = callee_name(t)
            if not nm:
                continue
            l = last(nm)
            if l in ("new", "pin", "boxed", "from") or nm in self.P.bodies:
                continue
            n = len(bb.blocks[blk][0])
            if ai == 0:
                continue
            recv = lambda: self.operand(bb, t[2][0], blk, n)
            if l in ("map", "for_each", "filter", "filter_map", "flat_map", "any", "all", "find", "find_map", "position", "try_for_each", "take_while",
                     "skip_while", "max_by_key", "min_by_key", "inspect", "then", "and_then", "map_while", "partition", "inspect_ok", "map_ok", "and_then", "is_some_and",
                     "is_ok_and", "is_none_or", "map_or", "map_or_else", "try_filter_map", "try_for_each_concurrent", "sort_by_key", "retain", "buffered", "find_position", "is_sorted_by_key", "unzip", "sum", "zip_eq"):
                r = recv()
                it = self._is_iter(bb, t[2][0], nm)
                v = elem(r) if it else unwrap(r)
                if l == "map_or_else" and ai == 1:
                    v = err(r)
                ts.append(v)
            elif l in ("map_err", "or_else", "unwrap_or_else", "inspect_err"):
                ts.append(err(recv()))
            elif l in ("fold", "try_fold"):
                r = recv()
                if i == 2:
                    ts.append(mk("acc", b.path, self.operand(bb, t[2][1], blk, n)))
                else:
                    ts.append(elem(r))
            elif l == "scan":
                ts.append(elem(recv()) if i == 3 else mk("acc", b.path, self.operand(bb, t[2][1], blk, n)))
        if ts:
            return phi(ts)
        return p

    def _is_iter(self, b, o, nm):
        if nm.startswith(("core::option::", "core::result::", "<core::option", "<core::result")):
            return False
        if "Future" in nm and "Stream" not in nm:
            return False
        return True

    # -------------------------------------------------- right-hand sides
    def rhs(self, b, d, local):
        blk, si, _, r = d
        if r[0] == "yield":
            return mk("resume", b.path)
        if r[0] == "call":
            return self.callv(b, blk, r[1], local)
        return self.rvalue(b, r[1], blk, si, local)

    def rvalue(self, b, rv, blk, si, local=None):
        k = rv[0]
        if k == "use":
            return self.operand(b, rv[1], blk, si)
        if k in ("ref", "refm", "fake", "raw"):
            return self.place(b, rv[1], blk, si)
        if k == "cast":
            return self.operand(b, rv[1], blk, si)
        if k == "bin":
            x, y = self.operand(b, rv[2], blk, si), self.operand(b, rv[3], blk, si)
            o = rv[1]
            if o.endswith("WithOverflow"):
                return mk("tup", op(o[:-12], x, y), mk("ovf"))
            if o.endswith("Unchecked"):
                o = o[:-9]
            return op(o, x, y)
        if k == "un":
            x = self.operand(b, rv[2], blk, si)
            if rv[1] == "Not":
                return neg(x)
            if rv[1] == "PtrMetadata":
                return length(x)
            return mk("un", rv[1], x)
        if k == "discr":
            return mk("discr", self.place(b, rv[1], blk, si))
        if k == "agg":
            ops = [self.operand(b, o, blk, si) for o in rv[2]]
            kd = rv[1]
            if kd[0] == "adt":
                pv = (kd[1], kd[2])
                if pv in OKV:
                    return ops[0] if ops else mk("c", None)
                if pv in ERRV:
                    return E(ops[0]) if ops else mk("never")
                if pv in NONEV:
                    return NONE
                if kd[1].startswith("core::ops::range::Range") and len(ops) == 2:
                    return mk("range", ops[0], ops[1] if "Inclusive" not in kd[1] else add(ops[1], c(1)))
                return mk("agg", kd[1], kd[2], tuple(kd[3]), *ops)
            if kd[0] == "tuple":
                return mk("tup", *ops)
            if kd[0] == "array":
                return mk("arr", *ops)
            if kd[0] in ("closure", "coroutine"):
                return mk("clo", kd[1], tuple(kd[2]), *ops)
        if k == "repeat":
            return mk("coll", self.operand(b, rv[1], blk, si), mk("idx", mk("range", c(0), c(str(rv[2])))))
        return mk("unk", str(k))

    # -------------------------------------------------- mutation of collections built in place
    def pushes(self, b, local):
        """Calls that add to the collection held in `local`: [(blk, t, method)]"""
        key = ("pushes", b.path, local)
        if key in self.uses_cache:
            return self.uses_cache[key]
        refs = {}
        for blk, si, st in b.assigns():
            if st[2][0] == "refm" and not st[1][1]:
                q = st[2][1]
                if q[0] == local and not [x for x in q[1] if x != "*"]:
                    refs[st[1][0]] = True
        ch = True
        while ch:
            ch = False
            for blk, si, st in b.assigns():
                if st[2][0] in ("refm", "use") and not st[1][1] and st[1][0] not in refs and st[1][0] != local:
                    q = st[2][1] if st[2][0] == "refm" else (st[2][1][1] if st[2][1][0] in "cm" else None)
                    if q and q[0] in refs and not [x for x in q[1] if x != "*"]:
                        refs[st[1][0]] = True
                        ch = True
            for blk, t in b.calls():
                nm = callee_name(t)
                if nm and last(nm) in ("deref_mut", "as_mut", "borrow_mut") and t[2] and t[2][0][0] in "cm" and t[2][0][1][0] in refs and t[3][0] not in refs:
                    refs[t[3][0]] = True
                    ch = True
        out = []
        for blk, t in b.calls():
            nm = callee_name(t)
            if nm and t[2] and t[2][0][0] in "cm" and t[2][0][1][0] in refs and not t[2][0][1][1]:
                out.append((blk, t, last(nm)))
        # captured by &mut in a closure and pushed there
        for blk, si, st in b.assigns():
            rv = st[2]
            if rv[0] == "agg" and rv[1][0] in ("closure", "coroutine"):
                for ci, o in enumerate(rv[2]):
                    if o[0] in "cm" and (o[1][0] in refs or (o[1][0] == local and False)):
                        cb = self.P.bodies.get(rv[1][1])
                        if cb:
                            out.extend(self._cap_pushes(cb, ci))
        self.uses_cache[key] = out
        return out

    def _cap_pushes(self, cb, ci):
        out = []
        refs = set()
        for blk, si, st in cb.assigns():
            if st[2][0] in ("refm", "use") and not st[1][1]:
                q = st[2][1] if st[2][0] == "refm" else (st[2][1][1] if st[2][1][0] in "cm" else None)
                if q and q[0] == 1:
                    pr = [x for x in q[1] if x != "*"]
                    if pr and pr[0][0] == "f" and pr[0][1] == ci and len(pr) == 1 and str(pr[0][3] or "").startswith("{env}"):
                        refs.add(st[1][0])
        for blk, t in cb.calls():
            nm = callee_name(t)
            if nm and t[2] and t[2][0][0] in "cm" and t[2][0][1][0] in refs:
                out.append((blk, t, last(nm), cb))
        return out

    def built(self, b, local):
        """coll term of a Vec/Map/queue local filled by push-like calls, or None."""
        es = []
        ixs = []
        fidx = mk("idx", mk("built", b.path, local))
        for x in self.pushes(b, local):
            blk, t, m = x[:3]
            bb = x[3] if len(x) > 3 else b
            n = len(bb.blocks[blk][0])
            if m in ("push", "push_back", "push_front"):
                es.append(self.operand(bb, t[2][1], blk, n))
                ixs.append(self.push_idx(bb, blk) if bb is b else None)
            elif m == "insert":
                if len(t[2]) >= 3:
                    a, v = self.operand(bb, t[2][1], blk, n), self.operand(bb, t[2][2], blk, n)
                    es.append(mk("tup", a, v))
                else:
                    es.append(self.operand(bb, t[2][1], blk, n))
                ixs.append(None)
            elif m in ("extend", "append", "extend_from_slice"):
                es.append(elem(self.operand(bb, t[2][1], blk, n)))
                ixs.append(None)
        if not es:
            return None
        e = phi(es)
        if len(es) == 1 and ixs[0] is not None:
            return mk("coll", e, ixs[0])
        return mk("coll", e, fidx)

    def loops(self, b):
        """header -> set of blocks (natural loops)."""
        if b.path in self.loop_cache:
            return self.loop_cache[b.path]
        out = {}
        for x in b.reachable():
            for s in b.succs(x):
                if b.dominates(s, x):
                    body = out.setdefault(s, {s})
                    st = [x]
                    while st:
                        y = st.pop()
                        if y in body:
                            continue
                        body.add(y)
                        st.extend(b.preds(y))
        self.loop_cache[b.path] = out
        return out

    def push_idx(self, b, blk):
        """If the push runs exactly once per iteration of a for-loop: idx(iterated collection)."""
        best = None
        for h, body in self.loops(b).items():
            if blk in body and (best is None or len(body) < len(best[1])):
                best = (h, body)
        if not best:
            return None
        h, body = best
        for x in body:
            t = b.blocks[x][1]
            if t[0] == "call" and (callee_name(t) or "").endswith("Iterator>::next") or (t[0] == "call" and callee_name(t) == "core::iter::traits::iterator::Iterator::next"):
                src = self.operand(b, t[2][0], x, len(b.blocks[x][0]))
                # every way from the Some edge back to the header passes the push
                n = t[4]
                sw = b.blocks[n][1]
                some = None
                if sw[0] == "switch":
                    for v, tgt in sw[2]:
                        if v == 1:
                            some = tgt
                if some is None:
                    return None
                r = b.reach_from(some, stop={blk, h})
                if h in r and some != blk:
                    # reachable header without the push?
                    r2 = b.reach_from(some, stop={blk})
                    seen, st, ok = {some}, [some], True
                    while st:
                        y = st.pop()
                        if y == blk:
                            continue
                        if y == h:
                            ok = False
                            break
                        for s in b.succs(y):
                            if s not in seen and s in body:
                                seen.add(s)
                                st.append(s)
                    if not ok:
                        return None
                return idx(src)
        return None

    # -------------------------------------------------- calls
    def arg(self, b, blk, t, i):
        return self.operand(b, t[2][i], blk, len(b.blocks[blk][0]))

    def args(self, b, blk, t):
        return [self.arg(b, blk, t, i) for i in range(len(t[2]))]

    def callv(self, b, blk, t, local=None):
        p, r, j = callee(t)
        n = len(b.blocks[blk][0])
        if p is None:
            f = self.operand(b, t[1], blk, n)
            return self.apply(f, self.args(b, blk, t), b, blk)
        nm = r or p
        l = last(nm)
        if l in ("new", "with_capacity", "default", "new_in", "from_elem") and not t[2][1:] and local is not None:
            bl = self.built_for(b, t, local)
            if bl is not None:
                return bl
        a = self.args(b, blk, t)
        return self.call_term(nm, a, b, blk, t, j, p)

    def built_for(self, b, t, local):
        # follow plain moves of the fresh value into the variable that is filled
        cur = {local}
        for _ in range(4):
            for l in list(cur):
                bl = self.built(b, l)
                if bl is not None:
                    return bl
            n = len(cur)
            for blk, si, st in b.assigns():
                if st[2][0] == "use" and st[2][1][0] in "cm" and st[2][1][1][0] in cur and not st[2][1][1][1] and not st[1][1]:
                    cur.add(st[1][0])
            if len(cur) == n:
                return None
        return None

    def apply(self, f, a, b=None, blk=None):
        if f.k == "phi":
            return phi([self.apply(x, a, b, blk) for x in f.a])
        if f.k == "clo":
            return self.call_ret(f.a[0], [f] + a)
        if f.k == "fn":
            return self.call_term(f.a[0], a, b, blk, None, None, f.a[0])
        return mk("call", "{value}", "", f, *a)

    def call_ret(self, path, a):
        """Return term of a local body with its parameters bound."""
        body = self.P.bodies.get(path)
        r = self.ret(path)
        m = {}
        for i, x in enumerate(a):
            m[mk("p", path, i + 1)] = x
        return subst(r, m)

    def await_(self, t):
        if t.k == "phi":
            return phi([self.await_(x) for x in t.a])
        if t.k == "clo":
            return self.ret(t.a[0])
        return t

    def call_term(self, nm, a, b, blk, t, j, p):
        l = last(nm)
        P = self.P
        if nm in P.bodies and nm not in self.opaque and p not in self.opaque:
            body = P.bodies[nm]
            if body.kind == "Closure":
                # Fn::call(&closure, (args,)) was resolved to the closure body
                if len(a) == 2 and a[1].k == "tup":
                    return self.call_ret(nm, [a[0]] + list(a[1].a))
                return self.call_ret(nm, a)
            if not body.skip or body.j.get("derived"):
                if body.j.get("derived") and l == "clone":
                    return a[0]
                if not body.j.get("derived"):
                    return self.call_ret(nm, a)
        if nm not in P.bodies or nm in self.opaque or P.bodies[nm].skip:
            x = self.builtin(nm, l, a, b, blk, t, j, p)
            if x is not None:
                return x
        site = ""
        if not a or nm.endswith(("unbounded_channel", "mpsc::bounded::channel", "oneshot::channel", "Notify::new", "watch::channel")):
            site = f"{b.path}:{blk}" if b else ""
        if (l in ("downcast_ref", "downcast", "downcast_mut", "is") or l == "of" and not a) and j and j.get("a"):
            site = P.ty_s(j["a"][-1])
        return mk("call", nm, site, *a)

    def builtin(self, nm, l, a, b, blk, t, j, p):
        if not a:
            return None
        x = a[0]
        if l == "poll":
            return self.await_(x)
        if l in TRANSPARENT and not (l == "read" and False):
            if l in ("ok",):
                return unwrap(x)
            return x
        if l in UNWRAP:
            return unwrap(x)
        if l == "new" and WRAPNEW.match(nm):
            return x
        if l == "from" or l == "from_iter":
            return x
        if l in ("try_from",):
            return x
        if l == "from_residual":
            return x if x.k == "E" else (x if x.k in ("none", "never") else E(err(x)) if x.k != "phi" else phi([y for y in x.a if y.k in ("E", "none")] or [E(err(x))]))
        if l in ("first", "last") and x.k == "arr" and not x.a:
            return NONE
        if l in ("next", "next_back", "try_next", "recv", "blocking_recv", "next_if", "peek", "pop_front", "pop", "select_next_some", "first", "last", "pop_back", "poll_next", "poll_recv", "join_next", "poll_next_unpin", "try_recv") and len(a) >= 1:
            return elem(x)
        if l in ("get", "index", "index_mut", "get_mut", "get_unchecked", "swap_remove", "remove") and len(a) >= 2:
            if a[1].k == "range":
                return mk("slice", x, a[1])
            return at(x, a[1])
        if l in ("nth",) and len(a) == 2:
            return at(x, a[1])
        if l == "len" or l == "count":
            return length(x)
        if l == "is_empty":
            return op("Eq", length(x), c(0))
        if l in ("eq", "ne") and len(a) == 2:
            r = op("Eq", a[0], a[1])
            return r if l == "eq" else neg(r)
        if l in ("lt", "le", "gt", "ge") and len(a) == 2:
            return op({"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[l], a[0], a[1])
        if l in ("min", "max") and len(a) == 2:
            return op(l, a[0], a[1])
        if l in ("add", "sub", "mul", "div", "rem") and len(a) == 2 and "ops::arith" in nm:
            return op(l.capitalize(), a[0], a[1])
        if re.match(r"^(checked|wrapping|strict)_(add|sub|mul|div|rem)$", l):
            return op(l.split("_")[1].capitalize(), a[0], a[1])
        if l in ("saturating_add", "saturating_mul"):
            return op(l.split("_")[1].capitalize(), a[0], a[1])
        if l in ("saturating_sub", "div_ceil", "abs_diff", "pow", "isqrt", "is_multiple_of") and len(a) == 2:
            return mk("op", l, a[0], a[1])
        if l == "not" and len(a) == 1:
            return neg(x)
        # combinators
        cl = a[1] if len(a) > 1 else None
        it = self._is_iter(None, None, nm)
        if l in ("map", "then", "and_then", "map_ok", "map_while") and cl is not None and cl.k in ("clo", "fn"):
            src = elem(x) if it else unwrap(x)
            v = self.apply_bound(cl, [src], b, blk)
            if v is not None:
                if l in ("then",) or ("Future" in nm):
                    v = self.await_(v)
                if it:
                    return mk("coll", v, idx(x))
                if l == "and_then" or l == "map":
                    keep = [y for y in alts(x) if y.k in ("none", "E")]
                    return phi([v] + keep)
                return v
        if l in ("filter_map", "flat_map", "find_map", "try_filter_map") and cl is not None and cl.k in ("clo", "fn"):
            v = self.apply_bound(cl, [elem(x)], b, blk)
            if v is not None:
                v = unwrap(self.await_(v)) if l != "flat_map" else elem(v)
                if l == "find_map":
                    return phi([v, NONE])
                return mk("coll", v, mk("idx", mk("filtered", x, mk("c", cl.a[0]))))
        if l in ("filter", "take_while", "skip_while") and it and cl is not None:
            return mk("coll", elem(x), mk("idx", mk("filtered", x, mk("c", cl.a[0] if cl.k in ("clo", "fn") else "?"))))
        if l == "flatten" and it:
            return mk("coll", elem(elem(x)), mk("idx", mk("flat", x)))
        if l == "enumerate" and it:
            return mk("coll", mk("tup", idx(x), elem(x)), idx(x))
        if l in ("zip", "zip_eq") and len(a) == 2:
            z = idx(x)
            return mk("coll", mk("tup", at(x, z), at(a[1], z)), z)
        if l == "repeat" or l == "repeat_n":
            return mk("coll", x, mk("idx", mk("range", c(0), a[1] if len(a) > 1 else mk("c", "inf"))))
        if l == "from_elem":
            return mk("coll", x, mk("idx", mk("range", c(0), a[1])))
        if l == "once" or l == "ready":
            return x if l == "ready" else mk("arr", self.await_(x))
        if l in ("unwrap_or", "unwrap_or_else", "unwrap_or_default", "or", "or_else", "map_or_else", "ok_or_else") and self.present(x, nm):
            if l == "map_or_else":
                return self.apply_bound(a[2], [unwrap(x)], b, blk)
            return unwrap(x)
        if l in ("unwrap_or", "or", "unwrap_or_else", "or_else", "unwrap_or_default") and self.absent(x, nm):
            if l in ("unwrap_or", "or") and len(a) == 2:
                return a[1]
            if l == "unwrap_or_default":
                return mk("k", "default")
            v = self.apply_bound(cl, [err(x)], b, blk) if cl is not None else None
            if v is not None:
                return v
        if l == "unwrap_or" and len(a) == 2:
            return phi([unwrap(x), a[1]])
        if l in ("unwrap_or_default",):
            return phi([unwrap(x), mk("k", "default")])
        if l in ("unwrap_or_else",) and cl is not None:
            v = self.apply_bound(cl, [err(x)], b, blk)
            return phi([unwrap(x), v]) if v is not None else None
        if l == "map_or" and len(a) == 3:
            v = self.apply_bound(a[2], [elem(x) if it else unwrap(x)], b, blk)
            return phi([a[1], v]) if v is not None else None
        if l == "map_or_else" and len(a) == 3:
            v = self.apply_bound(a[2], [unwrap(x)], b, blk)
            w = self.apply_bound(a[1], [err(x)], b, blk)
            return phi([w, v]) if v is not None and w is not None else None
        if l == "or_else" and cl is not None and cl.k in ("clo", "fn"):
            v = self.apply_bound(cl, [err(x)], b, blk)
            return phi([unwrap(x), v]) if v is not None else None
        if l in ("or",) and len(a) == 2:
            return phi([unwrap(x), a[1]])
        if l == "unzip":
            e = elem(x)
            return mk("tup", mk("coll", field(e, "0"), idx(x)), mk("coll", field(e, "1"), idx(x)))
        if l in ("get_or_init", "get_or_try_init", "or_insert_with", "get_or_insert_with", "get_or_init_with") and cl is not None and cl.k in ("clo", "fn"):
            v = self.apply_bound(cl, [], b, blk)
            return v
        if l in ("call", "call_once", "call_mut") and len(a) == 2 and a[1].k == "tup":
            return self.apply(x, list(a[1].a), b, blk)
        if l in ("replace", "swap") and "core::mem" in nm:
            return x
        if l == "take" and ("core::mem" in nm or "Option" in nm or "option" in nm):
            return x
        if l == "spawn" and x.k == "clo":
            return x
        if l == "join_all" or l == "try_join_all":
            return mk("coll", self.await_(elem(x)), idx(x))
        if l in ("div",):
            return None
        return None

    def present(self, x, nm):
        """The Option/Result x certainly carries a value."""
        return False

    def absent(self, x, nm):
        """The Option/Result x certainly carries no value."""
        return False

    def apply_bound(self, cl, a, b, blk):
        """Return term of a closure whose parameters were (eagerly) resolved from its combinator."""
        if cl.k == "clo":
            r = self.ret(cl.a[0])
            body = self.P.bodies.get(cl.a[0])
            m = {mk("p", cl.a[0], i + 2): x for i, x in enumerate(a)}
            return subst(r, m)
        if cl.k == "fn":
            nm = cl.a[0]
            if nm in self.opaque:
                return mk("call", nm, "", *a)
            if nm in self.P.bodies and not self.P.bodies[nm].skip:
                return self.call_ret(nm, a)
            l = last(nm)
            # constructor functions
            ad = self.P.adts
            owner = nm.rsplit("::", 1)[0]
            if l in ("Some", "Ok"):
                return a[0]
            if l == "Err":
                return E(a[0])
            v = self.builtin(nm, l, a, b, blk, None, None, nm)
            if v is not None:
                return v
            if owner in ad and any(v["name"] == l for v in ad[owner]["variants"]):
                return mk("agg", owner, l, tuple(str(i) for i in range(len(a))), *a)
            if nm in ad:
                return mk("agg", nm, l, tuple(str(i) for i in range(len(a))), *a)
            return mk("call", nm, "", *a)
        return None

    def ret(self, path):
        """Term of the value returned by a body (phi over its returns)."""
        if path in self.rets:
            return self.rets[path]
        if path in self.busy or self.depth > 300:
            return mk("recfn", path)
        self.busy.add(path)
        self.depth += 1
        try:
            b = self.P.bodies.get(path)
            ts = []
            for r in b.returns():
                ts.append(self.local(b, 0, r, len(b.blocks[r][0]), []))
            t = phi(ts)
            if t.size > self.MAXSIZE:
                t = mk("big", path, 0)
        finally:
            self.busy.discard(path)
            self.depth -= 1
        if self.depth == 0 or not contains(t, lambda x: x.k in ("rec", "recfn")):
            self.rets[path] = t
        return t

    # -------------------------------------------------- helper for checks
    def root(self, b):
        while b.kind == "Closure" and b.parent in self.P.bodies:
            b = self.P.bodies[b.parent]
        return b

    def contexts(self, t, depth=3):
        """The term in its own frame, then with the free parameters of its root functions replaced at each call site.
        Yields (chain, term)."""
        yield (), t
        if depth == 0:
            return
        ps = params(t)
        fns = {x.a[0] for x in ps}
        fns = [f for f in fns if f in self.P.bodies and self.P.bodies[f].kind != "Closure"]
        if len(fns) != 1:
            return
        f = fns[0]
        for b, blk in self.P.callers().get(f, []):
            if b.skip:
                continue
            a = self.args(b, blk, b.blocks[blk][1])
            u = subst(t, {mk("p", f, i + 1): x for i, x in enumerate(a)})
            for ch, v in self.contexts(u, depth - 1):
                yield ((b, blk),) + ch, v
