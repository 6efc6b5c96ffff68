"""Builds (when the sources changed) and loads the facts of /repo's current tree.

The facts are what driver/ (a rustc_private driver run under cargo check) dumped: the MIR of every
body as built from the type-checked program, the ADTs, the trait impls, the coroutines' saved
locals. A fact file is reused only if every byte of the analysed sources and of the driver is
the same as when it was made."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, ".build"))
FEATURES = "integration,avro,system-metrics"
sys.path.insert(0, HERE)


class EngineError(Exception):
    pass


def _hash_tree():
    h = hashlib.sha256()
    files = []
    for root in (f"{REPO}/src", f"{HERE}/driver/src"):
        for d, dirs, fs in os.walk(root):
            dirs.sort()
            for f in sorted(fs):
                files.append(os.path.join(d, f))
    files += [f"{REPO}/Cargo.toml", f"{REPO}/Cargo.lock", f"{REPO}/README.md", f"{HERE}/mkws.py"]
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    h.update(FEATURES.encode())
    return h.hexdigest()[:24]


def _run(cmd, cwd, env, timeout):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def _env():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC", "RUSTC_WORKSPACE_WRAPPER", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    env.update(RUSTC_WRAPPER="", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never")
    return env


def driver_path():
    src = f"{HERE}/driver"
    out = f"{BUILD}/driver"
    env = _env()
    env["CARGO_TARGET_DIR"] = out
    rc, txt = _run(["cargo", "+nightly", "build", "--release", "--offline"], src, env, 600)
    if rc != 0:
        raise EngineError("driver does not build:\n" + txt[-3000:])
    return f"{out}/release/mirfacts"


def build():
    """Returns the path of the fact file for the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(f"{BUILD}/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = _hash_tree()
        out = f"{BUILD}/facts-{key}.json"
        if os.path.exists(out) and os.path.getsize(out) > 1000:
            return out
        import mkws
        mkws.main(REPO, f"{BUILD}/ws")
        drv = driver_path()
        tgt = f"{BUILD}/target"
        # cargo's freshness cache would skip the wrapper: forget the analysed crate.
        for d in ("debug/build/datafusion-distributed", "debug/incremental"):
            shutil.rmtree(f"{tgt}/{d}", ignore_errors=True)
        fp = f"{tgt}/debug/.fingerprint"
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("datafusion-distributed-"):
                    shutil.rmtree(f"{fp}/{d}", ignore_errors=True)
        for f in os.listdir(BUILD):
            if f.startswith("facts-"):
                os.remove(f"{BUILD}/{f}")
        env = _env()
        sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True, env=env).stdout.strip()
        env.update(CARGO_TARGET_DIR=tgt, MIRFACTS_OUT=out, RUSTC_WORKSPACE_WRAPPER=drv,
                   LD_LIBRARY_PATH=f"{sysroot}/lib:" + env.get("LD_LIBRARY_PATH", ""))
        rc, txt = _run(["cargo", "+nightly", "check", "--lib", "--offline", "--features", FEATURES], f"{BUILD}/ws", env, 850)
        if rc != 0 or not os.path.exists(out):
            raise EngineError("the analysed crate does not check:\n" + txt[-4000:])
        return out


SKIP_FILES = re.compile(r"^src/(test_utils/|protocol/grpc/generated/)|/test_utils/|/benchmarks/")


class Body:
    __slots__ = ("j", "P", "path", "file", "line", "argc", "parent", "locals", "blocks", "caps", "coroutine",
                 "trait", "self_ty", "upvars", "_defs", "_succ", "_pred", "_dom", "_pdom", "_reach", "skip", "kind", "names")

    def __init__(self, j, P):
        self.j = j
        self.P = P
        self.path = j["path"]
        self.file = P.files[j["file"]]
        self.line = j["line"]
        self.argc = j["argc"]
        self.parent = j.get("parent")
        self.locals = j["locals"]
        self.blocks = j["blocks"]
        self.caps = j.get("caps")
        self.coroutine = j.get("coroutine")
        self.trait = j.get("trait")
        self.self_ty = j.get("self_ty")
        self.upvars = j["upvars"]
        self.kind = j["kind"]
        self._defs = self._succ = self._pred = self._dom = self._pdom = self._reach = None
        self.names = {i: l[1] for i, l in enumerate(self.locals) if len(l) > 1}

    def ty(self, local):
        return self.locals[local][0]

    def __repr__(self):
        return f"<{self.path}>"

    # --- CFG
    def succs(self, b):
        if self._succ is None:
            self._succ = [self._term_succ(i) for i in range(len(self.blocks))]
        return self._succ[b]

    def _term_succ(self, i):
        t = self.blocks[i][1]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            out = [x[1] for x in t[2]]
            if t[3] not in out:
                out.append(t[3])
            return list(dict.fromkeys(out))
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        if k == "yield":
            return [t[2]]
        return []

    def preds(self, b):
        if self._pred is None:
            self._pred = [[] for _ in self.blocks]
            for i in self.reachable():
                for s in self.succs(i):
                    self._pred[s].append(i)
        return self._pred[b]

    def reachable(self):
        if self._reach is None:
            self._reach = self.reach_from(0)
        return self._reach

    def reach_from(self, b, stop=()):
        """Blocks reachable from b (b included), not going through blocks of `stop` (which are included when met)."""
        seen = {b}
        todo = [b]
        while todo:
            x = todo.pop()
            if x in stop and x != b:
                continue
            for s in self.succs(x):
                if s not in seen:
                    seen.add(s)
                    todo.append(s)
        return seen

    def dom(self):
        """Immediate dominators."""
        if self._dom is None:
            order, seen = [], set()

            def dfs(r):
                st = [(r, iter(self.succs(r)))]
                seen.add(r)
                while st:
                    x, it = st[-1]
                    for s in it:
                        if s not in seen:
                            seen.add(s)
                            st.append((s, iter(self.succs(s))))
                            break
                    else:
                        order.append(x)
                        st.pop()

            dfs(0)
            order.reverse()
            idx = {b: i for i, b in enumerate(order)}
            idom = {0: 0}
            ch = True
            while ch:
                ch = False
                for b in order[1:]:
                    new = None
                    for p in self.preds(b):
                        if p in idom:
                            if new is None:
                                new = p
                            else:
                                a, c = p, new
                                while a != c:
                                    while idx[a] > idx[c]:
                                        a = idom[a]
                                    while idx[c] > idx[a]:
                                        c = idom[c]
                                new = a
                    if new is not None and idom.get(b) != new:
                        idom[b] = new
                        ch = True
            self._dom = idom
        return self._dom

    def dominators(self, b):
        d = self.dom()
        out = [b]
        while b in d and d[b] != b:
            b = d[b]
            out.append(b)
        return out

    def dominates(self, a, b):
        return a in self.dominators(b)

    def returns(self):
        return [b for b in self.reachable() if self.blocks[b][1][0] == "ret"]

    # --- definitions
    def defs(self):
        """local -> list of (block, stmt index or -1 for the terminator, projection, rhs)
        rhs: ('rv', rvalue) | ('call', terminator) | ('yield',)"""
        if self._defs is None:
            d = {}
            for b in sorted(self.reachable()):
                sts, t, ln = self.blocks[b][:3]
                for i, st in enumerate(sts):
                    if st[0] == "=":
                        d.setdefault(st[1][0], []).append((b, i, st[1][1], ("rv", st[2])))
                if t[0] == "call":
                    d.setdefault(t[3][0], []).append((b, -1, t[3][1], ("call", t)))
                elif t[0] == "yield":
                    d.setdefault(t[3][0], []).append((b, -1, t[3][1], ("yield",)))
            self._defs = d
        return self._defs

    def calls(self):
        for b in sorted(self.reachable()):
            t = self.blocks[b][1]
            if t[0] == "call":
                yield b, t

    def assigns(self):
        for b in sorted(self.reachable()):
            for i, st in enumerate(self.blocks[b][0]):
                if st[0] == "=":
                    yield b, i, st


def callee(t):
    """(path, resolved path or None, fn json) of a call terminator; path None for calls through values."""
    f = t[1]
    if f[0] == "fn":
        return f[1]["p"], f[1].get("r"), f[1]
    return None, None, None


def callee_name(t):
    p, r, _ = callee(t)
    return r or p


class Program:
    def __init__(self, facts_path):
        d = json.load(open(facts_path, encoding="utf-8"))
        self.files = d["files"]
        self.tys = d["tys"]
        if d["missing"]:
            raise EngineError(f"bodies without MIR: {d['missing']}")
        self.adts = {a["path"]: a for a in d["adts"] if a}
        self.impls = d["impls"]
        self.witnesses = {p: w for p, w in d["witnesses"]}
        self.bodies = {}
        for j in d["bodies"]:
            b = Body(j, self)
            b.skip = bool(SKIP_FILES.search(b.file)) or bool(j.get("derived")) or not b.file.startswith("src/")
            self.bodies[b.path] = b
        self.all = list(self.bodies.values())
        self.own = [b for b in self.all if not b.skip]
        self.children = {}
        for b in self.all:
            if b.parent:
                self.children.setdefault(b.parent, []).append(b)
        self._callers = None
        self.facts_path = facts_path

    def ty_s(self, i):
        return self.tys[i]["s"]

    def impl_methods(self, trait, method):
        """Bodies of the local impls of trait::method."""
        out = []
        for im in self.impls:
            if im["trait"] == trait or (im["trait"] or "").rsplit("::", 1)[-1] == trait:
                for nm, p in im["items"]:
                    if nm == method and p in self.bodies:
                        out.append(self.bodies[p])
        return out

    def callers(self):
        """path -> [(body, block)] of the direct call sites (resolved callee)."""
        if self._callers is None:
            m = {}
            for b in self.all:
                for blk, t in b.calls():
                    p, r, _ = callee(t)
                    for x in {p, r} - {None}:
                        m.setdefault(x, []).append((b, blk))
            self._callers = m
        return self._callers

    def find(self, suffix):
        return [b for b in self.all if b.path.endswith(suffix)]


_P = None


def program():
    global _P
    if _P is None:
        _P = Program(build())
    return _P
