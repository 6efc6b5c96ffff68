"""Makes /verif/.build/ws: a shadow cargo workspace for the root crate of /repo.

Only Cargo.toml / Cargo.lock are derived (the member "benchmarks", its dev-dependency
and its git dependencies removed: they cannot be fetched offline). src is a symlink
into /repo, so what is analysed is /repo's current working tree."""
import os, re, sys

BENCH = "datafusion-distributed-benchmarks"
GONE = (BENCH, "tpchgen", "tpchgen-arrow", "datafusion-distributed-cli", "datafusion-distributed-console")


def put(path, text):
    if os.path.islink(path):
        os.remove(path)
    if not os.path.exists(path) or open(path, encoding="utf-8").read() != text:
        with open(path, "w", encoding="utf-8") as f:
            f.write(text)


def main(REPO="/repo", WS=os.path.join(os.path.dirname(os.path.abspath(__file__)), ".build", "ws")):
    os.makedirs(WS, exist_ok=True)
    t = open(f"{REPO}/Cargo.toml", encoding="utf-8").read()
    t = re.sub(rf"(?m)^{BENCH}\s*=.*\n", "", t)
    t = re.sub(r'(?ms)^members\s*=\s*\[.*?\]\n', "", t, count=1)
    put(f"{WS}/Cargo.toml", t)
    lock = open(f"{REPO}/Cargo.lock", encoding="utf-8").read()
    blocks = lock.split("[[package]]\n")
    out = [b for b in blocks if not re.match(rf'name = "({"|".join(GONE)})"\n', b)]
    lock = "[[package]]\n".join(out)
    lock = re.sub(rf'(?m)^ "({"|".join(GONE)})( [^"]*)?",\n', "", lock)
    seen = f"{WS}/.lock-in"
    if not os.path.exists(f"{WS}/Cargo.lock") or not os.path.exists(seen) or open(seen).read() != lock:
        put(f"{WS}/Cargo.lock", lock)
        put(seen, lock)
    for n in ("src", "README.md"):
        p = f"{WS}/{n}"
        if not os.path.islink(p) or os.readlink(p) != f"{REPO}/{n}":
            if os.path.lexists(p):
                os.remove(p)
            os.symlink(f"{REPO}/{n}", p)


if __name__ == "__main__":
    main()
