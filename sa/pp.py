"""Pretty printer of fact bodies (a development tool)."""
import sys
from .facts import program, callee_name
def op(o):
    if o[0] in "cm" : return ("move " if o[0]=="m" else "")+place(o[1])
    if o[0]=="fn": return "fn:"+(o[1].get("r") or o[1]["p"])
    k=o[1]; return "const "+str(k.get("v",k.get("vs",k.get("def","?"))))
def place(p):
    s=f"_{p[0]}"
    for x in p[1]:
        if x=="*": s=f"(*{s})"
        elif x[0]=="f": s+=f".{x[2] if len(x)>2 and x[2] is not None else x[1]}"
        elif x[0]=="d": s+=f" as {x[1]}"
        elif x[0]=="i": s+=f"[_{x[1]}]"
        else: s+=str(x)
    return s
def rv(r):
    k=r[0]
    if k=="use": return op(r[1])
    if k in("ref","refm","fake","raw"): return k+" "+place(r[1])
    if k=="cast": return f"{op(r[1])} as {r[3]}"
    if k=="bin": return f"{r[1]}({op(r[2])}, {op(r[3])})"
    if k=="un": return f"{r[1]}({op(r[2])})"
    if k=="discr": return "discr "+place(r[1])
    if k=="agg": return f"{r[1]}({', '.join(op(o) for o in r[2])})"
    return str(r)
def dump(b):
    P=b.P
    print(f"=== {b.path} [{b.kind}] {b.file}:{b.line} argc={b.argc} cor={b.coroutine} parent={b.parent}")
    print("  caps",b.caps,"upvars",b.upvars)
    for i,l in enumerate(b.locals): print(f"  _{i}: {P.ty_s(l[0])[:150]} {l[1] if len(l)>1 else ''}")
    for i in sorted(b.reachable()):
        sts,t,ln=b.blocks[i][:3]
        print(f" bb{i}:")
        for st in sts:
            if st[0]=="=": print(f"    {place(st[1])} = {rv(st[2])}")
            elif st[0]!="dead": print("   ",st)
        k=t[0]
        if k=="call": print(f"    {place(t[3])} = {op(t[1])}({', '.join(op(a) for a in t[2])}) -> {t[4]}   @{t[5]}")
        elif k=="switch": print(f"    switch {op(t[1])} {t[2]} else {t[3]}")
        elif k=="drop": print(f"    drop {place(t[1])} -> {t[2]}")
        elif k=="yield": print(f"    yield {op(t[1])} -> {t[2]} {place(t[3])}")
        else: print("   ",t)
if __name__=="__main__":
    P=program()
    for s in sys.argv[1:]:
        for b in P.all:
            if s in b.path: dump(b)
