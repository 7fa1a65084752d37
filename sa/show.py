import sys, json
sys.path.insert(0, "/verif/sa")
import mir, flow
P = mir.Prog(tuple(json.load(open("/tmp/facts/all.json"))[k] for k in ("lib", "bin")))
def F(path, **k):
    a = k.pop("assume", None); ar = k.pop("args", None)
    return flow.Flow(mir.Inliner(P, **k).run(path), assume=a, args=ar)
def fmt(t, d=0):
    if not isinstance(t, tuple): return repr(t)
    if not t: return "()"
    h=t[0]
    if isinstance(h, tuple): return "["+", ".join(fmt(x,d+1) for x in t)+"]"
    if d>9: return "…"
    f=lambda x: fmt(x,d+1)
    if h=="arg": return "arg%d"%t[1]
    if h=="c": return repr(t[1])
    if h=="fld": return f(t[1])+"."+t[2]
    if h=="var": return f(t[1])+"@"+t[2]
    if h=="elem": return "elem(%s)"%f(t[1])
    if h=="call": return "%s%s(%s)"%(t[1].rsplit("::",1)[-1],"" if t[3] is None else "#%s"%t[3],", ".join(map(f,t[2])))
    if h=="agg": return "%s{%s}"%(t[1] or "",", ".join(a+":"+f(b) for a,b in t[2]))
    if h=="bin": return "(%s %s %s)"%(f(t[2]),t[1],f(t[3]))
    if h=="phi": return "φ%d"%(abs(hash(t))%10000)
    return h+"("+", ".join(fmt(x,d+1) for x in t[1:])+")"
def dump(fl):
    for c in fl.calls:
      if "STATIC_MAX_LEVEL" not in str(c.args): print(c.blk, c.span[1], c.path, [fmt(a) for a in c.args], "->", fmt(c.dest))
    for w in fl.writes: print("W",w.blk,w.span[1],fmt(w.root),w.proj,fmt(w.val))
    print("panics",[(p[0],p[1],p[2][:2]) for p in fl.panics]); print("ret",fmt(fl.ret()) if fl.ret() else None)
if __name__=="__main__":
    import time
    t=time.time(); fl=F(sys.argv[1]); print(time.time()-t,len(fl.ib.blocks)); dump(fl)
    import io,contextlib
    used=set()
    def w(x):
        if isinstance(x,tuple):
            if x and x[0]=="phi":
                if x in used: return
                used.add(x)
                for y in fl.phis.get(x[1:],()): w(y)
            for y in x: w(y)
    for c in fl.calls: w(c.args)
    for c in fl.writes: w(c.val)
    w(fl.ret() or ())
    for k,v in fl.phis.items():
      if ("phi",)+k in used:
        print("φ%d"%(abs(hash(("phi",)+k))%10000),k,[fmt(x) for x in v])
