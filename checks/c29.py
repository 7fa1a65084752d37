"""What the wavefront and influxdb sinks send: the lines written for each kind of point,
gathered path by path with loops collapsed to what one round writes."""
from rules import *
from text import Text, norm, render, failed
import text

INF, WAV = "sink::influxdb::", "sink::wavefront::"
A = ("arg", 1)
TEL = (r"^metric::", r"^<metric::", r"^time::", r"^<buckets::", r"^buckets::")
QS = (0.25, 0.50, 0.75, 0.90, 0.99, 1.0)
KINDS = {"Sum", "Set", "Histogram", "Summarize"}
NS = 1_000_000_000


def last(p):
    return p.rsplit("::", 1)[-1]


def call(t, *names):
    return isinstance(t, tuple) and len(t) > 2 and t[0] == "call" and last(t[1]) in names


def run(cx):
    influx(cx)
    wavefront(cx)
    for m in (INF, WAV):
        cache(cx, m)


def some(t):
    return ("fld", ("var", t, "Some"), "0")


class Names:
    """labels of the terms that belong in the lines of one point"""

    def __init__(self, fl, T, V, tags, percentiles, ts):
        self.fl, self.V, self.percentiles, self.ts = fl, V, percentiles, ts
        self.TAGS = ("call", "tags", (V, tags))
        self.BINS = some(("call", "bins", (V,)))
        self.TE = [norm(M.elem) for M in T.loops if norm(M.it) == self.TAGS]

    def __call__(self, t):
        V = self.V
        if t == ("fld", V, "name"):
            return "name"
        if t[0] == "in":
            s = t[1]
            return "tags" if s == self.TAGS else "bins" if s == self.BINS else "percentiles" if self.percentiles(s) else None
        for k in ("sum", "set"):
            if t == some(("call", k, (V,))):
                return k
        if t[0] == "call" and len(t) == 3 and t[2] == (V,) and t[1] in ("count", "mean"):
            return t[1]
        if self.ts(t):
            return "ts"
        if t[0] == "fld" and t[1] == ("E", self.TAGS):
            return {"0": "k", "1": "v"}.get(t[2])
        if t[0] == "fld" and t[1] in self.TE:
            return {"0": "k0", "1": "v0"}.get(t[2])
        B = ("E", self.BINS)
        if t == ("fld", ("var", ("fld", B, "0"), "Finite"), "0"):
            return "bound"
        if t in (("fld", B, "1"), ("cast", "f64", ("fld", B, "1"))):
            return "n"
        if t[0] == "E" and self.percentiles(t[1]):
            return "p"
        if t[0] == "fld" and t[1][0] == "E" and self.percentiles(t[1][1]):
            return {"0": "p", "1": "at p"}.get(t[2])
        if t[0] == "fld" and t[2] == "0" and t[1][0] == "var" and t[1][2] == "Some" and call(t[1][1], "query"):
            q = t[1][1]
            if q[2][0] == V and len(q[2]) == 2 and (q[2][1][0] == "E" and self.percentiles(q[2][1][1]) or self(q[2][1]) == "at p"):
                return "value at p"
        return None


def lines(cx, rule, fl, T, ps, heads, out, V, mk, want, first):
    """compare what is written for a point on each path with the lines of its kind"""
    kinds = set()
    for i, (q, bufs) in enumerate(ps):
        where = at(fl, q.blocks[-2])
        if q.end not in heads:
            cx.ob(rule, "all of it #%d" % i, failed(q), "points are left out", where)
            continue
        v = V(q)
        F = {norm(t): x for t, x in q.facts.items()}
        k = F.get(("call", "kind", (v,))) if v is not None else None
        if not cx.ob(rule, "kind #%d" % i, k is not None and k[0] == "v", "a point is written without a look at its kind", where):
            continue
        k = k[1]
        kinds.add(k)
        lab = mk(v)
        txt = render(bufs.get(out, ()), lab)
        left = {b: x for b, x in bufs.items() if b != out and x}
        cx.ob(rule, "%s #%d left over" % (k, i), not any(outside(fl, b, q) for b in left), "what was written for one point is left over for the next", where)
        gone = {"Sum": "sum", "Set": "set", "Histogram": "bins"}.get(k)
        if gone and F.get(("call", gone, (v,))) == ("v", "None"):
            cx.ob(rule, "%s of nothing #%d" % (k, i), txt == "", "something is written for no value", where)
            continue
        tl = [M for M in T.loops if norm(M.it) == lab.TAGS]
        edges_ = {e for M in tl for e in M.some}
        drawn = any(e in edges_ for e in zip(q.blocks, q.blocks[1:]))
        if first:
            cx.ob(rule, "%s #%d tags" % (k, i), any(call(t, "next") and any(x == lab.TAGS for x in flow.subterms(t)) for t in F), "a point is written without a look at its tags", where)
        cx.ob(rule, "%s #%d" % (k, i), txt in want(k, drawn), "a point is not written as its kind is: %r" % (txt[:260],), where)
    cx.floor(rule + " kinds", len(kinds), 4)


def outside(fl, b, q):
    """a buffer made elsewhere than on this path"""
    return not any(c.dest == b for c in q.calls)


def influx(cx):
    p = INF + "InfluxDB::format_stats"
    rule = "influxdb"
    if not cx.ob("site", rule, p in cx.prog.bodies, "the code that writes lines is not found"):
        return
    fl = cx.flow(p, opaque=TEL + (r"get_from_cache$",))
    OUT = ("arg", 2)
    T = Text(fl, OUT)
    outer = [L for L in T.loops if whole(fl, L.it, ("arg", 3))]
    if not cx.ob("site", rule + " loop", len(outer) == 1, "the loop over the points is not found"):
        return
    L = outer[0]
    ps = T.paths(L.some, tuple(L.next))
    if not cx.ob("site", rule + " paths", bool(ps) and not T.bad, "what is written is not understood: %s" % (T.bad[:1],)):
        return
    E = norm(L.elem)

    def ts(t):
        t = t[2] if t[0] == "cast" and t[1] in ("u64", "i64") else t
        return t[0] == "call" and t[1] == "saturating_mul" and set(t[2]) == {("fld", E, "timestamp"), ("c", NS)}

    def quant(s):
        return s[0] == "arr" and all(x[0] == "c" for x in s[1]) and tuple(x[1] for x in s[1]) == QS
    tags = "(tags: ,<k>=<v>)*"

    def want(k, drawn):
        l = lambda n, v: "<name>%s%s value=%s <ts>\n" % (n, tags, v)
        if k in ("Sum", "Set"):
            return (l("", "<%s>" % k.lower()),)
        if k == "Histogram":
            return ("(bins: [Finite]%s | [PosInf]%s)*" % (l(".le_<bound>", "<n>"), l(".le_inf", "<n>")),)
        return ("(percentiles: %s | [None])*" % l(".<p>", "<value at p>"),)
    lines(cx, rule, fl, T, ps, set(L.next), OUT, lambda q: E, lambda v: Names(fl, T, v, ("fld", A, "tags"), quant, ts), want, None)
    cx.ob(rule, "whole", L.complete(), "points are left out")
    before = [(q, b) for q, b in T.paths(None, tuple(L.next)) or ()]
    cx.ob(rule, "start", bool(before) and all(not x for _, b in before for x in b.values()), "something is written that is no point")
    after = [(q, b) for q, b in T.paths(L.done, ()) or ()]
    cx.ob(rule, "end", bool(after) and all(not x for _, b in after for x in b.values()), "something is written that is no point")


def wavefront(cx):
    p = WAV + "Wavefront::format_stats"
    rule = "wavefront"
    if not cx.ob("site", rule, p in cx.prog.bodies, "the code that writes lines is not found"):
        return
    fl = cx.flow(p, opaque=TEL + (r"get_from_cache$", r"^sink::wavefront::padding$", r"^<sink::wavefront::Padding", r"^sink::wavefront::Pad::"))
    OUT = ("fld", A, "stats")
    T = Text(fl, OUT)
    outer = [L for L in T.loops if call(L.it, "padding")]
    if not cx.ob("site", rule + " loop", len(outer) == 1, "the loop over the points is not found"):
        return
    L = outer[0]
    ps = T.paths(L.some, tuple(L.next))
    if not cx.ob("site", rule + " paths", bool(ps) and not T.bad, "what is written is not understood: %s" % (T.bad[:1],)):
        return
    E = norm(L.elem)
    X, Z = ("fld", ("var", E, "Telem"), "0"), ("fld", ("var", E, "Zero"), "0")
    AT = ("fld", ("var", E, "Zero"), "1")
    zeros = {}

    def zero(t):
        """the point that stands for nothing at a time: its own name and tags, at that time, worth nothing"""
        if t not in zeros:
            ok = call(t, "timestamp") and t[2][1] == AT
            x = t[2][0] if ok else t
            while ok and x[0] in ("fld", "var"):
                x = x[1]
            ok = ok and call(x, "harden") and call(x[2][0], "value") and x[2][0][2][1] == ("c", 0.0) and call(x[2][0][2][0], "thaw") and x[2][0][2][0][2][0] == Z
            zeros[t] = bool(ok)
        return zeros[t]

    def V(q):
        F = {norm(t): v for t, v in q.facts.items()}
        e = F.get(E)
        if e == ("v", "Telem"):
            return X
        if e == ("v", "Zero"):
            zs = {t[2][0] for t in F if t[0] == "call" and t[1] == "kind"}
            zs = {z for z in zs if zero(z)}
            return zs.pop() if len(zs) == 1 else None

    def mk(v):
        P = ("fld", A, "percentiles")
        return Names(fl, T, v, ("fld", A, "tags"), lambda s: s == P, lambda t: t == ("fld", v, "timestamp") or zero(v) and t == AT)

    def want(k, drawn):
        def forms(tags):
            l = lambda n, v: "<name>%s %s <ts> %s\n" % (n, v, tags)
            if k in ("Sum", "Set"):
                return l("", "<%s>" % k.lower())
            if k == "Histogram":
                return "(bins: [Finite]%s | [PosInf]%s)*" % (l("_<bound>", "<n>"), l("_pos_inf", "<n>"))
            return "(percentiles: %s)*" % l(".<p>", "<value at p>") + l(".count", "<count>") + l(".mean", "<mean>")
        return (forms("<k0>=<v0>(tags:  <k>=<v>)*" if drawn else ""),)
    lines(cx, rule, fl, T, ps, set(L.next), OUT, V, mk, want, True)
    cx.ob(rule, "whole", L.complete(), "points are left out")


def cache(cx, m):
    p = m + "get_from_cache"
    if p not in cx.prog.bodies:
        return
    fl = cx.flow(p, opaque=(re.escape(p) + "$",))
    C, V = ("arg", 1), ("arg", 2)
    out = [q for q in trace(fl, cycles=1) or () if q.ret is not None]
    rule = "cache"
    cx.ob(rule, m + " code", len(out) >= 2, "the cache of displayed values is not understood")
    for i, q in enumerate(out):
        se = [(t, v) for t, v in q.facts.items() if call(t, "binary_search_by", "binary_search_by_key", "position", "find")]
        muts = [c for c in q.calls if c.args and c.args[0] == C and last(c.path) in ("insert", "push", "clear", "truncate", "remove", "pop", "swap_remove", "drain", "retain", "sort_by", "reverse")]
        if not cx.ob(rule, "%s #%d looked up" % (m, i), len(se) == 1 and se[0][1][0] == "v", "a value is not looked up in the cache"):
            continue
        S, v = se[0]
        idx = ("fld", ("var", S, v[1]), "0")
        found = ("fld", ("call", "index", (C, norm(idx))), "1")
        if v[1] in ("Ok", "Some"):
            cx.ob(rule, "%s #%d found" % (m, i), not muts and norm(q.ret) == found, "what is handed out is not the value asked for")
            continue
        ok = len(muts) == 1 and last(muts[0].path) in ("insert", "push")
        if ok:
            e = muts[0].args[-1]
            d = dict(e[2]) if e[0] == "agg" else {}
            ok = d.get("0") == V and norm(d.get("1", ())) == ("call", "to_string", (V,)) and (last(muts[0].path) == "insert" and muts[0].args[1] == idx or last(muts[0].path) == "push" and call(S, "position", "find"))
        cx.ob(rule, "%s #%d kept" % (m, i), ok, "a value is not kept with what it displays as")
        cx.ob(rule, "%s #%d new" % (m, i), norm(q.ret) == found, "what is handed out for a new value is not that value: a value that equals nothing is looked for for ever")
    # the order looked up by: equal only what is equal, and no value that cannot be compared ends it
    cl = [b for n, b in cx.prog.bodies.items() if n.startswith(p + "::{{closure}}")]
    for n in [n for n in cx.prog.bodies if n.startswith(p + "::{{closure}}")]:
        g = cx.flow(n)
        cx.ob(rule, n + " total", not g.panics and not g.asserts and not any(last(c.path) in ("unwrap", "expect") for c in g.calls), "a value that compares to none (NaN) ends the sink")
        for q in trace(g) or ():
            if q.ret is None:
                continue
            pc = [t for t in q.facts if call(t, "partial_cmp")]
            r = q.ret
            if call(r, "cmp", "partial_cmp") or r[0] == "fld" and call(r[1][1] if r[1][0] == "var" else r[1], "partial_cmp"):
                good = True  # the order of the two, as it is
            else:
                good = bool(pc) and r in (("agg", "Less", ()), ("agg", "Greater", ())) and all(q.facts[t] == ("v", "None") for t in pc)
            cx.ob(rule, n + " order", good, "values that are not equal are looked up as if they were")
