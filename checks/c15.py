"""Aggregation arithmetic.  Value::add, Telemetry's +=, insert and the observers are
analysed once per combination of value kinds with the dataflow specialised to that
combination, and the resulting value is compared, as a term over the operands, with
the table of what aggregation means."""
from rules import *

V = "metric::telemetry::"
KINDS = ("Set", "Sum", "Histogram", "Quantiles")
ADDERS = ("insert", "add_assign", "push", "extend", "merge")
READS = ("sum", "count", "into_vec", "iter", "into_iter", "next", "clone", "deref", "cma", "query", "unwrap_or", "collect", "replace", "default", "begin_panic")


def last(c):
    return c.path.rsplit("::", 1)[-1]


def fld(x, *ns):
    for n in ns:
        x = ("var", x, n[1:]) if n.startswith("@") else ("fld", x, n)
    return x


def get(fl, t, *ns):
    for n in ns:
        t = fl.proj({}, t, ("d", n[1:]) if n.startswith("@") else ("f", n))
    return t


def plus(t, a, b):
    return t[0] == "bin" and t[1] == "Add" and {t[2], t[3]} == {a, b} and (a != b or t[2] == t[3])


def arm(fl, t, kind):
    """payload of the returned value if it is of the given kind"""
    return t is not None and t[0] == "agg" and t[1] == kind


def touches(fl, objs):
    """[(callee, receiver, argument)] of the calls that may alter one of objs"""
    return sorted({(last(c), c.args[0], c.args[1] if len(c.args) > 1 else None) for c in fl.calls
                   if c.args and c.args[0] in objs and last(c) not in READS}, key=repr)


def always(fl, name, recv, arg):
    b = [c.blk for c in fl.calls if last(c) == name and c.args[0] == recv and (len(c.args) > 1 and c.args[1] == arg)]
    once = not must_reach(fl, succs(fl, b), [], b)
    return bool(b) and once and not (reach(fl, [0], avoid=b) & set(fl.ret_blocks))


def run(cx):
    add(cx)
    assign(cx)
    insert(cx)
    observe(cx)


def add(cx):
    p = cx.method("std::ops::Add", r"^metric::telemetry::Value$", "add")
    A, B = ("arg", 1), ("arg", 2)
    n = 0
    for a in KINDS:
        for b in KINDS:
            n += 1
            fl = cx.flow(p, assume={A: a, B: b}, key=(a, b))
            r = fl.ret()
            ok, why = cell(fl, r, a, b, A, B)
            cx.ob("add", "%s + %s" % (a, b), ok, "%s: result is %s" % (why, fmt(r) if r else None))
    cx.floor("kind pairs", n, 16)


def scalar(x, k):
    return fld(x, "@" + k, "0")


def cell(fl, r, a, b, A, B):
    # the operands' parts
    ha, hb = fld(A, "@Histogram", "0"), fld(B, "@Histogram", "0")
    qa, qb = fld(A, "@Quantiles", "ckms"), fld(B, "@Quantiles", "ckms")
    sa, sb = fld(A, "@Quantiles", "sum"), fld(B, "@Quantiles", "sum")
    t = touches(fl, {ha, hb, qa, qb})
    if b == "Set":
        return arm(fl, r, "Set") and get(fl, r, "0") == scalar(B, "Set"), "a Set on the right replaces the value"
    if b == "Sum":
        if not arm(fl, r, "Sum"):
            return False, "a Sum on the right yields a Sum"
        v = get(fl, r, "0")
        y = scalar(B, "Sum")
        if a in ("Set", "Sum"):
            return plus(v, scalar(A, a), y), "the two are added"
        if a == "Quantiles":
            return plus(v, sa, y), "the summary's sum is carried over"
        if v[0] == "bin" and v[1] == "Add" and y in (v[2], v[3]):
            o = v[3] if v[2] == y else v[2]
            return histo_sum(fl, o, ha), "the histogram's sum is carried over"
        return False, "the histogram's sum is carried over"
    if a in ("Set", "Sum"):
        x = scalar(A, a)
        if b == "Histogram":
            return arm(fl, r, "Histogram") and get(fl, r, "0") == hb and t == [("insert", hb, x)] and always(fl, "insert", hb, x), "the sample joins the histogram"
        return arm(fl, r, "Quantiles") and get(fl, r, "ckms") == qb and plus(get(fl, r, "sum"), x, sb) and t == [("insert", qb, x)] and always(fl, "insert", qb, x), "the sample joins the summary"
    if a == "Histogram" and b == "Histogram":
        return arm(fl, r, "Histogram") and merged(fl, get(fl, r, "0"), ha, hb, t), "the histograms are merged"
    if a == "Histogram":
        return (r == B or arm(fl, r, "Quantiles") and get(fl, r, "ckms") == qb and get(fl, r, "sum") == sb) and not t, "the summary replaces the histogram"
    if b == "Quantiles":
        return arm(fl, r, "Quantiles") and merged(fl, get(fl, r, "ckms"), qa, qb, t) and plus(get(fl, r, "sum"), sa, sb), "the summaries and their sums are merged"
    # Quantiles + Histogram: every sample joins the histogram
    if not (arm(fl, r, "Histogram") and get(fl, r, "0") == hb and len(t) == 1):
        return False, "the summary's samples join the histogram"
    src = [c.dest for c in fl.calls if last(c) == "into_vec" and c.args[0] == qa]
    if not src:
        return False, "the summary's samples join the histogram"
    e = fl.elem(src[0])
    ins = [c.blk for c in fl.calls if last(c) == "insert" and c.args == [hb, e]]
    it = lambda q: q[0] == "call" and q[1].rsplit("::", 1)[-1] == "next" and whole(fl, q[2][0], src[0])
    some = edge_pairs(fl, lambda q, v: v == ("v", "Some") and it(q))
    done = edge_pairs(fl, lambda q, v: v == ("v", "None") and it(q))
    nx = [c.blk for c in fl.calls if it(c.dest)]
    ok = t == [("insert", hb, e)] and bool(some) and bool(done) and not must_reach(fl, [s for _, s in some], ins, nx + fl.ret_blocks)
    ok = ok and not (reach(fl, [0], avoid=[s for _, s in done]) & set(fl.ret_blocks)) and not must_reach(fl, succs(fl, ins), nx, ins)
    return ok, "each of the summary's samples joins the histogram once"


def histo_sum(fl, o, h):
    """h.sum(), or zero when it has none"""
    def sm(x):
        return x[0] == "call" and x[1].endswith("::sum") and x[2] == (h,)
    if o[0] == "call" and o[1].rsplit("::", 1)[-1] in ("unwrap_or", "unwrap_or_default"):
        return sm(o[2][0]) and (len(o[2]) == 1 or is_const(o[2][1], 0.0))
    ph, rest = phi_family(fl, o)
    return len(rest) == 2 and any(is_const(x, 0.0) for x in rest) and any(x[0] == "fld" and x[1][0] == "var" and x[1][2] == "Some" and sm(x[1][1]) for x in rest)


def merged(fl, v, a, b, t):
    """v is a with b added (or b with a added)"""
    if plus(v, a, b):
        return t in ([("add_assign", a, b)], [("add_assign", b, a)], []) or t == [("add", a, b)]
    return v == a and t == [("add_assign", a, b)]


def assign(cx):
    p = cx.method("std::ops::AddAssign", r"^metric::telemetry::Telemetry$", "add_assign")
    ap = cx.method("std::ops::Add", r"^metric::telemetry::Value$", "add")
    fl = cx.flow(p, opaque=(re.escape(ap),))
    A, B = ("arg", 1), ("arg", 2)
    lv, rv = fld(A, "value", "@Some", "0"), fld(B, "value", "@Some", "0")
    adds = [c for c in fl.calls if c.path == ap]
    cx.ob("assign", "operands", bool(adds) and all(c.args == [lv, rv] for c in adds), "the values added are not the old value and the new one, in that order")
    fin = final(fl, A)
    res = adds[0].dest if adds else None
    v = fin.get("value")
    cx.ob("assign", "value", v is not None and all(x[0] == "agg" and x[1] == "Some" and get(fl, x, "0") == res for x in v), "the sum is not what is stored")
    p = fin.get("persist")
    cx.ob("assign", "persist", p is not None and all(x == fld(B, "persist") for x in p), "persistence does not follow the newer point")
    other = set(fin) - {"value", "persist"}
    cx.ob("assign", "identity", not other, "the point's %s changes when another is added" % ", ".join(sorted(other)))


def final(fl, A):
    """{field: values at return} of what changed in the object behind reference A"""
    out = {}
    for b, _, st in fl.terms_at_return:
        names = {w.proj[0][1] for w in fl.writes if w.root == A and w.proj}
        if any(w.root == A and not w.proj for w in fl.writes):
            names |= {"*"}
        for n in names:
            t = fl.read(st, ("t", A), (("f", n),))
            for x in fl.alts(t):
                if x != fld(A, n):
                    out.setdefault(n, set()).add(x)
    return out


def insert(cx):
    A, X = ("arg", 1), ("arg", 2)
    val = fld(A, "value")
    sv = fld(val, "@Some", "0")
    for k in KINDS:
        fl = cx.flow(V + "Telemetry::insert", assume={val: "Some", sv: k}, key=("insert", k))
        r = fl.ret()
        v = get(fl, r, "value", "@Some", "0") if r else None
        h, q = fld(sv, "@Histogram", "0"), fld(sv, "@Quantiles", "ckms")
        t = touches(fl, {h, q})
        if v is None:
            ok = False
        elif k == "Set":
            ok = arm(fl, v, "Set") and get(fl, v, "0") == X and not t
        elif k == "Sum":
            ok = arm(fl, v, "Sum") and plus(get(fl, v, "0"), fld(sv, "@Sum", "0"), X) and not t
        elif k == "Histogram":
            ok = (v == sv or arm(fl, v, k) and get(fl, v, "0") == h) and t == [("insert", h, X)] and always(fl, "insert", h, X)
        else:
            ok = plus(get(fl, v, "@Quantiles", "sum"), fld(sv, "@Quantiles", "sum"), X) and get(fl, v, "@Quantiles", "ckms") == q and t == [("insert", q, X)] and always(fl, "insert", q, X)
        same = r is not None and all(get(fl, r, n) == fld(A, n) for n in ("name", "persist", "tags", "timestamp"))
        # a point that was not reported as a whole takes samples
        alive = [p for p in trace(fl) or () if not any(t in (fld(A, "override_count"), fld(A, "override_sample_sum")) and f != ("v", "None") for t, f in p.facts.items())]
        cx.ob("insert", k + " taken", bool(alive), "no sample can be inserted")
        cx.ob("insert", k, ok and same, "inserting a sample does not leave the value its kind calls for")


def observe(cx):
    A = ("arg", 1)
    val = fld(A, "value")
    sv = fld(val, "@Some", "0")
    SOME, NONE = lambda fl, r: r is not None and r[0] == "agg" and r[1] == "Some", lambda fl, r: r is not None and r[0] == "agg" and r[1] == "None"
    oc, os = fld(A, "override_count"), fld(A, "override_sample_sum")
    for k in KINDS:
        h, q = fld(sv, "@Histogram", "0"), fld(sv, "@Quantiles", "ckms")
        def f(m, extra=()):
            d = {val: "Some", sv: k}
            d.update(extra)
            fl = cx.flow(V + "Telemetry::" + m, assume=d, key=(m, k, tuple(sorted(extra))) if extra else (m, k))
            return fl, fl.ret()
        for m, kk in (("sum", "Sum"), ("set", "Set")):
            fl, r = f(m)
            ok = SOME(fl, r) and get(fl, r, "0") == fld(sv, "@" + kk, "0") if k == kk else NONE(fl, r)
            cx.ob("observe", "%s(%s)" % (m, k), ok, "%s() of a %s is not the stored value exactly when it has that kind" % (m, k))
        fl, r = f("kind")
        cx.ob("observe", "kind(%s)" % k, r is not None and r[0] == "agg" and r[1] == {"Quantiles": "Summarize"}.get(k, k), "the kind is misreported")
        for m, kk in (("is_set", "Set"), ("is_sum", "Sum"), ("is_histogram", "Histogram"), ("is_summarize", "Quantiles")):
            if V + "Telemetry::" + m in cx.prog.bodies:
                fl, r = f(m)
                try:
                    ok = evalt(r, lambda t: KINDS.index({"Summarize": "Quantiles"}.get(t[1], t[1])) if t[0] == "agg" and not t[2] else None) == (k == kk)
                except (Unknown, Overflow, ValueError):
                    ok = False
                cx.ob("observe", "%s(%s)" % (m, k), ok, "%s() is wrong" % m)
        fl, r = f("bins")
        ok = SOME(fl, r) and whole(fl, get(fl, r, "0"), h) if k == "Histogram" else NONE(fl, r)
        cx.ob("observe", "bins(%s)" % k, ok, "the bins are not those of the histogram")
        fl, r = f("count", {oc: "None"})
        want = {"Histogram": h, "Quantiles": q}.get(k)
        ok = is_const(r, 1) if want is None else r is not None and r[0] == "call" and r[1].endswith("::count") and r[2] == (want,)
        cx.ob("observe", "count(%s)" % k, ok, "the number of samples is misreported")
        fl, r = f("count", {oc: "Some"})
        cx.ob("observe", "count(%s) reported" % k, r is not None and strip(r, "cast") == fld(oc, "@Some", "0"), "a reported number of samples is ignored")
        fl, r = f("samples_sum", {os: "None"})
        if k == "Quantiles":
            ok = SOME(fl, r) and get(fl, r, "0") == fld(sv, "@Quantiles", "sum")
        elif k == "Histogram":
            ok = r is not None and r[0] == "call" and r[1].endswith("::sum") and r[2] == (h,)
        else:
            ok = NONE(fl, r)
        cx.ob("observe", "samples_sum(%s)" % k, ok, "the sum of the samples is misreported")
        if k == "Quantiles":
            fl, r = f("samples_sum", {os: "Some"})
            ok = r == os or SOME(fl, r) and get(fl, r, "0") == fld(os, "@Some", "0")
            cx.ob("observe", "samples_sum(%s) reported" % k, ok, "a reported sum of samples is ignored")
            fl, r = f("query")
            qs = [c for c in fl.calls if c.path.endswith("::query")]
            cx.ob("observe", "query", len(qs) == 1 and qs[0].args == [q, ("arg", 2)] and r is not None and all(x[0] == "agg" and (x[1] == "None" or get(fl, x, "0") == fld(qs[0].dest, "@Some", "0", "1")) for x in fl.alts(r)), "a quantile is not the summary's answer for the asked rank")
        if k in ("Histogram", "Quantiles"):
            fl, r = f("mean")
            cx.ob("observe", "mean(%s)" % k, r is not None and means(fl, h, q, k), "the mean is not that of the samples")
        fl, r = f("samples")
        if k == "Quantiles":
            cx.ob("observe", "samples(%s)" % k, r is not None and r[0] == "call" and r[1].endswith("::into_vec") and strip_clone(r[2][0]) == q, "the samples are not those of the summary, all of them")
        elif k == "Histogram":
            src = r[2] if r is not None and r[0] == "iterop" and r[1] == "map" else r
            cx.ob("observe", "samples(%s)" % k, src is not None and src[0] == "call" and src[1].endswith("::into_vec") and strip_clone(src[2][0]) == h, "the samples are not those of the histogram, all of them")
        fl, r = f("is_zeroed")
        ok = r is not None and r[0] == "bin" and r[1] == "Eq" and (
            (k in ("Set", "Sum") and {r[2], r[3]} == {("c", 0.0), fld(sv, "@" + k, "0")}) or
            (want is not None and any(x[0] == "call" and x[1].endswith("::count") and x[2] == (want,) for x in (r[2], r[3])) and ("c", 0) in (r[2], r[3])))
        cx.ob("observe", "is_zeroed(%s)" % k, ok, "a zeroed point is not recognised as such")


def strip_clone(t):
    while t[0] == "call" and t[1].rsplit("::", 1)[-1] == "clone":
        t = t[2][0]
    return t


def means(fl, h, q, k):
    """sum over count of a histogram's samples, the running mean of a summary's; nothing for none"""
    n = 0
    for p in trace(fl) or ():
        if p.end not in fl.ret_blocks:
            continue
        r = p.ret
        if r == ("c", 0.0):
            continue
        if k == "Histogram":
            if not (r[0] == "bin" and r[1] == "Div"):
                return False
            a, b = r[2], strip(r[3], "cast")
            ok = a == fld(("call", a[1][1][1], (h,), None), "@Some", "0") if a[0] == "fld" and a[1][0] == "var" and a[1][1][0] == "call" else False
            ok = ok and a[1][1][1].endswith("::sum") and b[0] == "call" and b[1].endswith("::count") and b[2] == (h,)
        else:
            x = r[2][0] if r[0] == "call" and r[1].endswith("::unwrap_or") and r[2][1] == ("c", 0.0) else r[1][1] if r[0] == "fld" and r[1][0] == "var" and r[1][2] == "Some" else ("?",)
            ok = x[0] == "call" and x[1].endswith("::cma") and x[2] == (q,)
        if not ok:
            return False
        n += 1
    return n > 0
