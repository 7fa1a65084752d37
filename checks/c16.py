"""Telemetry construction.  harden is analysed once per combination of what was set
(value given / kept from thawing / neither / both, kind, error, bounds, name,
timestamp, persist) with the dataflow specialised to it: the combinations that make
no sense are refused on every path, and the others yield a point whose every field
is the one that was set or the documented default.  The setters and thaw are
compared field by field."""
from rules import *
from c15 import fld, get, last

V = "metric::telemetry::"
A = ("arg", 1)
ITEM = {"Set": "Set", "Sum": "Sum", "Histogram": "Histogram", "Summarize": "Quantiles"}


def o(n):
    return fld(A, n)


def some(n):
    return fld(A, n, "@Some", "0")


def run(cx):
    harden(cx)
    setters(cx)
    thaw(cx)
    lines(cx)
    events(cx)


def outcomes(fl):
    """[(facts, result)] path by path (loops folded)"""
    w = walk(fl, [(0, None)], [])
    out = []
    for b, st, tr in w or ():
        if b not in fl.ret_blocks:
            continue
        s = dict(st)
        fl.transfer(b, s, None)
        out.append((facts_of(s), fl.val(s, fl.read(s, ("l", 0), ()))))
    return out


def is_err(fl, r):
    return r[0] == "agg" and r[1] == "Err"


def harden(cx):
    n = 0
    for iv in ("Some", "None"):
        for tv in ("Some", "None"):
            for err in ("Some", "None"):
                for bnd in ("Some", "None"):
                    for kind in (None, "Set", "Sum", "Histogram", "Summarize"):
                        a = {o("initial_value"): iv, o("thawed_value"): tv, o("error"): err, o("bounds"): bnd, o("kind"): "None" if kind is None else "Some"}
                        if kind:
                            a[some("kind")] = kind
                        fl = cx.flow(V + "SoftTelemetry::harden", assume=a, key=("harden", iv, tv, err, bnd, kind))
                        n += 1
                        one(cx, fl, iv == "Some", tv == "Some", err == "Some", bnd == "Some", kind or "Set", kind)
    cx.floor("combinations", n, 80)


def one(cx, fl, iv, tv, err, bnd, kind, given):
    name = "%s%s%s%s %s" % ("value " if iv else "", "thawed " if tv else "", "error " if err else "", "bounds " if bnd else "", given or "(no kind)")
    rs = outcomes(fl)
    if not cx.ob("decided", name, bool(rs), "harden could not be followed"):
        return
    why = None
    if iv and tv:
        why = "two values are accepted"
    elif not iv and not tv:
        why = "a point without a value is accepted"
    elif err and kind != "Summarize":
        why = "an error bound is accepted for a %s" % kind
    elif bnd and kind != "Histogram":
        why = "bin bounds are accepted for a %s" % kind
    if why:
        cx.ob("refused", name, all(is_err(fl, r) for f, r in rs), why)
        return
    E = some("error")
    oks = 0
    for f, r in rs:
        big = None
        for t, v in f.items():
            b = ge1(t, v, E)
            if b is not None:
                big = b
        if f.get(o("name")) == ("v", "None"):
            cx.ob("refused", name + " no name", is_err(fl, r), "a point without a name is accepted")
            continue
        if err and kind == "Summarize" and big is not False:
            cx.ob("refused", name + " error too large", is_err(fl, r), "an error bound of one or more is accepted")
            continue
        if r[0] != "agg" or r[1] != "Ok":
            cx.ob("accepted", name, False, "a sensible point is refused: " + fmt(r))
            continue
        oks += 1
        t = get(fl, r, "0")
        good(cx, fl, name, f, t, iv, err, bnd, kind)
    cx.ob("accepted", name, oks > 0, "a sensible point is never accepted")


def ge1(t, v, E):
    if t[0] != "bin" or v[0] != "c":
        return None
    op, a, b, tr = t[1], t[2], t[3], v[1]
    if b == E:
        a, b = b, a
        op = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(op, op)
    if a != E or not is_const(b, 1.0):
        return None
    return {"Ge": tr, "Lt": not tr}.get(op)


def good(cx, fl, name, f, t, iv, err, bnd, kind):
    def is_(n, want):
        cx.ob("field", "%s: %s" % (name, n), want, "the hardened point's %s is not what was set: %s" % (n, fmt(get(fl, t, n))))
    is_("name", get(fl, t, "name") == some("name"))
    is_("tags", get(fl, t, "tags") == o("tags"))
    ts, ps = get(fl, t, "timestamp"), get(fl, t, "persist")
    now = is_now(ts)
    dflt = lambda n: {"Some": True, "None": False}.get((f.get(o(n)) or (0, 0))[1])
    is_("timestamp", ts == some("timestamp") if dflt("timestamp") else now if dflt("timestamp") is False else chosen(fl, ts, o("timestamp"), is_now))
    is_("persist", ps == some("persist") if dflt("persist") else is_const(ps, False) if dflt("persist") is False else chosen(fl, ps, o("persist"), lambda x: is_const(x, False)))
    v = get(fl, t, "value")
    if kind == "Summarize":
        is_("override_count", get(fl, t, "override_count") == o("override_count"))
        is_("override_sample_sum", get(fl, t, "override_sample_sum") == o("override_sample_sum"))
    if not (v[0] == "agg" and v[1] == "Some"):
        is_("value", False)
        return
    v = get(fl, v, "0")
    if not iv:
        is_("value", v == some("thawed_value"))
        return
    x = some("initial_value")
    if v[0] != "agg" or v[1] != ITEM[kind]:
        is_("value", False)
        return
    if kind in ("Set", "Sum"):
        is_("value", get(fl, v, "0") == x)
        return
    if kind == "Summarize":
        q = get(fl, v, "ckms")
        eb = q[2][0] if q[0] == "call" and q[1].endswith("::new") and q[2] else None
        ins = [c for c in fl.calls if c.args and c.args[0] == q and last(c) == "insert"]
        is_("value", eb is not None and (eb == some("error") if err else is_const(eb, 0.001)) and len(ins) >= 1 and all(c.args[1] == x for c in ins) and get(fl, v, "sum") == x and not must_reach(fl, succs(fl, blks(ins)), [], blks(ins)))
        return
    h = get(fl, v, "0")
    src = [s for s in flow.subterms(h) if s and s[0] == "call" and s[1].endswith("::new")]
    b = src[0][2][0] if src and src[0][2] else None
    ins = [c for c in fl.calls if c.args and c.args[0] == h and last(c) == "insert"]
    okb = b is not None and (b == some("bounds") if bnd else listed(fl, b) == [1.0, 10.0, 100.0, 1000.0])
    is_("value", okb and len(ins) >= 1 and all(c.args[1] == x for c in ins) and not must_reach(fl, succs(fl, blks(ins)), [], blks(ins)))


def chosen(fl, t, opt, dflt):
    """the value of opt, or the default"""
    if t[0] == "call" and t[1].rsplit("::", 1)[-1] in ("unwrap_or", "unwrap_or_default", "unwrap_or_else"):
        return t[2][0] == opt and (len(t[2]) == 1 or dflt(t[2][1]))
    return False


def listed(fl, b):
    """the elements of a vec! literal"""
    while b[0] == "call" and len(b[2]) == 1:
        b = b[2][0]
    if b[0] == "nullary":
        for w in fl.writes:
            if w.root == b:
                b = w.val
    if b[0] == "arr":
        return [x[1] for x in b[1] if x[0] == "c"]
    return None


def setters(cx):
    spec = {"sample_sum": "override_sample_sum", "count": "override_count", "name": "name", "value": "initial_value", "kind": "kind", "error": "error",
            "bounds": "bounds", "timestamp": "timestamp", "tags": "tags", "persist": "persist"}
    adt = cx.prog.adts.get(V + "SoftTelemetry")
    fields = [f[0] for f in adt["variants"][0]["fields"]]
    cx.floor("builder fields", len(fields), 11)
    for m, target in sorted(spec.items()):
        fl = cx.flow(V + "SoftTelemetry::" + m)
        r = fl.ret()
        if not cx.ob("setter", m, r is not None, "setter has no result"):
            continue
        v = get(fl, r, target)
        X = ("arg", 2)
        ok = v[0] == "agg" and v[1] == "Some" and (get(fl, v, "0") == X or m == "name" and strip_into(get(fl, v, "0")) == X)
        cx.ob("setter", m, ok, "%s() does not set %s to what it is given: %s" % (m, target, fmt(v)))
        for g in fields:
            if g == target:
                continue
            w = get(fl, r, g)
            if m == "value" and g == "thawed_value":
                cx.ob("setter", m + " drops " + g, w[0] == "agg" and w[1] == "None", "a new value does not replace the thawed one")
            else:
                cx.ob("setter", m + " keeps " + g, w == o(g), "%s() also changes %s" % (m, g))
    fl = cx.flow(V + "SoftTelemetry::bounds")
    srt = [c for c in fl.calls if last(c).startswith("sort") and c.args and c.args[0] == ("arg", 2)]
    cx.ob("bounds-sorted", "bounds", bool(srt) and not (reach(fl, [0], avoid=blks(srt)) & set(fl.ret_blocks)), "bin bounds are not sorted")
    fl = cx.flow(V + "SoftTelemetry::clear_error")
    r = fl.ret()
    cx.ob("setter", "clear_error", r is not None and get(fl, r, "error")[:2] == ("agg", "None"), "the error bound is not cleared")
    # a hardened point can still be moved to another time
    fl = cx.flow(V + "Telemetry::timestamp")
    adt = cx.prog.adts.get(V + "Telemetry")
    for g in [f[0] for f in adt["variants"][0]["fields"]] if adt else []:
        for q in paths(fl):
            w = get(fl, q.ret, g)
            cx.ob("setter", "timestamp of a point: " + g, w == (("arg", 2) if g == "timestamp" else fld(A, g)), "giving a point a time does not change its time, or more than that")
    fl = cx.flow(V + "Telemetry::new")
    r = fl.ret()
    for g in fields:
        w = get(fl, r, g)
        cx.ob("fresh", g, w[0] == "agg" and w[1] == "None", "a fresh builder already has a %s" % g)


def strip_into(t):
    while t[0] == "call" and t[1].rsplit("::", 1)[-1] in ("into", "from", "to_string", "to_owned") and len(t[2]) == 1:
        t = t[2][0]
    return t


def thaw(cx):
    from c15 import KINDS
    val = fld(A, "value")
    sv = fld(val, "@Some", "0")
    for k in KINDS:
        fl = cx.flow(V + "Telemetry::thaw", assume={val: "Some", sv: k}, key=("thaw", k))
        r = fl.ret()
        for n in ("name", "timestamp", "persist"):
            v = get(fl, r, n)
            cx.ob("thaw", "%s %s" % (k, n), v[0] == "agg" and v[1] == "Some" and get(fl, v, "0") == fld(A, n), "thawing loses the %s" % n)
        cx.ob("thaw", k + " tags", get(fl, r, "tags") == fld(A, "tags"), "thawing loses the tags")
        v = get(fl, r, "thawed_value")
        cx.ob("thaw", k + " value", v == val or v[0] == "agg" and v[1] == "Some" and get(fl, v, "0") == sv, "thawing loses the value")
        v = get(fl, r, "kind")
        kk = {"Quantiles": "Summarize"}.get(k, k)
        cx.ob("thaw", k + " kind", v[0] == "agg" and v[1] == "Some" and get(fl, v, "0")[:2] == ("agg", kk), "thawing changes the kind")
        cx.ob("thaw", k + " one value", get(fl, r, "initial_value")[:2] == ("agg", "None"), "a thawed point has two values")


def lines(cx):
    """a log line is what it is made from, at the present time, and its setters change their own field only"""
    L = "metric::logline::LogLine::"
    adt = cx.prog.adts.get("metric::logline::LogLine")
    fields = [f[0] for f in adt["variants"][0]["fields"]] if adt else []
    cx.floor("fields of a line", len(fields), 5)
    if not cx.ob("line", "code", all(L + m in cx.prog.bodies for m in ("new", "time", "insert_field")), "the code that makes log lines is not found"):
        return
    fl = cx.flow(L + "new")
    for i, q in enumerate(paths(fl)):
        for g in fields:
            v = get(fl, q.ret, g)
            if g in ("path", "value"):
                ok = strip_into(v) == ("arg", 1 if g == "path" else 2)
            elif g == "time":
                ok = now(v)
            elif g == "tags":
                ok = empty(v) or v[:2] == ("agg", "None")
            else:
                ok = empty(v)
            cx.ob("line", "new %s #%d" % (g, i), ok, "a new log line has the wrong %s: %s" % (g, fmt(v)[:80]))
    fl = cx.flow(L + "time")
    for i, q in enumerate(paths(fl)):
        for g in fields:
            v = get(fl, q.ret, g)
            cx.ob("line", "time %s #%d" % (g, i), v == (("arg", 2) if g == "time" else fld(A, g)), "setting a log line's time leaves the wrong %s" % g)
    fl = cx.flow(L + "insert_field")
    for i, q in enumerate(paths(fl)):
        ins = [c for c in q.calls if c.args and within(c.args[0], fld(A, "fields")) and last(c) not in ("into", "contains_key", "get", "entry", "len", "is_empty")]
        ok = len(ins) == 1 and last(ins[0]) in ("insert", "or_insert") and not q.writes
        if ok and last(ins[0]) == "insert" and len(ins[0].args) == 3:
            ok = strip_into(ins[0].args[1]) == ("arg", 2) and strip_into(ins[0].args[2]) == ("arg", 3)
        else:
            ok = False
        cx.ob("line", "field #%d" % i, ok, "a field is not added to a log line under its name")
        for g in fields:
            v = get(fl, q.ret, g)
            cx.ob("line", "field keeps %s #%d" % (g, i), v == fld(A, g), "adding a field changes the line's %s" % g)


def events(cx):
    E = "metric::event::Event::"
    for m, var in (("new_telemetry", "Telemetry"), ("new_log", "Log")):
        if not cx.ob("event", m + " code", E + m in cx.prog.bodies, "the code that makes events is not found"):
            continue
        fl = cx.flow(E + m)
        for i, q in enumerate(paths(fl)):
            r = q.ret
            cx.ob("event", "%s #%d" % (m, i), r[0] == "agg" and r[1] == var and get(fl, r, "0") == A, "an event does not hold what it is made from: %s" % fmt(r)[:80])
    fl = cx.flow(E + "timestamp")
    seen = set()
    for i, q in enumerate(paths(fl)):
        k = q.facts.get(A)
        k = k[1] if k and k[0] == "v" else None
        seen.add(k)
        f = {"Telemetry": "timestamp", "Log": "time"}.get(k)
        r = q.ret
        ok = r[:2] == ("agg", "Some") and get(fl, r, "0") == fld(A, "@" + k, "0", f) if f else r[:2] == ("agg", "None")
        cx.ob("event", "time of %s #%d" % (k, i), ok, "an event's time is not that of what it holds")
    cx.ob("event", "times", {"Telemetry", "Log"} <= seen, "an event's time does not depend on what it holds")


def paths(fl):
    return [q for q in trace(fl) or () if q.ret is not None]


def empty(v):
    return v[0] == "default" or v[0] == "call" and v[1].rsplit("::", 1)[-1] in ("new", "default", "with_capacity") and not [x for x in v[2] if x[0] != "c"]


def now(v):
    while v[0] == "cast":
        v = v[2]
    return v[0] == "call" and (v[1] == "time::now" or v[1].rsplit("::", 1)[-1] == "load" and v[2][0][:1] == ("static",) and "time::NOW" in repr(v[2][0]) or "time::NOW" in repr(v) and v[1].rsplit("::", 1)[-1] == "load")


def within(t, root):
    while t != root and t[0] in ("fld", "var", "upd"):
        t = t[1]
    return t == root
