"""What Prometheus is told stays until it is told anew: deliver, insert, purge and the
iterator over what is reported are followed path by path; no other function of the
crate changes the aggregation, the scrape handler in particular."""
from rules import *

PR = "sink::prometheus::"
SINK = "<sink::prometheus::Prometheus as sink::Sink<sink::prometheus::PrometheusConfig>>::"
A, T = ("arg", 1), ("arg", 2)
DATA = ("fld", A, "data")
TADD = "<metric::telemetry::Telemetry as std::ops::AddAssign>::add_assign"
TEL = (r"^metric::", r"^<metric::", r"^time::")
MUT = re.compile(r"::(insert|remove|entry|clear|retain|drain|get_mut|values_mut|iter_mut|remove_entry|truncate|push|pop|swap_remove|dedup\w*|resize|extend|append|split_off|index_mut|deref_mut|as_mut_slice|sort\w*|reverse|rotate_\w*|last_mut|first_mut)$")
KINDS = ("Set", "Sum", "Histogram", "Summarize")


def last(c):
    return (c if isinstance(c, str) else c.path).rsplit("::", 1)[-1]


def call(t, *names):
    return isinstance(t, tuple) and len(t) > 2 and t[0] == "call" and last(t[1]) in names


def inside(t, v):
    return ("fld", ("var", t, v), "0")


def run(cx):
    deliver(cx)
    insert(cx)
    key(cx)
    window(cx)
    purge(cx)
    reported(cx)
    scrape(cx)


def now(t):
    return call(t, "now") and "time" in t[1]


def subs(t):
    yield t
    for x in t:
        if isinstance(x, tuple):
            yield from subs(x)


# ------------------------------------------------------------------ deliver

def aged(ts, env):
    """env for a point stamped env[0] at time env[1] and a limit of env[2]"""
    def f(t):
        if t == ts:
            return env[0]
        if now(t):
            return env[1]
        if env[2] is not None and t[0] in ("fld",) and t == ("fld", ("var", ("fld", A, "age_threshold"), "Some"), "0"):
            return env[2]
        if call(t, "abs"):
            return abs(evalt(t[2][0], f))
        return None
    return f


TIMES = [(ts, n, lim) for ts in (90, 95, 99, 100, 101, 105, 110) for n in (100,) for lim in (0, 1, 5, 10)]


def deliver(cx):
    fl = cx.flow(SINK + "deliver", opaque=TEL + (r"PrometheusAggr::insert$",))
    ps = trace(fl)
    AT = ("fld", A, "age_threshold")
    n = 0
    for q in ps or ():
        ins = [c for c in q.calls if c.path.endswith("PrometheusAggr::insert")]
        v = q.facts.get(AT)
        where = at(fl, q.blocks[-2])
        good = all(c.args[1] == T and any(x == ("fld", A, "aggrs") for x in subs(c.args[0])) for c in ins) and len(ins) <= 1
        cx.ob("delivered", "what #%d" % n, good, "what is delivered is not what is aggregated", where)
        if v == ("v", "None"):
            cx.ob("delivered", "no age limit #%d" % n, len(ins) == 1, "a point is left out though no age is too old", where)
        elif v == ("v", "Some"):
            ts = ("fld", T, "timestamp")
            bad = [e for e in TIMES if could(q, aged(ts, e)) and (abs(e[0] - e[1]) <= e[2]) != (len(ins) == 1)]
            cx.ob("delivered", "age limit #%d" % n, not bad, "a point within the age limit is left out or one beyond it is kept: %s" % (bad[:1],), where)
        else:
            cx.ob("delivered", "limit #%d" % n, len(ins) == 1 and not any(ts in subs(t) for t in q.facts for ts in [("fld", T, "timestamp")]), "whether an age limit is set does not decide what is kept", where)
        n += 1
    cx.floor("ways to deliver", n, 3)


# ------------------------------------------------------------------- insert

def same_kind(q, acc):
    """are the kinds of the point and of what is stored the same on path q?"""
    for t, v in q.facts.items():
        if t[0] == "bin" and t[1] in ("Eq", "Ne") and v[0] == "c":
            ks = [x for x in t[2:] if call(x, "kind")]
            if len(ks) == 2 and {k[2][0] for k in ks} == {T, inside(acc, "Perpetual")}:
                return v[1] == (t[1] == "Eq")
    if q.facts.get(acc) == ("v", "Windowed"):
        for t, v in q.facts.items():
            if call(t, "kind") and t[2][0] == T and v[0] == "v":
                return v[1] == "Summarize"
            if t[0] == "not" and call(t[1], "kind") and t[1][2][0] == T and "Summarize" in v:
                return False
    return None


def found(q):
    """(known?, key, accumulator) on path q"""
    for t, v in q.facts.items():
        if call(t, "entry") and t[2][0] == DATA and v[0] == "v":
            if v[1] == "Occupied":
                e = inside(t, "Occupied")
                acc = [c.dest for c in q.calls if last(c) in ("get_mut", "into_mut") and c.args[0] == e]
                return True, t[2][1], acc[0] if acc else None
            return False, t[2][1], None
        if call(t, "get_mut") and t[2][0] == DATA and v[0] == "v":
            return v[1] == "Some", t[2][1], inside(t, "Some")
    return None, None, None


def stored(q):
    """what path q files in the aggregation: (key, accumulator)"""
    out = []
    for c in q.calls:
        if last(c) == "insert" and c.args[0] == DATA:
            out.append((c.args[1], c.args[2]))
        if last(c) in ("insert", "or_insert") and "VacantEntry" in c.path + "" and c.args[0][0] == "fld" and c.args[0][1][0] == "var" and call(c.args[0][1][1], "entry") and c.args[0][1][1][2][0] == DATA:
            out.append((c.args[0][1][1][2][1], c.args[1]))
    return out


def mine(k):
    return call(k, "series_key", "name_tag_hash") and k[2][0] == T


def strip_cast(t):
    while t[0] == "cast":
        t = t[2]
    return t


def summed(t):
    if call(t, "unwrap_or", "unwrap", "unwrap_or_default", "expect"):
        t = inside(t[2][0], "Some")
    return t[0] == "fld" and t[1][0] == "var" and call(t[1][1], "samples_sum") and t[1][1][2][0] == T


def counts(t):
    return call(strip_cast(t), "count") and strip_cast(t)[2][0] == T


def insert(cx):
    fl = cx.flow(PR + "PrometheusAggr::insert", opaque=TEL + (r"series_key$",))
    ps = [q for q in trace(fl) or () if not any(call(t, "samples_sum") and v == ("v", "None") for t, v in q.facts.items())]
    kinds, n = set(), 0
    for q in ps:
        where = at(fl, q.blocks[-2])
        if q.ret is None:
            continue
        known, k, acc = found(q)
        inst = "#%d" % n
        n += 1
        if not cx.ob("series", inst, known is not None and mine(k), "a point is not looked for under its own series", where):
            continue
        adds = [c for c in q.calls if c.path == TADD]
        new = stored(q)
        if known:
            eq = same_kind(q, acc) if acc else None
            cx.ob("known series", inst + " filed", not new, "a known series is filed anew", where)
            if not cx.ob("known series", inst + " kind", eq is not None, "a point is added without a look at its kind", where):
                continue
            cx.ob("known series", inst + " said", is_const(q.ret, eq), "it is not said whether the kind was right", where)
            if not eq:
                cx.ob("known series", inst + " left", not adds and not q.writes and not [c for c in q.calls if MUT.search(c.path) and c.args and any(x == acc for x in subs(c.args[0]))], "a point of another kind changes a series", where)
            elif q.facts.get(acc) == ("v", "Perpetual"):
                cx.ob("known series", inst + " added", len(adds) == 1 and adds[0].args == [inside(acc, "Perpetual"), T] and not q.writes, "a point is not added to its series exactly once", where)
            else:
                windowed(cx, q, acc, inst, adds, where, panic_facts(fl, q))
            continue
        cx.ob("new series", inst, len(new) == 1 and mine(new[0][0]) and is_const(q.ret, True) and not adds, "a new series is not filed", where)
        ks = [v[1] for t, v in q.facts.items() if call(t, "kind") and t[2][0] == T and v[0] == "v"]
        if len(new) != 1:
            continue
        v = new[0][1]
        kinds |= set(ks)
        nots = [x for t, s in q.facts.items() if t[0] == "not" and call(t[1], "kind") for x in s]
        ks = ks or [k for k in KINDS if k not in nots]
        kinds |= set(ks)
        if v[0] == "agg" and v[1] == "Perpetual":
            cx.ob("new series", inst + " kept", "Summarize" not in ks and v[2] == (("0", T),), "a new series does not start as its first point", where)
        elif v[0] == "agg" and v[1] == "Windowed":
            d = dict(v[2])
            one = d["samples"]
            push = [c for c in q.calls if last(c) in ("push", "insert") and c.args[0] == one]
            ok = call(one, "new", "with_capacity") and len(push) == 1 and push[0].args[-1] == T or one == ("array", (T,)) or term_has(one, lambda x: x == T)
            cx.ob("new series", inst + " window", ks == ["Summarize"] and ok and d["cap"] == ("fld", A, "capacity_in_seconds"), "a new window does not hold its first summary, for the time configured", where)
            cx.ob("new series", inst + " total", counts(d["count"]) and summed(d["sum"]), "a new window does not start from its first summary's count and sum", where)
        else:
            cx.ob("new series", inst + " kept", False, "a new series is neither kept nor windowed", where)
    cx.ob("new series", "kinds", kinds == set(KINDS), "a kind of point is not kept: %s" % sorted(set(KINDS) - kinds))
    cx.floor("ways to insert", n, 8)


def windowed(cx, q, acc, inst, adds, where, asserted):
    W = lambda f: ("fld", ("var", acc, "Windowed"), f)
    S, CAP = W("samples"), W("cap")
    wr = {}
    for w in q.writes:
        p = [x[1] for x in w.proj if x[0] == "f"]
        wr.setdefault(p[-1] if w.root == acc and p else "?", []).append(w.val)
    cx.ob("window", inst + " writes", set(wr) == {"count", "sum"} and all(len(v) == 1 for v in wr.values()), "something else than the totals of a window is set", where)
    if set(wr) >= {"count", "sum"}:
        bad = None
        for c0, k in ((0, 1), (1, 1), (5, 3), (1 << 40, 7), (0, 0)):
            env = lambda t: c0 if t == W("count") else k if counts(t) else None
            if could(q, env, "u64"):
                try:
                    if evalt(wr["count"][0], env, "u64") != c0 + k:
                        bad = (c0, k)
                except (Unknown, Overflow):
                    bad = (c0, k)
        cx.ob("window", inst + " count", bad is None, "the count of a window does not grow by the summary's: %s" % (bad,), where)
        bad = None
        for s0, v in ((0.0, 1.5), (2.5, 4.0), (-3.0, 1.0), (7.0, -9.5), (1e10, 0.0)):
            env = lambda t: s0 if t == W("sum") else v if summed(t) else None
            if could(q, env, "u64"):
                try:
                    if evalt(wr["sum"][0], env, "u64") != s0 + v:
                        bad = (s0, v)
                except (Unknown, Overflow):
                    bad = (s0, v)
        cx.ob("window", inst + " sum", bad is None, "the sum of a window does not grow by the summary's: %s" % (bad,), where)
    se = [(t, v) for t, v in q.facts.items() if call(t, "binary_search_by", "binary_search_by_key", "binary_search", "position") and t[2][0] == S]
    if not cx.ob("window", inst + " search", len(se) == 1 and se[0][1][0] == "v", "the second a summary belongs to is not looked up in its window", where):
        return
    B, v = se[0]
    at_ = inside(B, v[1])
    ins = [c for c in q.calls if last(c) == "insert" and c.args[0] == S]
    gone = [c for c in q.calls if last(c) in ("drain", "remove", "truncate", "split_off", "clear", "pop", "retain") and c.args[0] == S]
    if v[1] == "Ok":
        ok = len(adds) == 1 and adds[0].args[1] == T and call(adds[0].args[0], "index_mut") and adds[0].args[0][2] == (S, at_)
        cx.ob("window", inst + " same second", ok and not ins and not gone, "a summary of a known second is not added to it exactly once", where)
        return
    cx.ob("window", inst + " new second", len(ins) == 1 and ins[0].args[1:] == [at_, T] and not adds, "a summary of a new second is not put in its place", where)
    bad = None
    for cap in (1, 2, 3, 4, 7):
        # a window was not too long before, and got one longer
        for ln in range(1, cap + 2):
            env = lambda t: ln if call(t, "len") and t[2][0] == S else cap if t == CAP else None
            # the length asked for after the removal is another one: leave such conditions out
            fs = {t: x for t, x in q.facts.items() if not gone or not any(call(y, "len") and y[2][0] == S and len(y) > 3 and y[3] is not None and y[3] in q.blocks and q.blocks.index(y[3]) > q.blocks.index(gone[0].blk) for y in subs(t))}
            post = after(q, gone, S)
            fs = {t: x for t, x in fs.items() if t not in post and t not in asserted}
            if not could(q, env, "u64", fs):
                continue
            want = max(0, ln - cap)
            got = 0
            for c in gone:
                r = c.args[1] if len(c.args) > 1 else None
                try:
                    if last(c) == "drain" and r[0] == "agg" and is_const(dict(r[2]).get("start", ("c", 0)), 0):
                        got += evalt(dict(r[2])["end"], env, "u64")
                    elif last(c) == "remove" and is_const(r, 0):
                        got += 1
                    else:
                        bad = (ln, cap)
                except (Unknown, Overflow, KeyError):
                    bad = (ln, cap)
            if got != want:
                bad = (ln, cap)
    cx.ob("window", inst + " width", bad is None, "a window does not keep its newest seconds only: %s" % (bad,), where)


def after(q, gone, S):
    """conditions on the window's length first met after something was taken out of it"""
    return {t for t in q.facts if gone and t[0] == "bin" and t[1] == "Le" and call(t[2], "len") and t[2][2][0] == S}


def key(cx):
    """a series is its name and all of its tags"""
    if PR + "series_key" not in cx.prog.bodies:
        users = [c for c in cx.flow(PR + "PrometheusAggr::insert", opaque=TEL).calls if last(c) == "name_tag_hash"]
        cx.ob("series", "key", bool(users), "a series is not told by name and tags")
        return
    fl = cx.flow(PR + "series_key", opaque=TEL)
    NAME = ("fld", A, "name")
    tg = [c for c in fl.calls if last(c) == "tags" and c.args[0] == A]
    ok = len(tg) >= 1 and all(c.args[1][0] in ("default",) or call(c.args[1], "default", "new") for c in tg)
    cx.ob("series", "own tags", ok, "a series is told by tags that are not its own")
    sets = {c.args[0] for c in fl.calls if last(c) in ("sort", "sort_unstable", "sort_by", "sort_unstable_by", "sort_by_key")}
    cx.ob("series", "order", bool(sets) or any(last(c) == "insert" and "BTree" in c.path for c in fl.calls), "the same tags can make different series")
    out = [q for q in trace(fl, cycles=1) or () if q.ret is not None]
    seps = set()
    for i, q in enumerate(out):
        R = q.ret
        start = [c for c in q.calls if last(c) in ("push_str", "push") and c.args[0] == R]
        txt = [R if not call(R, "new", "with_capacity") and R[0] != "default" else None] + [c.args[1] for c in start]
        txt = [t for t in txt if t is not None]
        while txt and call(txt[0], "clone", "to_string", "to_owned"):
            txt[0] = txt[0][2][0]
        ok = bool(txt) and txt[0] == NAME
        rest = txt[1:]
        ok &= len(rest) % 4 == 0
        for j in range(0, len(rest) - 3, 4):
            s1, k, s2, v = rest[j:j + 4]
            ok &= s1[0] == "c" and s2[0] == "c" and k[0] == "fld" and v[0] == "fld" and k[1] == v[1] and (k[2], v[2]) == ("0", "1")
            seps |= {s1, s2}
        cx.ob("series", "text #%d" % i, ok, "a series is not told by its name and each tag's name and value")
        ls = [L for L in loops(fl) if not L.complete()]
        cx.ob("series", "all tags #%d" % i, not ls, "a series is not told by all of its tags")
    cx.ob("series", "paths", len(out) >= 2 and bool(seps) and all(s[0] == "c" and s[1] not in (None, "") for s in seps), "the tags of a series run together")


def window(cx):
    """the order of a window is that of time"""
    fl = cx.flow(PR + "Accumulator::insert", opaque=TEL)
    TS = ("fld", T, "timestamp")
    cs = [c for c in fl.calls if last(c) in ("cmp", "partial_cmp") and c.args and any(a == TS for a in c.args)]
    ok = bool(cs) and all(c.args[0][0] == "fld" and c.args[0][2] == "timestamp" and c.args[0][1][0] in ("elem", "at") and c.args[1] == TS for c in cs)
    keys = [c for c in fl.calls if last(c) == "binary_search_by_key" and c.args[1] == TS]
    cx.ob("window", "order", ok or bool(keys), "a window is not searched by time")


# -------------------------------------------------------------------- purge

def purge(cx):
    fl = cx.flow(PR + "PrometheusAggr::purge", opaque=(r"Accumulator::purge$",))
    ls = [L for L in loops(fl) if whole_vals(fl, L.it)]
    ok = False
    for L in ls:
        bs = L.body() or ()
        ok |= L.complete() and bool(bs) and all(len([c for c in q.calls if c.path.endswith("Accumulator::purge") and c.args[0] == L.elem]) == 1 for q in bs)
    ops = [c for c in fl.calls if c.path.endswith("Accumulator::purge")]
    if not ok and not ls:
        ok = len(ops) == 1 and ops[0].args[0][0] == "elem" and whole_vals(fl, ops[0].args[0][1]) and any(last(c) in ("sum", "fold") for c in fl.calls)
    cx.ob("purge", "all series", ok, "a purge skips series")
    ps = [q for q in trace(cx.flow(SINK + "flush", opaque=(r"PrometheusAggr::purge$",))) or () if q.ret is not None or True]
    cx.ob("purge", "each flush", bool(ps) and all(len([c for c in q.calls if c.path.endswith("PrometheusAggr::purge")]) == 1 for q in ps), "a flush does not purge the windows")
    fl = cx.flow(PR + "Accumulator::purge", opaque=TEL)
    W = lambda f: ("fld", ("var", A, "Windowed"), f)
    S, CAP = W("samples"), W("cap")
    heads = [None]
    n = 0
    rm = [c for c in fl.calls if c.args and c.args[0] == S and MUT.search(c.path)]
    if any(last(c) == "retain" for c in rm):
        retained(cx, fl, S, CAP)
        return
    # one turn of the loop over the window: from the test whether any summary is left
    lens = lambda t: [y for y in subs(t) if call(y, "len") and y[2][0] == S]
    go = edge_pairs(fl, lambda t, v: t[0] == "bin" and bool(lens(t)) and any(y[0] == "phi" for y in t[2:]) and v[0] == "c")
    turns = []
    I = None
    for b, s, nf in new_facts(fl):
        for t, v in nf.items():
            if t[0] == "bin" and lens(t) and v[0] == "c":
                ph = [y for y in t[2:] if y[0] == "phi"]
                if len(ph) == 1:
                    I = ph[0]
                    env = lambda y: 0 if y == I else 3 if call(y, "len") else None
                    if evalt(t, env) == v[1]:
                        turns.append((b, s))
    if not cx.ob("purge", "turns", bool(turns) and I is not None, "a window is not gone through"):
        return
    ins = [x for _, x, _ in phi_ins(fl, I)]
    cx.ob("purge", "from the start", any(is_const(x, 0) for x in ins), "a purge does not start at the oldest summary")
    heads = {b for b, _ in turns}
    for q in trace(fl, turns, heads) or ():
        if q.end not in heads:
            cx.ob("purge", "to the end #%d" % n, q.ret is None, "a purge stops before the end of the window")
            continue
        gone = [c for c in q.calls if last(c) in ("remove", "swap_remove", "drain", "truncate", "pop", "clear") and c.args and c.args[0] == S]
        el = {y for t in q.facts for y in subs(t) if len(y) == 3 and y[0] == "fld" and y[2] == "timestamp"}
        ok = len(el) == 1 and all(indexed(y[1], S, I) for y in el)
        cx.ob("purge", "looked at #%d" % n, ok, "a summary is kept or purged by something else than its own time")
        for y in el:
            bad = []
            for ts in (90, 95, 99, 100, 101, 105, 110):
                for cap in (0, 1, 5, 10):
                    env = lambda t: ts if t == y else 100 if now(t) else cap if t == CAP else abs(evalt(t[2][0], env)) if call(t, "abs") else None
                    if could(q, env) and (abs(ts - 100) > cap) != bool(gone):
                        bad.append((ts, cap))
            cx.ob("purge", "old only #%d" % n, not bad, "a summary within the window is purged or one beyond it stays: %s" % (bad[:1],))
        ok = all(last(c) == "remove" and c.args[1] == I for c in gone) and len(gone) <= 1
        cx.ob("purge", "one #%d" % n, ok, "a purge takes out another summary")
        st = at_end(fl, q, I)
        cx.ob("purge", "next #%d" % n, st is not None and (st == I if gone else st[:2] == ("bin", "Add") and set(st[2:]) == {I, ("c", 1)}), "a purge skips a summary")
        n += 1
    cx.floor("turns of a purge", n, 2)


def at_end(fl, q, I):
    """the value of phi I when path q comes back to its head"""
    t, bl = I, list(q.blocks)
    head = len(bl)
    for _ in range(20):
        if t[0] != "phi" or t[1] not in bl[:head] and t != I:
            return t
        k = max((i for i in range(1, head) if bl[i] == t[1]), default=None) if t != I else None
        if t == I:
            # the head itself, or the last block before it that feeds it
            ks = [i for i in range(len(bl)) if any(b == bl[i] for b, _, _ in phi_ins(fl, I))]
            if not ks:
                return None
            pred, head = bl[ks[-1]], ks[-1] + 1
        elif k is None:
            return t
        else:
            pred, head = bl[k - 1], k
        nx = [x for b, x, _ in phi_ins(fl, t) if b == pred]
        if not nx:
            return t
        if nx[0] == I:
            return I
        t = nx[0]
    return None


def indexed(t, S, I):
    return call(t, "index", "index_mut") and t[2] == (S, I) or t[0] in ("at", "idx") and t[1:3] == (S, I)


def retained(cx, fl, S, CAP):
    rm = [c for c in fl.calls if last(c) == "retain" and c.args[0] == S]
    ok = len(rm) == 1 and len(rm[0].args) == 3
    if not cx.ob("purge", "turns", ok, "a window is not gone through"):
        return
    keep = rm[0].args[2]
    y = ("fld", fl.elem(S), "timestamp")
    bad = []
    for ts in (90, 95, 99, 100, 101, 105, 110):
        for cap in (0, 1, 5, 10):
            env = lambda t: ts if t == y else 100 if now(t) else cap if t == CAP else abs(evalt(t[2][0], env)) if call(t, "abs") else None
            try:
                if evalt(keep, env) != (abs(ts - 100) <= cap):
                    bad.append((ts, cap))
            except (Unknown, Overflow):
                bad.append((ts, cap))
    cx.ob("purge", "old only", not bad, "a summary within the window is purged or one beyond it stays: %s" % (bad[:1],))
    cx.floor("turns of a purge", 2, 2)


def whole_vals(fl, it):
    while it[0] == "call" and last(it[1]) in ("values_mut", "iter_mut", "into_iter", "values", "iter", "map"):
        it = it[2][0]
    return it == DATA


# ----------------------------------------------------------------- reported

def reported(cx):
    fl = cx.flow(PR + "PrometheusAggr::reportable")
    ps = [q for q in trace(fl) or () if q.ret is not None]
    ok = bool(ps)
    for q in ps:
        d = dict(q.ret[2]) if q.ret[0] == "agg" else {}
        it = d.get("samples", ("?",))
        lst = it
        while call(lst, "into_iter", "iter", "values", "collect", "drain", "from_iter"):
            lst = lst[2][0]
        bad = [c for c in q.calls if last(c) in ("truncate", "filter", "take", "skip", "retain", "dedup", "dedup_by_key", "pop", "clear", "step_by", "take_while", "skip_while", "drain", "remove", "swap_remove", "filter_map", "split_off")]
        ok &= lst == DATA and not bad
    cx.ob("reported", "all series", ok, "some series are not reported")
    ordered = all(any(last(c).startswith("sort") for c in q.calls) for q in ps) or any("BTreeMap" in str(f[1]) for f in cx.prog.adts[PR + "PrometheusAggr"]["variants"][0]["fields"])
    cx.ob("reported", "together", ordered, "series of one name are not kept together")
    path = [p for p in cx.prog.bodies if re.search(r"^<sink::prometheus::Iter.* as std::iter::Iterator>::next$", p)]
    fl = cx.flow(path[0], opaque=TEL)
    nx = [c for c in fl.calls if last(c) == "next" and c.args[0] == ("fld", A, "samples")]
    if not cx.ob("reported", "next", len({c.blk for c in nx}) >= 1, "the series are not gone through"):
        return
    some = edge_pairs(fl, lambda t, v: v == ("v", "Some") and t in {c.dest for c in nx})
    none = edge_pairs(fl, lambda t, v: v == ("v", "None") and t in {c.dest for c in nx})
    n = 0
    end = [q for q in trace(fl, none, blks(nx)) or ()]
    cx.ob("reported", "end", bool(end) and all(q.ret is not None and q.ret[:2] == ("agg", "None") for q in end), "the series do not end where they end")
    for q in trace(fl, some, blks(nx), cycles=1) or ():
        where = at(fl, q.blocks[-2])
        inst = "#%d" % n
        n += 1
        acc = [(t, v[1]) for t, v in q.facts.items() if isinstance(v, tuple) and v[0] == "v" and v[1] in ("Perpetual", "Windowed")]
        if not cx.ob("reported", inst, len(acc) == 1, "a series is reported without a look at how it is kept", where):
            continue
        acc, kind = acc[0]
        if kind == "Perpetual":
            r = q.ret
            ok = r is not None and r[:2] == ("agg", "Some") and bare(r[2][0][1]) == inside(acc, "Perpetual")
            cx.ob("reported", inst + " kept", ok, "a series is not reported as it is kept", where)
            continue
        W = lambda f: ("fld", ("var", acc, "Windowed"), f)
        S = W("samples")
        may = {k: could(q, lambda t: k if call(t, "len") and t[2][0] == S else (k == 0) if call(t, "is_empty") and t[2][0] == S else None) for k in (0, 1, 2, 5)}
        if q.ret is None:
            if q.end in blks(nx):
                cx.ob("reported", inst + " skipped", not (may[1] or may[2] or may[5]), "a window that holds summaries is not reported", where)
            continue
        cx.ob("reported", inst + " empty", not may[0], "an empty window is reported", where)
        r = q.ret
        ok = r[:2] == ("agg", "Some")
        v = r[2][0][1] if ok else ("?",)
        if v[0] == "fld" and v[1][0] == "var" and v[1][2] == "Ok":
            v = v[1][1]
        ok = call(v, "harden")
        d = {}
        x = v[2][0] if ok else ("?",)
        while x[0] == "call" and last(x[1]) in ("sample_sum", "count", "thaw", "clone"):
            if len(x[2]) > 1:
                d.setdefault(last(x[1]), x[2][1])
            x = x[2][0]
        ok &= d == {"sample_sum": W("sum"), "count": W("count")}
        cx.ob("reported", inst + " totals", ok, "a window is not reported with its count and sum", where)
        adds = [c for c in q.calls if c.path == TADD]
        x, i0 = first(x, S)
        good = i0 == 0 and (may[1] and not (may[2] or may[5]) and not adds or rest(fl, q, S, x, adds))
        cx.ob("reported", inst + " summaries", good, "a window is not reported as all of its summaries together", where)
    cx.floor("ways to report", n, 4)


def bare(t):
    while call(t, "clone"):
        t = t[2][0]
    return t


def first(t, S):
    """t is the first summary of S"""
    root = t
    while True:
        t = bare(t)
        if t[0] == "phi":
            return root, None
        break
    if call(t, "index") and t[2][0] == S and t[2][1][0] == "c":
        return root, t[2][1][1]
    if t[0] in ("at", "idx") and t[1] == S and t[2][0] == "c":
        return root, t[2][1]
    if t[0] == "fld" and t[1][0] == "var" and call(t[1][1], "first") and t[1][1][2][0] == S:
        return root, 0
    return root, None


def rest(fl, q, S, x, adds):
    """the loop adds every summary of S but the first to x"""
    for L in loops(fl):
        it = L.it
        while call(it, "iter", "into_iter"):
            it = it[2][0]
        ok = call(it, "index") and it[2][0] == S and it[2][1][0] == "agg" and set(dict(it[2][1][2])) == {"start"} and is_const(dict(it[2][1][2])["start"], 1)
        ok |= call(it, "skip") and is_const(it[2][1], 1) and whole(fl, it[2][0], S)
        if not ok or not L.complete() or not set(L.next) & set(q.blocks):
            continue
        bs = L.body() or ()
        return bool(bs) and all(len([c for c in p.calls if c.path == TADD]) == 1 == len([c for c in p.calls if c.path == TADD and c.args[0] == x and bare(c.args[1]) == L.elem]) for p in bs)
    return False


# ------------------------------------------------------------------- scrape

def scrape(cx):
    """only insert and purge change what is aggregated"""
    allowed = {PR + "PrometheusAggr::insert": 0, PR + "PrometheusAggr::purge": 0, PR + "Accumulator::insert": 0, PR + "Accumulator::purge": 0}
    n = 0
    for p, b in cx.prog.bodies.items():
        for bl in b.blocks:
            t = bl[1] if bl else None
            if not t or t[0] != "call":
                continue
            info = t[1]
            fn = info.get("res") or info.get("fn", "")
            ta = " ".join(info.get("targs", []))
            if "prometheus::Accumulator" in ta + info.get("ty", "") and MUT.search(fn) and "HashMap" in fn + ta:
                n += 1
                own = re.sub(r"::\{\{closure\}\}.*", "", p)
                cx.ob("changed", "%s in %s" % (last(fn), p), own in allowed, "the aggregation is changed here", (t[-1][0], t[-1][1], p))
            if fn.endswith(("PrometheusAggr::insert", "PrometheusAggr::purge")):
                ok = re.sub(r"::\{\{closure\}\}.*", "", p) in (SINK + "deliver", SINK + "flush", SINK + "shutdown")
                cx.ob("changed", "%s by %s" % (last(fn), p), ok, "the aggregation is changed by something else than a delivery or a flush", (t[-1][0], t[-1][1], p))
    cx.floor("changes of the aggregation", n, 2)
    h = "<sink::prometheus::PrometheusHandler as http::Handler>::handle"
    fl = cx.flow(h, opaque=TEL + (r"write_text$",))
    AG = ("fld", A, "aggr")
    muts = [c for c in fl.calls if last(c) in ("deref_mut", "get_mut", "into_inner") and "MutexGuard" in str(c.info) and any(x == AG for x in subs(c.args[0]))]
    wr = [w for q in trace(fl) or () for w in q.writes if any(x == AG for x in subs(w.root))]
    cx.ob("changed", "scrape", not muts and not wr, "a scrape changes the aggregation")
