"""The clock events are stamped with: what its cell starts from, what the ticker stores
into it and how often, that nothing else writes it, and what is read out of it; and the
date any number of seconds is shown as."""
from rules import *

A = ("arg", 1)


def last(p):
    return (p if isinstance(p, str) else p.path).rsplit("::", 1)[-1]


def call(t, *names):
    return isinstance(t, tuple) and len(t) > 2 and t[0] == "call" and last(t[1]) in names


def wall(t):
    """the wall clock, in whole seconds since the epoch"""
    while t[0] == "cast" and t[1] in ("usize", "i64", "u64", "isize"):
        t = t[2]
    if call(t, "timestamp") and "chrono" in t[1] and len(t[2]) == 1:
        return call(t[2][0], "now") and "Utc" in t[2][0][1] and not t[2][0][2]
    # SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs()
    if call(t, "as_secs") and len(t[2]) == 1:
        d = t[2][0]
        while d[0] in ("fld", "var"):
            d = d[1]
        return call(d, "duration_since") and call(d[2][0], "now") and "SystemTime" in d[2][0][1] and "UNIX_EPOCH" in repr(d[2][1])
    return False


def cell(t):
    """the cell that holds the time"""
    return t == ("static", "time::NOW")


def run(cx):
    init = [p for p in cx.prog.bodies if p.startswith("<time::NOW as") and "static_ref_initialize" in p]
    if not cx.ob("cell", "code", bool(init) and "time::now" in cx.prog.bodies and "time::update_time" in cx.prog.bodies, "the clock is not found"):
        return
    for p in init:
        for i, q in enumerate(done(cx.flow(p))):
            cx.ob("cell", "start #%d" % i, call(q.ret, "new") and "Atomic" in q.ret[1] and wall(q.ret[2][0]), "the clock does not start from the wall clock in seconds: %s" % fmt(q.ret)[:120])
    for i, q in enumerate(done(cx.flow("time::now"))):
        t = q.ret
        while t[0] == "cast" and t[1] in ("i64", "usize", "u64", "isize"):
            t = t[2]
        cx.ob("cell", "read #%d" % i, call(t, "load") and cell(t[2][0]), "the present time is not what the clock holds: %s" % fmt(q.ret)[:120])
    ticker(cx)
    writers(cx)
    dates(cx)
    started(cx)


def started(cx):
    """the ticker runs, in a thread of its own, before anything is waited for"""
    if "main" not in cx.prog.bodies:
        raise AnchorError("main")
    fl = cx.flow("main", opaque=("^config::", "^matrix::", "^thread::spawn", "^util::send$"))
    mine = []
    for c in fl.calls:
        if last(c) != "spawn" or not c.args:
            continue
        ty = c.info["targs"][0] if c.info.get("targs") else ""
        cl = cx.prog.closure_of_type(ty)
        if cl is None:
            continue
        f = cx.flow(cl, opaque=("^filter::", "^time::", "^sink::", "^source::"))
        tick = [x for x in f.calls if x.path == "time::update_time"]
        if tick and not (reach(f, [0], avoid=blks(tick)) & set(f.ret_blocks)):
            mine.append(c)
    tick = [f for f in fl.calls if f.args and f.args[0] == ("fn", "time::update_time")]
    mine += [c for c in tick if last(c) == "spawn"]
    rx = [x for x in fl.calls if x.path.endswith("::recv")]
    ok = bool(mine) and bool(rx) and not (reach(fl, [0], avoid=blks(mine)) & set(blks(rx)))
    cx.ob("started", "main", ok, "the clock is not kept running")


def done(fl):
    return [q for q in trace(fl) or () if q.ret is not None]


def ticker(cx):
    fl = cx.flow("time::update_time")
    hs = heads(fl)
    cx.ob("ticks", "for ever", bool(hs) and not (reach(fl, [0]) & set(fl.ret_blocks)) and not fl.asserts, "the clock can stop")
    for h in hs:
        for i, q in enumerate(trace(fl, [(h, None)], hs) or ()):
            if not cx.ob("ticks", "again #%d" % i, q.end == h, "the clock can stop"):
                continue
            st = [c for c in q.calls if last(c) in ("store", "swap") and c.args and cell(c.args[0])]
            cx.ob("ticks", "stores #%d" % i, bool(st) and all(wall(c.args[1]) and sampled(q, c) for c in st), "the clock is not set to the wall clock in seconds")
            z = [c for c in q.calls if c.path in ("std::thread::sleep", "std::thread::sleep_ms", "std::thread::park_timeout")]
            naps = [millis(c.args[0], c.path) for c in z]
            cx.ob("ticks", "often #%d" % i, bool(naps) and all(n is not None for n in naps) and 0 < sum(n or 0 for n in naps) <= 1000, "the clock is not set about once a second: naps of %s ms" % naps)


def sampled(q, st):
    """the wall clock is looked at in this round, before it is stored"""
    for c in q.calls:
        if c is st:
            return False
        if last(c) == "now" and ("Utc" in c.path or "SystemTime" in c.path):
            return True
    return False


def millis(t, path):
    if path.endswith("sleep_ms"):
        return t[1] if t[0] == "c" else None
    if t[0] == "call" and t[2] and t[2][0][0] == "c":
        f = {"from_millis": 1, "from_secs": 1000, "from_micros": 0.001}.get(last(t[1]))
        if f:
            return t[2][0][1] * f
        if last(t[1]) == "new" and len(t[2]) == 2 and t[2][1][0] == "c":
            return t[2][0][1] * 1000 + t[2][1][1] / 1e6
    return None


def writers(cx):
    """who else writes the cell"""
    n = 0
    for p, b in sorted(cx.prog.bodies.items()):
        if "time::NOW" not in repr(b.blocks) or p.startswith("<time::NOW"):
            continue
        n += 1
        fl = cx.flow(p)
        bad = [c for c in fl.calls if c.args and cell(c.args[0]) and last(c) not in ("load", "deref", "deref::__stability") and not (p == "time::update_time" or inlined(c))]
        cx.ob("writers", p, not bad, "the clock is set elsewhere", cat(bad[0]) if bad else None)
    cx.floor("users of the clock", n, 2)


def inlined(c):
    return c.path.endswith("Deref::deref") or c.path.endswith("Deref>::deref")


def dates(cx):
    """every number of seconds has a date: its own, or the first or last there is"""
    if not cx.ob("dates", "code", "time::datetime" in cx.prog.bodies, "the conversion of times to dates is not found"):
        return
    fl = cx.flow("time::datetime")
    cx.ob("dates", "total", not fl.asserts and not [c for c in fl.calls if last(c) in ("unwrap", "expect", "from_timestamp")], "a time without a date ends what shows it")
    for i, q in enumerate(done(fl)):
        r = q.ret
        opt = [(t, v) for t, v in q.facts.items() if call(t, "from_timestamp_opt") and t[2] == (A, ("c", 0))]
        if not cx.ob("dates", "known #%d" % i, len(opt) == 1 and opt[0][1][0] == "v", "a date is given without a look at the time"):
            continue
        t, v = opt[0]
        if v == ("v", "Some"):
            cx.ob("dates", "own #%d" % i, r == ("fld", ("var", t, "Some"), "0"), "a time is shown as another date")
            continue
        ends = {"first": ("MIN_DATE", (0, 0, 0)), "last": ("MAX_DATE", (23, 59, 59))}
        env = lambda val: (lambda x: val if x == A else None)
        for val in (-2**63, -2**50, 2**50, 2**63 - 1):
            if not could(q, env(val)):
                continue
            d, hms = ends["first" if val < 0 else "last"]
            cx.ob("dates", "no date #%d %s" % (i, "before" if val < 0 else "after"), call(r, "and_hms") and r[2][0][0] == "const" and last(r[2][0][1]) == d and tuple(x[1] for x in r[2][1:]) == hms,
                  "a time before (after) all dates is not shown as the first (last): %s" % fmt(r)[:80])


def heads(fl):
    color, out, st = {0: 1}, set(), [(0, iter(fl.succ.get(0, ())))]
    while st:
        b, it = st[-1]
        for s in it:
            if color.get(s) == 1:
                out.add(s)
            elif s not in color:
                color[s] = 1
                st.append((s, iter(fl.succ.get(s, ()))))
                break
        else:
            color[b] = 2
            st.pop()
    return out
