"""Retries back off.  For every loop that waits with time::delay, the value handed
to it is traced around the loop path by path: a failed attempt (or an idle poll)
comes back to the loop head with a larger count, an attempt is never repeated
without passing a delay by that count, progress resets or lowers it, and delay
itself sleeps longer for larger counts, not at all for zero and never more than
half a second or so."""
from rules import *

OPQ = ("time::delay", "sink::native::connect", "sink::wavefront::connect", "metric::", "buckets::", "sink::wavefront::Wavefront::format_stats",
       "sink::influxdb::InfluxDB::format_stats", "util::send", "TagIter", "protocols::")
RECV = ("next",)


def last(c):
    return c.path.rsplit("::", 1)[-1]


def inc(v, x):
    """v is x + 1 (or more)"""
    if v == x:
        return False
    if v[0] == "bin" and v[1] == "Add":
        return any(a == x and b[0] == "c" and b[1] >= 1 for a, b in ((v[2], v[3]), (v[3], v[2])))
    if v[0] == "call" and v[1].rsplit("::", 1)[-1] in ("saturating_add", "wrapping_add") and len(v[2]) == 2:
        return v[2][0] == x and v[2][1][0] == "c" and v[2][1][1] >= 1
    if v[0] == "call" and v[1].rsplit("::", 1)[-1] in ("min", "max") and len(v[2]) == 2:
        return any(inc(a, x) for a in v[2])
    return False


def delays(fl):
    return [c for c in fl.calls if c.path == "time::delay"]


def run(cx):
    table(cx)
    n = 0
    for name, path, trial, good in (
        ("influxdb", cx.method("sink::Sink", "^sink::influxdb::InfluxDB", "flush"), lambda c: c.path == "reqwest::RequestBuilder::send", ()),
        ("native", cx.method("sink::Sink", "^sink::native::Native", "flush"), lambda c: c.path == "sink::native::connect", ("Some",)),
        ("wavefront", cx.method("sink::Sink", "^sink::wavefront::Wavefront", "flush"), lambda c: c.path == "sink::wavefront::connect", ("Some",)),
    ):
        fl = cx.flow(path, opaque=OPQ)
        ds = delays(fl)
        tr = [c for c in fl.calls if trial(c)]
        if not cx.ob("waits", name, bool(ds) and bool(tr), "attempts are repeated without any delay"):
            continue
        n += 1
        db = blks(ds)
        bad = reach(fl, succs(fl, blks(tr)), avoid=db) & set(blks(tr))
        cx.ob("delay-between-attempts", name, not bad, "an attempt can follow another without a delay", cat(tr[0]))
        # the count, as it arrives at the loop head
        heads = {d.args[0] for d in ds}
        for x in heads:
            if not cx.ob("count", name, x[0] == "phi", "the delay does not depend on a count that survives an attempt: " + fmt(x)):
                continue
            _, h, root, pth = x
            ways = walk(fl, [(c.blk, None) for c in tr], [h])
            if not cx.ob("paths", name, bool(ways), "the attempts could not be followed"):
                continue
            for b, st, blocks in ways:
                if b != h:
                    continue
                v = fl.read(st, root, pth)
                f = facts_of(st)
                ok = inc(v, x) or any(f.get(c.dest) == ("v", g) for c in tr for g in good)
                if not ok:
                    cx.ob("failure-raises-delay", name, False, "a failed attempt is repeated with the same delay (count %s)" % fmt(v), at(fl, blocks[-2]))
                    break
            else:
                cx.ob("failure-raises-delay", name, True)
            # a failed write reconnects after a longer delay too
            wr = [c for c in fl.calls if last(c) in ("write_all", "write_raw_bytes", "write_to_with_cached_sizes", "flush") and "sink::" not in c.path]
            fails = edge_pairs(fl, lambda t, v: v == ("v", "Err") and any(t == c.dest for c in wr))
            if name != "influxdb":
                ways = walk(fl, fails, [h])
                ok = bool(ways) and all(b != h or inc(fl.read(st, root, pth), x) for b, st, _ in ways)
                cx.ob("failure-raises-delay", name + "/write", ok, "a failed write is repeated with the same delay")
            # once delivered, the count is lower, or none
            ends = [fl.read(q.state, root, pth) for q in trace(fl, cycles=1) or () if q.end in fl.ret_blocks]
            local = root[0] == "l" and not pth
            cx.ob("delivery-lowers-delay", name, bool(ends) and (local or all(less(v) for v in ends)), "after a delivery the next failure is waited out as if it followed those before: %s" % sorted({fmt(v) for v in ends if not less(v)})[:1])
            if local:
                ins = [v for _, v, _ in phi_ins(fl, x)]
                cx.ob("first-without-delay", name, ("c", 0) in ins, "the count of failures does not start at none")
            else:
                started(cx, name, pth)
    cx.floor("delivery loops", n, 3)
    polls(cx)
    naps(cx)


def less(v):
    """nothing, or less than it was"""
    if v == ("c", 0):
        return True
    if v[0] == "bin" and v[1] == "Sub":
        return v[3][0] == "c" and v[3][1] >= 1
    return v[0] == "call" and v[1].rsplit("::", 1)[-1] == "saturating_sub" and v[2][1][0] == "c" and v[2][1][1] >= 1


def started(cx, name, pth):
    """a sink starts with no failures"""
    f = [x[1] for x in pth if x[0] == "f"]
    p = cx.method("sink::Sink", "^sink::%s::" % name, "init")
    fl = cx.flow(p, opaque=OPQ)
    for q in trace(fl) or ():
        if q.end in fl.ret_blocks:
            v = dict(q.ret[2]).get(f[-1]) if q.ret[0] == "agg" and f else None
            cx.ob("first-without-delay", name, v == ("c", 0), "the count of failures does not start at none")


def polls(cx):
    for name, path in (("sink", "sink::RunnableSink::<S, SConfig>::consume"), ("filter", "filter::Filter::run")):
        fl = cx.flow(path, opaque=OPQ)
        ds = delays(fl)
        rx = [c for c in fl.calls if last(c) == "next" and "hopper" in c.path]
        if not cx.ob("waits", name, bool(ds) and bool(rx), "an idle stage polls without any delay"):
            continue
        none = edge_pairs(fl, lambda t, v: v == ("v", "None") and any(t == c.dest for c in rx))
        some = edge_pairs(fl, lambda t, v: v == ("v", "Some") and any(t == c.dest for c in rx))
        for x in {d.args[0] for d in ds}:
            if not cx.ob("count", name, x[0] == "phi", "the delay does not depend on a count: " + fmt(x)):
                continue
            _, h, root, pth = x
            ways = walk(fl, [(c.blk, None) for c in rx], [h])
            idle = [(b, st) for b, st, _ in ways or () if b == h and any(facts_of(st).get(c.dest) == ("v", "None") for c in rx)]
            ok = bool(idle) and all(inc(fl.read(st, root, pth), x) for b, st in idle)
            cx.ob("idle-raises-delay", name, ok, "an idle poll is repeated with the same delay")
            bad = must_reach(fl, [s for _, s in none], blks(ds), blks(rx))
            cx.ob("delay-between-polls", name, not bad, "an idle stage polls again without a delay")
            # progress never raises the count, and an ordinary event resets it
            prog = [fl.read(st, root, pth) for b, st, _ in ways or () if b == h and any(facts_of(st).get(c.dest) == ("v", "Some") for c in rx)]
            cx.ob("progress-resets", name, bool(prog) and ("c", 0) in prog and all(v == ("c", 0) or v == x for v in prog), "the delay does not start over after an event arrived")


def table(cx):
    fl = cx.flow("time::delay")
    A = ("arg", 1)
    qs = trace(fl, None, [])
    if not cx.ob("delay-table", "delay", bool(qs), "delay cannot be followed"):
        return
    seq = []
    for k in list(range(40)) + [64, 100, 1000, 4096, 65536, (1 << 31) - 1, (1 << 32) - 1]:
        env = lambda t: k if t == A else None
        seq.append({waited(q, env) for q in qs if could(q, env, "u64")})
    ok = all(len(x) == 1 and None not in x for x in seq)
    cx.ob("delay-table", "decided", ok, "the delay is not a function of the count")
    if ok:
        seq = [x.pop() for x in seq]
        cx.ob("delay-table", "zero", seq[0] == 0, "a first attempt is delayed")
        cx.ob("delay-table", "grows", all(a <= b for a, b in zip(seq, seq[1:])) and all(m > 0 for m in seq[1:]), "a larger count does not wait at least as long: %s" % seq[:20])
        cx.ob("delay-table", "bounded", seq[-1] <= 1000 and seq[-1] >= 256, "the longest delay is not around half a second: %s" % seq[-1])
        cx.floor("counts of attempts", len(seq), 47)


def waited(q, env):
    """the milliseconds a path of delay sleeps"""
    n = 0
    for c in q.calls:
        if c.path == "std::thread::sleep":
            d = c.args[0]
            if d[0] != "call" or not d[1].endswith("from_millis"):
                return None
            try:
                n += evalt(d[2][0], env, "u64")
            except (Unknown, Overflow):
                return None
    return n


def ms(t, env):
    """a duration of constants, in milliseconds"""
    if t in env:
        return env[t]
    if t[0] == "c" and isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
        return t[1]
    if t[0] == "cast":
        return ms(t[2], env)
    if t[0] == "bin":
        a, b = ms(t[2], env), ms(t[3], env)
        if a is None or b is None:
            return None
        return {"Add": a + b, "Mul": a * b, "Sub": max(a - b, 0), "Div": a // b if b else None, "Shl": a * 2 ** b if b < 64 else None, "Shr": a // 2 ** b if b < 64 else None}.get(t[1])
    if t[0] == "call" and len(t) > 2:
        n = t[1].rsplit("::", 1)[-1]
        xs = [ms(a, env) for a in t[2]]
        if any(x is None for x in xs):
            return None
        if len(xs) == 1 and n in ("from_millis", "clone", "from", "into"):
            return xs[0]
        if len(xs) == 1 and n == "from_secs":
            return xs[0] * 1000
        if len(xs) == 1 and n == "from_micros":
            return xs[0] / 1000
        if len(xs) == 2:
            a, b = xs
            if n == "new":
                return a * 1000 + b / 1000000
            f = {"min": min, "max": max, "add": lambda a, b: a + b, "saturating_add": lambda a, b: a + b, "wrapping_add": lambda a, b: a + b, "mul": lambda a, b: a * b, "saturating_mul": lambda a, b: a * b,
                 "div": lambda a, b: a / b if b else None, "sub": lambda a, b: max(a - b, 0), "saturating_sub": lambda a, b: max(a - b, 0), "pow": lambda a, b: a ** b if b < 64 else None}.get(n)
            return f(a, b) if f else None
    return None


def naps(cx):
    """while a connection waits to be acknowledged it looks again after a nap that grows up to a bound"""
    p = "metric::ackbag::SyncAckBag::wait_for"
    if not cx.ob("nap", "code", p in cx.prog.bodies, "the wait for an acknowledgement is not found"):
        return
    fl = cx.flow(p)
    hs = set(headers(fl))
    zzz = [c for c in fl.calls if c.path == "std::thread::sleep" or c.path.endswith("Fn::call") and c.args and c.args[0] == ("fn", "std::thread::sleep")]
    if not cx.ob("nap", "sleeps", bool(zzz), "the wait for an acknowledgement does not sleep"):
        return
    body = [q for h in hs for q in trace(fl, [(h, None)], hs) or () if q.end in hs]
    first = [q for q in trace(fl, None, hs) or () if q.end in hs]
    cx.ob("nap", "rounds", bool(body) and bool(first), "the wait for an acknowledgement is not understood")
    rounds = []
    for i, q in enumerate(body):
        z = [c for c in q.calls if c.path == "std::thread::sleep" or c.path.endswith("Fn::call") and c.args and c.args[0] == ("fn", "std::thread::sleep")]
        if cx.ob("nap", "every round #%d" % i, len(z) == 1, "an acknowledgement is looked for again without a nap"):
            d = z[0].args[-1]
            rounds.append((q, d[2][0][1] if d[0] == "agg" and len(d[2]) == 1 else d))
    ph = set().union(*[phis(d) for _, d in rounds]) if rounds else set()
    while True:
        more = ph.union(*[phis(fl.read(q.state, x[2], x[3])) for q, _ in rounds for x in ph if x[1] == q.end])
        if more == ph:
            break
        ph = more
    for j, s in enumerate(first):
        todo = [tuple(sorted((x, ms(fl.read(s.state, x[2], x[3]), {})) for x in ph if x[1] == s.end))]
        done, bad = {(todo[0], 0)}, None
        todo = list(done)
        while todo and bad is None and len(done) < 2000:
            st, was = todo.pop()
            env = {x: v for x, v in st if v is not None}
            for q, d in rounds:
                if any(holds(t, env) not in (None, f[1]) for t, f in q.facts.items() if isinstance(f, tuple) and f[0] == "c"):
                    continue
                v = ms(d, env)
                if v is None or not max(was, 1e-6) <= v <= 500:
                    bad = (was, v)
                    break
                nx = (tuple(sorted((x, ms(fl.read(q.state, x[2], x[3]), env)) for x, _ in st)), v)
                if nx not in done:
                    done.add(nx)
                    todo.append(nx)
        cx.ob("nap", "grows #%d" % j, bad is None and not todo and bool(rounds), "the naps between looking for an acknowledgement shrink, vanish or grow without bound: %s ms, then %s" % (bad or ("?", "?")))


def holds(t, env):
    if t[0] == "bin" and t[1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
        a, b = ms(t[2], env), ms(t[3], env)
        if a is not None and b is not None:
            return {"Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b, "Eq": a == b, "Ne": a != b}[t[1]]
    return None


def phis(t):
    if not isinstance(t, tuple):
        return set()
    if t and t[0] == "phi":
        return {t}
    return set().union(*[phis(x) for x in t]) if t else set()


def headers(fl):
    """blocks that a back edge leads to"""
    out, color = set(), {}
    st = [(0, iter(fl.succ.get(0, ())))]
    color[0] = 1
    while st:
        b, it = st[-1]
        for s in it:
            if color.get(s) == 1:
                out.add(s)
            elif s not in color:
                color[s] = 1
                st.append((s, iter(fl.succ.get(s, ()))))
                break
        else:
            color[b] = 2
            st.pop()
    return out
