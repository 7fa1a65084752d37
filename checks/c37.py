"""Heartbeats.  The loops that make pulses, report counters and look at files are followed
round by round: what a round sends, how long it waits - computed from the values it starts
with, over many rounds - and what it leaves to the next.  How much of one file is read
before the others get their turn is decided by trying the read loop's way round on counts
below and beyond the limit."""
from rules import *
from c33 import ms, phis, holds, headers

POLL = "mio::Poll::poll"


def last(c):
    return (c if isinstance(c, str) else c.path).rsplit("::", 1)[-1]


def call(t, *names):
    return isinstance(t, tuple) and len(t) > 2 and t[0] == "call" and last(t[1]) in names


def run(cx):
    pulses(cx)
    reports(cx)
    looks(cx)


def naps(q):
    return [ms(c.args[0] if not c.path.endswith("sleep_ms") else ("call", "from_millis", (c.args[0],)), {}) for c in q.calls if c.path in ("std::thread::sleep", "std::thread::sleep_ms", "std::thread::park_timeout")]


# ------------------------------------------------------------------ pulses

def pulses(cx):
    fl = cx.flow(cx.method("source::Source", r"FlushTimer$", "run"), opaque=("^util::send$",))
    per = cx.flow("source::flush::flushes_per_second").ret()
    if not cx.ob("pulses", "rate", per is not None and per[0] == "c" and per[1] > 0, "how many pulses there are in a second is not known"):
        return
    hs = set(headers(fl))
    ends = {e for L in loops(fl) if unending(L.it) for e in L.done}
    cx.ob("pulses", "for ever", bool(hs) and not (without(fl, ends) & set(fl.ret_blocks)), "pulses can end")
    never = lambda q: any(e in ends for e in zip(q.blocks, list(q.blocks[1:]) + [q.end]))
    rounds = [q for h in hs for q in trace(fl, [(h, None)], hs) or () if not never(q)]
    start = [q for q in trace(fl, None, hs) or () if q.end in hs]
    if not cx.ob("pulses", "rounds", bool(rounds) and bool(start), "the loop that makes pulses is not understood"):
        return
    sent = {}
    for i, q in enumerate(rounds):
        cx.ob("pulses", "again #%d" % i, q.end in hs, "pulses can end")
        ss = [c for c in q.calls if c.path == "util::send"]
        ok = len(ss) == 1 and ss[0].args[0] == ("arg", 2) and ss[0].args[1][0] == "agg" and ss[0].args[1][1] == "TimerFlush"
        if cx.ob("pulses", "one #%d" % i, ok, "a round does not send one pulse to every channel"):
            sent[i] = dict(ss[0].args[1][2])["0"]
        z = naps(q)
        cx.ob("pulses", "on time #%d" % i, bool(z) and all(x is not None for x in z) and abs(sum(z) * per[1] - 1000) < 1, "the waits between %s pulses are not a second: %s ms each" % (per[1], z))
    for j, s in enumerate(start):
        cx.ob("pulses", "before #%d" % j, not [c for c in s.calls if c.path == "util::send"], "a pulse is sent out of sequence")
        ph = set().union(*[phis(v) for v in sent.values()]) if sent else set()
        todo = [(1, s.end, {x: ms(fl.read(s.state, x[2], x[3]), {}) for x in ph if x[1] == s.end})]
        bad = None
        while todo and bad is None:
            n, h, env = todo.pop()
            env = {a: b for a, b in env.items() if b is not None}
            for i, q in enumerate(rounds):
                if i not in sent or n > 5 or q.blocks and q.blocks[0] != h:
                    continue
                v = count(sent[i], env, n)
                if v != n:
                    bad = (n, v)
                    break
                todo.append((n + 1, q.end, {x: ms(fl.read(q.state, x[2], x[3]), env) for x in ph if x[1] == q.end}))
        cx.ob("pulses", "in sequence #%d" % j, bad is None and bool(sent), "pulse %s is numbered %s" % (bad or ("?", "?")))
    cx.floor("pulses", len(sent), 1)


def unending(r):
    """a range without an end"""
    while call(r, "into_iter", "iter"):
        r = r[2][0]
    return r[0] == "agg" and [n for n, _ in r[2]] == ["start"]


def without(fl, cut):
    """what is come to without an edge of cut"""
    seen, st = set(), [0]
    while st:
        b = st.pop()
        if b not in seen:
            seen.add(b)
            st += [s for s in fl.succ.get(b, ()) if (b, s) not in cut]
    return seen


def count(t, env, n):
    """the number a pulse gets in the nth round"""
    while t[0] == "cast":
        t = t[2]
    if t[0] == "elem":
        r = t[1]
        while call(r, "into_iter", "iter"):
            r = r[2][0]
        if r[0] == "agg" and r[2] and r[2][0][0] == "start" and r[2][0][1][0] == "c":
            return r[2][0][1][1] + n - 1
        return None
    if t[0] == "bin" and t[1] == "Add" and any(x[0] == "elem" for x in t[2:4]):
        a, b = count(t[2], env, n), count(t[3], env, n)
        return a + b if a is not None and b is not None else None
    if t[0] == "call" and last(t[1]) in ("wrapping_add", "saturating_add"):
        a, b = (count(x, env, n) for x in t[2])
        return a + b if a is not None and b is not None else None
    return ms(t, env)


# ------------------------------------------------------------------ reports

def reports(cx):
    fl = cx.flow(cx.method("source::Source", r"internal::Internal$", "run"), opaque=("^util::send$", r"^<?metric::"))
    ps = [c for c in fl.calls if c.path == POLL]
    for i, c in enumerate(ps):
        t = c.args[2]
        v = ms(t[2][0][1], {}) if t[0] == "agg" and t[1] == "Some" else None
        cx.ob("reports", "wait #%d" % i, v is not None and 0 < v <= 1000, "the counters are not reported every second: the wait is %s" % (fmt(t) if v is None else "%s ms" % v), at(fl, c.blk))
    cx.floor("reports", len(ps), 1)


# ------------------------------------------------------------------ looks at files

def looks(cx):
    fl = cx.flow(cx.method("source::Source", r"FileServer$", "run"), opaque=("report_full_telemetry", "FileWatcher::", r"util::send$", "metric::"))
    fair(cx, fl)
    waits(cx, fl)


def fair(cx, fl):
    rl = [c for c in fl.calls if c.path.endswith("FileWatcher::read_line")]
    if not cx.ob("fair", "reads", len(rl) == 1, "the file server does not read lines in one place"):
        return
    rl = rl[0]
    got = ("fld", ("var", rl.dest, "Ok"), "0")
    MAX = ("fld", ("arg", 1), "max_read_bytes")
    hs = set(headers(fl))
    # the ways from reading a line to reading the next of the same file
    h = [x for x in hs if x == rl.blk or rl.blk in reach(fl, [x], avoid=hs - {x})]
    near = [x for x in h if x in reach(fl, succs(fl, [rl.blk]), avoid=hs - {x})]
    if not cx.ob("fair", "loop", bool(near), "how often a file is read is not understood"):
        return
    qs = [q for q in trace(fl, [(rl.blk, s) for s in fl.succ[rl.blk]], hs) or () if q.end in near]
    cx.ob("fair", "rounds", bool(qs), "how often a file is read is not understood")
    counts = set()
    for i, q in enumerate(qs):
        ph = set().union(*[phis(t) for t in q.facts]) if q.facts else set()
        ph |= {x for t in q.facts for x in phis(t)}
        ph = {x for x in ph if x[1] in near}
        ok = False
        for x in ph or ():
            new = fl.read(q.state, x[2], x[3])
            grows = all(val(new, {x: a, got: b, MAX: 1000}) == a + b for a, b in ((0, 1), (5, 7), (990, 20)))
            env = lambda a, b, m: (lambda t: {x: a, got: b, MAX: m}.get(t))
            if not any(could(q, env(a, b, 1000), "usize") for a in (0, 500, 998) for b in (0, 1, 2, 400)):
                ok = True  # a way that is never gone
                break
            over = any(could(q, env(a, b, m), "usize") for a, b, m in ((1001, 1, 1000), (990, 500, 1000), (5000, 7, 1000), (1000, 1, 1000), (10, 1, 10), (2**33, 2**20, 2**32)))
            if grows and not over:
                ok = True
                counts.add(x)
        cx.ob("fair", "bound #%d" % i, ok, "a file is read on though more than its limit was read", at(fl, rl.blk))
    # the count starts over with every file
    back = reach(fl, succs(fl, [rl.blk]), avoid=hs)
    ins = [v for x in counts for p, v, f in phi_ins(fl, x) if p not in back]
    cx.ob("fair", "from nothing", bool(ins) and all(v == ("c", 0) for v in ins), "what was read of a file counts for the next")
    cx.floor("ways to read on", len(qs), 1)


def val(t, env):
    if t in env:
        return env[t]
    if t[0] == "c":
        return t[1]
    if t[0] == "cast":
        return val(t[2], env)
    if t[0] == "bin" and t[1] == "Add" or t[0] == "call" and last(t[1]) in ("saturating_add", "wrapping_add", "add"):
        a, b = (t[2], t[3]) if t[0] == "bin" else t[2]
        a, b = val(a, env), val(b, env)
        return a + b if a is not None and b is not None else None
    return None


def waits(cx, fl):
    ps = [c for c in fl.calls if c.path == POLL]
    if not cx.ob("looks", "poll", len(ps) == 1, "the file server's wait is not found"):
        return
    pl = ps[0]
    t = pl.args[2]
    if not cx.ob("looks", "bounded", t[0] == "agg" and t[1] == "Some", "files are not looked at again until something else happens", at(fl, pl.blk)):
        return
    hs = set(headers(fl))
    outer = [q for h in hs for q in trace(fl, [(h, None)], hs, limit=20000) or () if pl.blk in q.blocks and q.end in hs]
    if not cx.ob("looks", "rounds", bool(outer), "the file server's round is not understood"):
        return
    ends = {q.end for q in outer}
    if not cx.ob("looks", "round", len(ends) == 1, "the file server's round is not understood"):
        return
    oh = ends.pop()
    ways = []
    for q in outer:
        c = [c for c in q.calls if c.blk == pl.blk][0]
        ways.append((q, c.args[2][2][0][1] if c.args[2][0] == "agg" and c.args[2][2] else t))
    ph = set().union(*[phis(d) | set().union(*[phis(k) for k in q.facts]) for q, d in ways])
    cap = {x for x in ph if x[1] == oh}
    rest = ph - cap
    for x in sorted(rest):
        total(cx, fl, x, hs)
    init = {x: {ms(v, {}) for p, v, f in phi_ins(fl, x) if ms(v, {}) is not None and p not in reach(fl, [pl.blk], avoid=[oh])} for x in cap}
    init = {x: v for x, v in init.items() if v}
    cap = set(init)
    if not cx.ob("looks", "start", all(len(v) == 1 for v in init.values()), "what the file server waits at first is not known"):
        return
    env0 = {x: list(v)[0] for x, v in init.items()}

    def step(env, read):
        e = {**env, **{x: read for x in rest}}
        out = []
        for q, d in ways:
            if any(truth(k, e) not in (None, f[1]) for k, f in q.facts.items() if isinstance(f, tuple) and f[0] == "c"):
                continue
            out.append((ms(d, e), {x: ms(fl.read(q.state, x[2], x[3]), e) for x in cap}))
        return out

    def settle(env, read, n, was, bad, seq):
        for _ in range(n):
            outs = {(v, tuple(sorted(e.items()))) for v, e in step(env, read)}
            if len({v for v, e in outs}) != 1 or len(outs) != 1 or None in {v for v, e in outs}:
                bad.append("unknown")
                return env
            (v, e), = outs
            env = dict(e)
            seq.append(v)
        return env
    bad, idle = [], []
    env = settle(env0, 0, 24, 0, bad, idle)
    cx.ob("looks", "idle known", not bad, "how long the file server waits when nothing was read is not understood")
    if bad:
        return
    cx.ob("looks", "idle grows", all(a <= b for a, b in zip(idle, idle[1:])) and idle[-1] >= 100 and idle[0] < idle[-1], "the wait does not grow while nothing is read: %s" % idle[:14])
    cx.ob("looks", "idle bound", max(idle) <= 2048, "files are looked at too seldom: after %s ms" % max(idle))
    for size in (1, 80, 100000):
        bad, seq = [], []
        e = settle(env, size, 1, 0, bad, seq)
        again = []
        settle(e, 0, 3, 0, bad, again)
        cx.ob("looks", "busy %d" % size, not bad and seq[0] <= 1 and again[0] <= idle[0] * 2 + 1, "after lines were read, the wait for more does not start over: %s, then %s ms" % (seq, again))
    cx.floor("rounds of the file server", len(ways), 2)


def total(cx, fl, x, hs):
    """what a look has read: nothing at first, and more by what each file gave"""
    rl = [c for c in fl.calls if c.path.endswith("FileWatcher::read_line")]
    if len(rl) != 1:
        return
    rl = rl[0]
    got = ("fld", ("var", rl.dest, "Ok"), "0")
    inside_ = reach(fl, succs(fl, [x[1]]), avoid=[blks_poll(fl)])
    ins = [v for p, v, f in phi_ins(fl, x) if p not in inside_]
    cx.ob("looks", "total from nothing", bool(ins) and all(v == ("c", 0) for v in ins), "what was read before counts for the next look")
    near = [h for h in hs if rl.blk in reach(fl, [h], avoid=hs - {h})]
    n = 0
    for h in near:
        for i, q in enumerate(trace(fl, [(h, None)], hs, limit=20000) or ()):
            if q.end != x[1]:
                continue
            n += 1
            new = fl.read(q.state, x[2], x[3])
            cs = {y for y in phis(new) if y != x and y[1] == h}
            # a total kept line by line, or a file's own count
            kept = {y for y in cs if x in [v for _, v, _ in phi_ins(fl, y)]}
            ok = h == x[1] or len(cs) == 1
            for y in kept:
                rounds = [r for r in trace(fl, [(rl.blk, s) for s in fl.succ[rl.blk]], hs) or () if r.end == h]
                ok = ok and bool(rounds) and all(val(fl.read(r.state, y[2], y[3]), {y: 50, got: 7}) == 57 for r in rounds)
            for k in (0, 2):
                env = {x: 100, got: k, **{c: 105 if c in kept else 5 for c in cs}}
                if could(q, lambda t: env.get(t), "usize"):
                    asked = any(c.blk == rl.blk for c in q.calls) and q.facts.get(rl.dest) == ("v", "Ok")
                    ok = ok and val(new, env) == 100 + (5 if h != x[1] else 0) + (k if asked else 0)
            cx.ob("looks", "total #%d" % i, ok, "what was read of a file does not count, and the file server waits though there may be more", at(fl, rl.blk))
    cx.floor("ways to be done with a file", n, 1)


def blks_poll(fl):
    return [c.blk for c in fl.calls if c.path == POLL][0]


def truth(t, env):
    r = holds(t, env)
    if r is None and t[0] == "not":
        r = truth(t[1], env)
        return None if r is None else not r
    return r
