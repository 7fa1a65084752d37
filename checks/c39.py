"""Zeros where a Wavefront series has a gap, and nowhere else.

The iterator that pads is taken path by path; on a finite model of what is held back,
what is left, times, spans, kinds and earlier flushes each path's effect - what it hands
out, what it holds back - is compared with what the gap asks for."""
import itertools
from rules import *

W = "sink::wavefront::"
A = ("arg", 1)
Q, ORIG, SEEN, DONE, SPAN, CTL = (("fld", A, n) for n in ("emit_q", "orig", "last_seen", "flush_padded", "span", "pad_control"))
KINDS = {"Histogram": "histogram", "Set": "set", "Sum": "sum", "Summarize": "summarize"}
PADS = (r"^sink::wavefront::Pad::", r"^<sink::wavefront::Pad<", r"^<buckets::", r"^buckets::", r"^metric::", r"^<metric::")


def last(c):
    return (c if isinstance(c, str) else c.path).rsplit("::", 1)[-1]


def call(t, *names):
    return isinstance(t, tuple) and len(t) > 2 and t[0] == "call" and last(t[1]) in names


def inside(t, v, i="0"):
    return ("fld", ("var", t, v), i)


def bare(t):
    while call(t, "clone", "deref", "borrow", "to_owned", "as_ref", "iter", "into_iter"):
        t = t[2][0]
    return t


def run(cx):
    pads(cx)
    made(cx)
    gaps(cx)
    flushes(cx)
    deliver(cx)


# ------------------------------------------------------------------ the points and zeros

def pads(cx):
    """what a point or zero says of itself"""
    n = 0
    for name in ("hash", "timestamp", "skip_pad", "zero_at"):
        p = [b for b in cx.prog.bodies if re.match(r"sink::wavefront::Pad(::<.*>)?::%s$" % name, b)]
        if not cx.ob("pad", name, len(p) == 1, "what a padded point says of itself is not found"):
            continue
        fl = cx.flow(p[0], opaque=(r"^metric::", r"^<metric::"))
        for i, q in enumerate(trace(fl) or ()):
            if q.end not in fl.ret_blocks:
                continue
            where = at(fl, q.blocks[-2]) if len(q.blocks) > 1 else None
            inst = "%s #%d" % (name, i)
            k = q.facts.get(A, (None, None))[1]
            if not cx.ob("pad", inst + " kind", k in ("Zero", "Telem"), "a zero is not told from a point", where):
                continue
            n += 1
            x = inside(A, k)
            r = q.ret
            if name == "hash":
                ok = call(r, "hash") and r[1].startswith(("metric::", "<metric::")) and r[2][0] == x
                cx.ob("pad", inst, ok, "a padded point is not of its point's series", where)
            elif name == "timestamp":
                cx.ob("pad", inst, r == (inside(A, k, "1") if k == "Zero" else ("fld", x, "timestamp")), "a padded point is not at its own time", where)
            elif name == "zero_at":
                cx.ob("pad", inst, r == ("agg", "Zero", (("0", x), ("1", ("arg", 2)))), "a zero is not of the point's series at the time asked for", where)
            elif k == "Zero":
                cx.ob("pad", inst, is_const(r, True), "a zero is padded again", where)
            else:
                ks = [v[1] for t, v in q.facts.items() if call(t, "kind") and t[2][0] == x and v[0] == "v"]
                nots = [y for t, s in q.facts.items() if t[0] == "not" and call(t[1], "kind") for y in s]
                ks = ks or [y for y in KINDS if y not in nots]
                ok = len(ks) == 1
                if ok:
                    c = ("fld", ("arg", 2), KINDS[ks[0]])
                    ok = all(skips(r, q, c, on) for on in (True, False))
                cx.ob("pad", inst, ok, "whether a kind is padded is not as configured: %s" % ks, where)
    cx.floor("cases of a padded point", n, 11)


def skips(r, q, c, on):
    env = lambda t: on if t == c else None
    if not could(q, env):
        return True
    try:
        return bool(evalt(r, env)) == (not on)
    except (Unknown, Overflow):
        return False


def made(cx):
    """padding starts from the points, the span, what was seen and the kinds it is given"""
    p = W + "padding"
    if not cx.ob("made", "code", p in cx.prog.bodies, "the padding is not found"):
        return
    fl = cx.flow(p, opaque=PADS)
    ps = [q for q in trace(fl) or () if q.end in fl.ret_blocks]
    cx.ob("made", "paths", bool(ps), "the padding is not understood")
    empty = lambda t: t[0] == "default" or call(t, "new", "default", "with_capacity") or t[0] == "agg" and not t[2]
    for i, q in enumerate(ps):
        d = dict(q.ret[2]) if q.ret[0] == "agg" else {}
        ok = d.get("orig") == A and d.get("span") == ("arg", 2) and d.get("last_seen") == ("arg", 3) and d.get("pad_control") == ("arg", 4)
        cx.ob("made", "from #%d" % i, ok, "the points are padded by other settings than given")
        cx.ob("made", "fresh #%d" % i, empty(d.get("emit_q", ("?",))) and empty(d.get("flush_padded", ("?",))), "the padding starts with something left over")


# ------------------------------------------------------------------ gaps

def m_next(fl, st, path, raw, vals, blk):
    """each point drawn is another one"""
    return ("call", "drawn::next", (vals[0],), blk) if vals and bare(vals[0]) == ORIG else None


class Case:
    def __init__(self, nq, no, same, skip, done, seen, x, y, span):
        self.nq, self.no = nq, no
        self.q, self.o = ["s%d" % i for i in range(nq)], ["s%d" % (nq + i) for i in range(no)]
        self.same, self.skip, self.done, self.seen, self.span = same, skip, done, seen, span
        self.ts = {"s0": x, "s1": y, "s2": 77}
        self.h = {"s0": 1, "s1": 1 if same else 2, "s2": 3}

    def want(self):
        """(streams, whether the series counts as padded over the flush): what may be handed out from here on"""
        s = self.q + self.o
        if not s:
            return [[]], {False}
        x = "s0"
        if len(s) > 1 and not self.same:
            return ([s] + ([self.zeros(s)] if not self.skip and not self.done and self.gap() else [])), {False, True}
        if self.skip:
            return [s], {False}
        if not self.done and self.seen is not None:
            if self.ts[x] > self.seen:
                if self.gap():
                    return [self.zeros(s)], {True}
                if len(s) < 2:
                    return [s], {True}
                return [self.between(s)], {True}
            return [s], {False}
        return [self.between(s) if len(s) > 1 else s], {False}

    def gap(self):
        return self.seen is not None and self.ts["s0"] > self.seen and (self.ts["s0"] - self.seen) // self.span > 1

    def zeros(self, s):
        return [("z", "s0", self.seen + 1), ("z", "s0", self.ts["s0"] - 1)] + s

    def between(self, s):
        a, b = self.ts["s0"], self.ts["s1"]
        if abs(a - b) // self.span <= 1:
            return s
        return ["s0", ("z", "s0", a + 1), ("z", "s0", b - 1)] + s[1:]


def cases():
    for nq, no in ((0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2), (3, 0), (2, 1), (1, 2)):
        n = nq + no
        for same, skip, done in itertools.product((True, False) if n > 1 else (True,), (True, False), (True, False)):
            for x, y, seen, span in [(20, y, s, w) for w in (1, 3) for s in (None, 8, 16, 17, 18, 19, 20, 23) for y in ((20, 21, 22, 24, 25, 26, 31) if n > 1 else (20,))]:
                if n == 0 and (skip or done or seen):
                    continue
                yield Case(nq, no, same, skip, done, seen, x, y, span)


class Odd(Exception):
    pass


def draws(q):
    return [c for c in q.calls if last(c) == "pop" and c.args[0] == Q or last(c) == "next" and c.args and bare(c.args[0]) == ORIG]


def drawn(q, ds, c):
    """(items by term, queue left, points left), if path q can draw so from what there is"""
    qs, os_, name = list(c.q), list(c.o), {}
    for d in ds:
        src = qs if last(d) == "pop" else os_
        v = q.facts.get(d.dest)
        if v is None:
            nv = q.facts.get(("not", d.dest), ())
            v = ("v", "Some") if "None" in nv else ("v", "None") if "Some" in nv else None
        if v is not None and v[1] != ("Some" if src else "None"):
            return None
        if src:
            n = src.pop(0)
            name[inside(d.dest, "Some")] = n
            if last(d) == "next":
                name[("agg", "Telem", (("0", inside(d.dest, "Some")),))] = n
        elif v is None and d.dest not in q.facts:
            pass
    return name, qs, os_


def item(t, name):
    """(name of the series' point, time of the zero or None)"""
    t = bare(t)
    if t in name:
        return name[t], None
    if call(t, "zero_at") and len(t[2]) == 2:
        return item(t[2][0], name)[0], t[2][1]
    if t[0] == "agg" and t[1] == "Zero":
        return item(dict(t[2])["0"], name)[0], dict(t[2])["1"]
    raise Odd(t)


def env_of(c, name):
    def num(t):
        return evalt(t, env)

    def env(t):
        if t == SPAN:
            return c.span
        if call(t, "hash", "timestamp", "skip_pad") and W in t[1]:
            try:
                n, z = item(t[2][0], name)
            except Odd:
                return None
            if last(t[1]) == "hash":
                return c.h[n]
            if last(t[1]) == "timestamp":
                return num(z) if z is not None else c.ts[n]
            return (n == "s0" and c.skip or z is not None) if t[2][1] == CTL and n == "s0" else None
        if call(t, "contains") and t[2][0] == DONE:
            return c.done if num(t[2][1]) == 1 else None
        if t[0] == "fld" and t[1][0] == "var" and t[1][2] == "Some" and call(t[1][1], "get") and t[1][1][2][0] == SEEN:
            return c.seen if num(t[1][1][2][1]) == 1 else None
        return None
    return env


def gaps(cx):
    p = [b for b in cx.prog.bodies if re.match(r"<sink::wavefront::Padding<.*> as .*Iterator>::next$", b)]
    if not cx.ob("gap", "code", len(p) == 1, "the padding is not found"):
        return
    fl = cx.flow(p[0], opaque=PADS, models={r"(^|::)next$": m_next}, key="c39")
    ps = [q for q in trace(fl) or () if q.end in fl.ret_blocks]
    cx.ob("gap", "paths", bool(ps), "the padding is not understood")
    info = []
    for q in ps:
        ds = draws(q)
        push = [c for c in q.calls if last(c) in ("push", "extend", "insert", "extend_from_slice", "append", "clear", "truncate", "remove", "swap_remove", "drain", "retain", "split_off", "resize", "reverse", "swap") and c.args and c.args[0] == Q]
        marks = [c for c in q.calls if last(c) in ("insert", "remove", "clear", "retain", "extend", "drain", "take", "replace") and c.args and c.args[0] == DONE]
        # nothing else that is read later may change
        odd = [w for w in q.writes if any(x[0] == "f" and x[1] in ("emit_q", "orig", "last_seen", "flush_padded", "span", "pad_control") for x in w.proj) or not w.proj]
        info.append((q, ds, push, marks, odd, {}))
    bad, n, seen = {}, 0, set()
    for c in cases():
        n += 1
        streams, mark = c.want()
        hits = 0
        for i, (q, ds, push, marks, odd, memo) in enumerate(info):
            k = (c.nq, c.no)
            if k not in memo:
                memo[k] = drawn(q, ds, c)
            if memo[k] is None:
                continue
            name, qs, os_ = memo[k]
            env = env_of(c, name)
            if any(call(t, "get") and t[2][0] == SEEN and v[0] == "v" and (v[1] == "Some") != (c.seen is not None) for t, v in q.facts.items()):
                continue
            try:
                if not could(q, env):
                    continue
            except Odd:
                continue
            hits += 1
            seen.add(i)
            try:
                got, m = effect(c, q, name, env, qs, os_, push, marks, odd)
            except (Odd, Unknown, Overflow, KeyError, IndexError) as e:
                bad.setdefault(i, "not understood: %s" % repr(e)[:150])
                continue
            if got not in streams:
                bad.setdefault(i, say(c, got, streams[0]))
            elif m not in mark:
                bad.setdefault(i, "a gap over a flush is %s" % ("taken for filled when it is not" if m else "filled twice"))
        if not hits:
            bad.setdefault("none", "no way to go on with %d held back and %d left" % (c.nq, c.no))
    for i, (q, ds, push, marks, odd, memo) in enumerate(info):
        cx.ob("gap", "path #%d" % i, i not in bad, "a gap is not filled as it should be: %s" % bad.get(i), at(fl, q.blocks[-2]) if len(q.blocks) > 1 else None)
    cx.ob("gap", "every case", "none" not in bad, "the padding: %s" % bad.get("none"))
    cx.floor("ways to go on", len(seen), 12)
    cx.floor("cases of gaps", n, 1000)


def effect(c, q, name, env, qs, os_, push, marks, odd):
    def one(t):
        n, z = item(t, name)
        return n if z is None else ("z", n if c.h[n] != c.h["s0"] else "s0", evalt(z, env))
    if odd:
        raise Odd(odd)
    left = list(qs)
    for p in push:
        if last(p) != "push":
            raise Odd(p)
        left.insert(0, one(p.args[1]))
    if q.ret == ("agg", "None", ()):
        got = []
        if left or os_:
            got = ["ended"]
    elif q.ret[0] == "agg" and q.ret[1] == "Some":
        got = [one(q.ret[2][0][1])] + left + os_
    elif q.ret in [d for d in (call_.dest for call_ in draws(q))]:
        v = inside(q.ret, "Some")
        got = ([name[v]] if v in name else []) + left + os_
    else:
        raise Odd(q.ret)
    m = False
    for k in marks:
        if last(k) != "insert" or evalt(k.args[1], env) != 1:
            raise Odd(k)
        m = True
    return got, m


def say(c, got, want):
    s = lambda l: " ".join(x if isinstance(x, str) else "0@%d" % x[2] for x in l)
    return "points at %d and %s%s, span %d, last seen %s: %s instead of %s" % (c.ts["s0"], c.ts["s1"], "" if c.same else " (another series)", c.span, c.seen, s(got) or "nothing", s(want) or "nothing")


# ------------------------------------------------------------------ over flushes

def flushes(cx):
    """what was sent last of each series is remembered for the next flush"""
    p = W + "Wavefront::format_stats"
    if not cx.ob("flush", "code", p in cx.prog.bodies, "the flush is not found"):
        return
    fl = cx.flow(p, opaque=PADS + (r"fmt_val$", r"^sink::wavefront::padding$", r"^<sink::wavefront::Padding", r"^time::"))
    LS, AGG = ("fld", A, "last_seen"), ("fld", A, "aggrs")
    ls = loops(fl)
    outer = [L for L in ls if call(L.it, "padding")]
    if not cx.ob("flush", "loop", len(outer) == 1 and outer[0].complete(), "the points and zeros are not gone through, all of them"):
        return
    L = outer[0]
    held = {LS} | {c.dest for c in fl.calls if last(c) in ("replace", "take") and c.args and c.args[0] == LS}
    aggrs = {AGG} | {c.dest for c in fl.calls if last(c) in ("replace", "take") and c.args and c.args[0] == AGG}
    a = L.it[2]
    cx.ob("flush", "points", bare(a[0]) in aggrs, "something else than the buffered points is padded")
    cx.ob("flush", "span", a[1] == ("fld", A, "bin_width"), "gaps are not told by the width of a bin")
    cx.ob("flush", "seen", bare(a[2]) in held, "gaps are not told by what was sent before")
    cx.ob("flush", "kinds", a[3] == ("fld", A, "pad_control"), "which kinds are padded is not as configured")
    ins = [c for c in fl.calls if last(c) == "insert" and "HashMap" in c.path and len(c.args) == 3 and call(c.args[1], "hash") and c.args[1][2][0] == L.elem]
    ok = len({c.args[0] for c in ins}) == 1 and all(call(c.args[2], "timestamp") and W in c.args[2][1] and c.args[2][2][0] == L.elem for c in ins)
    bad = reach(fl, [s for _, s in L.some], avoid=blks(ins)) & set(L.next) if ins else {0}
    cx.ob("flush", "noted", ok and not bad, "the time of a point is not noted for its series")
    if not ins or not ok:
        return
    TM = ins[0].args[0]
    # all that was noted goes where the next flush looks
    into = [M for M in ls if M is not L and bare(M.it) == TM and M.complete()]
    moved = []
    for M in into:
        e = M.elem
        for c in fl.calls:
            if last(c) == "insert" and "HashMap" in c.path and c.args[1:] == [("fld", e, "0"), ("fld", e, "1")] or last(c) == "insert" and "HashMap" in c.path and [bare(x) for x in c.args[1:]] == [("fld", e, "0"), ("fld", e, "1")]:
                if not reach(fl, [s for _, s in M.some], avoid={c.blk}) & set(M.next):
                    moved.append((c.args[0], {x for x, _ in M.some} | set(M.next)))
    for c in fl.calls:
        if last(c) == "extend" and "HashMap" in c.path and bare(c.args[1]) == TM:
            moved.append((c.args[0], {c.blk}))
    cx.ob("flush", "kept", bool(moved) and all(r in held for r, _ in moved), "what was sent is not remembered with what was before")
    if moved:
        dest, bl = moved[0]
        cx.ob("flush", "kept always", not (reach(fl, [0], avoid=bl) & set(fl.ret_blocks)), "what was sent is not always remembered")
        ends = [q for q in trace(fl, L.done) or () if q.end in fl.ret_blocks]
        back = bool(ends)
        for q in ends:
            back = back and fl.read(q.state, ("t", A), (("f", "last_seen"),)) in (dest, LS)
        cx.ob("flush", "next flush", back, "what is remembered is not what the next flush looks at")


def deliver(cx):
    """a point is buffered unless it is further from now than the age configured"""
    p = [b for b in cx.prog.bodies if re.match(r"<sink::wavefront::Wavefront as .*Sink.*>::deliver$", b)]
    if not cx.ob("age", "code", len(p) == 1, "deliver is not found"):
        return
    fl = cx.flow(p[0], opaque=PADS + (r"^time::",))
    TH = ("fld", A, "age_threshold")
    T = ("arg", 2)
    seen = {}
    for i, q in enumerate(trace(fl) or ()):
        if q.end not in fl.ret_blocks:
            continue
        adds = [c for c in q.calls if last(c) == "add" and "Buckets" in c.path]
        lim = q.facts.get(TH, (None, None))[1]
        if not cx.ob("age", "#%d limit" % i, lim in ("Some", "None"), "whether there is an age limit is not looked at"):
            continue
        if lim == "None":
            seen[lim] = True
            cx.ob("age", "#%d none" % i, len(adds) == 1 and adds[0].args[1] == T, "a point is left out though there is no age limit")
            continue
        bad = None
        for ts, th in ((90, 10), (89, 10), (100, 0), (101, 0), (99, 0), (110, 10), (111, 10), (95, 10), (105, 10), (1000, 10), (0, 10)):
            def env(t):
                if t == ("fld", T, "timestamp"):
                    return ts
                if call(t, "now"):
                    return 100
                if t == inside(TH, "Some"):
                    return th
                return None
            if not could(q, env):
                continue
            want = abs(ts - 100) <= th
            seen[want] = True
            if len(adds) != (1 if want else 0):
                bad = (ts, th)
        cx.ob("age", "#%d told" % i, bad is None, "a point is buffered or left out against its age: %s" % (bad and "stamped %d at 100, limit %d" % bad), at(fl, q.blocks[-2]) if len(q.blocks) > 1 else None)
    cx.ob("age", "cases", seen == {"None": True, True: True, False: True}, "a case of age is never met")
