"""Internal telemetry.  The internal source's loop is inlined; what it reads of every counter,
what it makes of it and what it sends is followed from one counter to the next, and yields
which counter is reported under which name.  Every use of the counters anywhere in the
program is collected.  Then the code that does the counting is followed path by path, and
what each path adds to which name is compared with what happened on it."""
from rules import *
from c07 import RETRIED

ATOMIC = re.compile(r"atomic::Atomic\w+::(\w+)$")
SWAPS = "cernan."


def last(c):
    return (c if isinstance(c, str) else c.path).rsplit("::", 1)[-1]


def call(t, *names):
    return isinstance(t, tuple) and len(t) > 2 and t[0] == "call" and last(t[1]) in names


def inside(t, v):
    return ("fld", ("var", t, v), "0")


def run(cx):
    names = reading(cx)
    if names:
        everywhere(cx, names)
        counting(cx, {s: n for n, (s, k) in names.items()})
    by_name(cx)


# ------------------------------------------------------------------ the reader

def atomic(c):
    m = ATOMIC.search(c.path)
    return m.group(1) if m and c.args and c.args[0][0] == "static" and not c.args[0][1].startswith("time::") else None


def soft(t):
    """the settings a point was made with"""
    out = {}
    while t[0] == "call" and "SoftTelemetry::" in t[1]:
        out.setdefault(last(t[1]), t[2][1] if len(t[2]) > 1 else None)
        t = t[2][0]
    return out if call(t, "new") and "Telemetry" in t[1] else None


def reading(cx):
    ps = [p for p in cx.prog.bodies if re.search(r"^<source::internal::Internal as source::Source<.*>>::run$", p)]
    if not cx.ob("site", "Internal", len(ps) == 1, "the internal source's loop is not found"):
        return None
    fl = cx.flow(ps[0], opaque=("^util::send$", r"^<?metric::"))
    ops = [c for c in fl.calls if atomic(c)]
    swaps = {c.blk: c for c in ops if atomic(c) == "swap"}
    for c in ops:
        cx.ob("one step", c.args[0][1], atomic(c) == "swap" and c.args[1] == ("c", 0), "a counter is not read and emptied in one step, so what is counted in between is lost or counted twice", at(fl, c.blk))
    poll = [c for c in fl.calls if last(c) == "poll"]
    if not cx.ob("site", "poll", len(poll) == 1, "the loop of the internal source is not found"):
        return None
    stops = set(swaps) | {poll[0].blk}
    empty = lambda q: any(call(t, "is_empty") and t[2] == (("arg", 2),) and v == ("c", True) for t, v in q.facts.items())
    out = {}
    for b, c in sorted(swaps.items()):
        st = c.args[0][1]
        # every round reads the counter, unless there is nobody to tell
        val = c.term if hasattr(c, "term") else None
        qs = trace(fl, [(b, s) for s in fl.succ[b]], stops | {x for x in pops(fl)})
        good = bool(qs)
        for q in qs or []:
            sends = [x for x in q.calls if x.path == "util::send"]
            zero = nonzero(q, fl, b)
            if zero is False:
                good = good and not sends
            elif zero is True or zero is None and sends:
                good = good and len(sends) == 1 and zero is True
                ev = sends[0].args[1] if sends else ("?",)
                m = term_point(ev)
                if m is None:
                    good = False
                    continue
                nm, v, k, ts = m.get("name"), m.get("value"), m.get("kind"), m.get("timestamp")
                good = good and nm and nm[0] == "c" and v and uncast(v)[0] == "call" and uncast(v)[1].endswith("swap") and uncast(v)[3] == b and k and k[0] == "agg" and k[1] in ("Sum", "Set") and ts is not None and is_now(ts) and "persist" not in m
                if good:
                    out.setdefault(nm[1], set()).add((st, k[1]))
            else:
                good = False
        cx.ob("reported", st, good, "what is read of a counter is not sent as one point when there is something, and only then", at(fl, b))
    for n, ss in out.items():
        cx.ob("names", n, len(ss) == 1, "one name is used for more than one counter: %s" % sorted(ss))
    # every round passes every counter
    for b, c in sorted(swaps.items()):
        cx.ob("every round", c.args[0][1], passes(fl, poll[0].blk, b), "a round can leave out a counter although there is somebody to tell", at(fl, b))
    by = {}
    for n, ss in out.items():
        for s, k in ss:
            by.setdefault(s, set()).add(n)
    for s, ns in by.items():
        cx.ob("names", s, len(ns) == 1, "a counter is reported under more than one name: %s" % sorted(ns))
    queue(cx, fl)
    cx.floor("counters reported", len(out), 50)
    return {n: list(ss)[0] for n, ss in out.items()}


def by_name(cx):
    """what is reported by name goes to the queue as one point with its name, value and tags"""
    p = "source::internal::report_full_telemetry"
    if not cx.ob("by name", "code", p in cx.prog.bodies, "the reporting by name is not found"):
        return
    fl = cx.flow(p, opaque=(r"^<?metric::",))
    push = [c for c in fl.calls if last(c) == "push" and "Stack" in c.path]
    ls = [L for L in loops(fl)]
    heads = [h for L in ls for h in L.next]
    if not cx.ob("by name", "site", len(push) == 1 and push[0].args[0] == ("static", "source::internal::Q"), "what is reported by name is not put on the queue"):
        return
    ways = trace(fl, None, heads) or []
    tail = [q for L in ls for q in trace(fl, L.done, heads) or []]
    ends = [q for q in ways + tail if q.ret is not None]
    cx.ob("by name", "once", bool(ends) and all(len([c for c in q.calls if c.blk == push[0].blk]) == 1 for q in ends) and not any(c.blk == push[0].blk for L in ls for q in L.body() or [] for c in q.calls), "what is reported by name is not put on the queue once")

    def point(t):
        m = soft(t[1][1][2][0]) if t[0] == "fld" and t[1][0] == "var" and t[1][2] == "Ok" and call(t[1][1], "harden") else None
        return m is not None and m.get("name") == ("arg", 1) and m.get("value") == ("arg", 2) and m.get("kind") == ("agg", "Sum", ()) and set(m) <= {"new", "name", "value", "kind", "timestamp"}

    t = push[0].args[1]
    ok = len(ls) == 1 and ls[0].complete() and t[0] == "phi"
    if ok:
        L, e = ls[0], ls[0].elem
        acc, vals, st = set(), set(), [t]
        while st:
            x = st.pop()
            if x[0] == "phi" and x not in acc:
                acc.add(x)
                st += [v for p, v, f in phi_ins(fl, x)]
            elif x[0] != "phi":
                vals.add(x)
        acc = {x for x in acc if x[1] in L.next}
        grown = {v for v in vals if call(v, "overlay_tag")}
        body = [q for q in L.body() if q.end in L.next]
        ok = len(acc) == 1 and bool(grown) and all(v in grown or point(v) for v in vals) and any(point(v) for v in vals)
        for x in acc:
            ok = ok and all(g[2] == (x, ("fld", e, "0"), ("fld", e, "1")) for g in grown) and bool(body) and all(fl.read(q.state, x[2], x[3]) in grown for q in body)
        # over all that was given
        its = leaves(fl, L.it)
        ok = ok and inside(("arg", 3), "Some") in its and all(x == inside(("arg", 3), "Some") or x[0] in ("default",) or call(x, "default", "new") for x in its)
    cx.ob("by name", "whole", ok, "what is reported by name lacks its name, value or tags: %s" % fmt(t)[:120])


def leaves(fl, t, deep=0):
    while call(t, "iter", "into_iter", "deref", "as_slice"):
        t = t[2][0]
    if t[0] == "phi" and deep < 8:
        return set().union(*[leaves(fl, v, deep + 1) for p, v, f in phi_ins(fl, t) if v != t])
    return {t}


def pops(fl):
    return [c.blk for c in fl.calls if last(c) == "pop" and "Stack" in c.path]


def uncast(t):
    return uncast(t[2]) if t[0] == "cast" else t


def term_point(ev):
    """settings of the point an event carries"""
    if call(ev, "new_telemetry"):
        ev = ev[2][0]
    elif ev[0] == "agg" and ev[1] == "Telemetry":
        ev = dict(ev[2])["0"]
    else:
        return None
    if ev[0] == "fld" and ev[1][0] == "var" and call(ev[1][1], "harden"):
        return soft(ev[1][1][2][0])
    return None


def nonzero(q, fl, b):
    for t, v in q.facts.items():
        is_it = lambda x: call(x, "swap") and x[3] == b
        if t[0] == "bin" and any(is_it(x) for x in t[2:4]) and v[0] == "c":
            k = [x[1] for x in t[2:4] if x[0] == "c"]
            if k == [0]:
                if t[1] in ("Eq", "Ne"):
                    return v[1] == (t[1] == "Ne")
                if t[1] == "Lt" and t[2] == ("c", 0):
                    return v[1]
                if t[1] == "Gt" and t[3] == ("c", 0):
                    return v[1]
        if is_it(t):
            return v[1] != 0
        if t[0] == "not" and is_it(t[1]):
            return 0 in v
    return None


def passes(fl, poll, b):
    """from the poll on, the next poll is not reached past b, unless there is nobody to tell"""
    cut = set()
    for t, x, fs in edge_pairs_(fl):
        if any(call(k, "is_empty") and k[2] == (("arg", 2),) and v == ("c", True) or call(k, "poll") and v == ("v", "Err") for k, v in fs):
            cut.add((t, x))
    seen, st = set(), [poll]
    first = True
    while st:
        n = st.pop()
        for s in fl.succ.get(n, ()):
            if (n, s) in cut or s == b:
                continue
            if s == poll:
                return False
            if s not in seen:
                seen.add(s)
                st.append(s)
    return True


def edge_pairs_(fl):
    for a, b, fs in new_facts(fl):
        yield a, b, list(fs.items())


def queue(cx, fl):
    ps = [c for c in fl.calls if last(c) == "pop" and "Stack" in c.path]
    cx.ob("queue", "site", bool(ps), "what is reported by name is not taken from the queue")
    for c in ps:
        qs = trace(fl, [(c.blk, s) for s in fl.succ[c.blk]], {x.blk for x in ps} | {x.blk for x in fl.calls if last(x) == "poll"})
        got = ("call", c.path, tuple(c.args), c.blk)
        ok = bool(qs)
        for q in qs or []:
            sends = [x for x in q.calls if x.path == "util::send"]
            is_some = any(call(t, "pop") and v == ("v", "Some") for t, v in q.facts.items())
            nobody = any(call(t, "is_empty") and v == ("c", True) for t, v in q.facts.items())
            if is_some and not nobody:
                good = len(sends) == 1 and has_pop(sends[0].args[1], c.blk)
                # a path that knows nobody is told starts before this loop
                ok = ok and (good or not sends and reach_only_empty(fl, c.blk))
            else:
                ok = ok and not sends
        cx.ob("queue", "taken %d" % c.blk, ok, "what is taken from the queue is not sent once", at(fl, c.blk))


def has_pop(t, b):
    return call(t, "pop") or isinstance(t, tuple) and any(has_pop(x, b) for x in t if isinstance(x, tuple))


def reach_only_empty(fl, b):
    """b is only come to when there is nobody to tell"""
    cut = set()
    for t, x, fs in edge_pairs_(fl):
        if any(call(k, "is_empty") and k[2] == (("arg", 2),) and v == ("c", True) for k, v in fs):
            cut.add((t, x))
    seen, st = {0}, [0]
    while st:
        n = st.pop()
        for s in fl.succ.get(n, ()):
            if (n, s) not in cut and s not in seen:
                seen.add(s)
                st.append(s)
    return b not in seen


# ------------------------------------------------------------- all uses of counters

def everywhere(cx, names):
    by = {s: (n, k) for n, (s, k) in names.items()}
    uses = {}
    mods = set(s.rsplit("::", 1)[0] for s in by)
    for p in sorted(cx.prog.bodies):
        if "::internal::" in p and p.endswith("::run") or p.startswith("time::"):
            continue
        for st, op in static_ops(cx, p, cx.prog.bodies[p]):
            uses.setdefault(st, set()).add(op)
    n = 0
    for st, ops in sorted(uses.items()):
        n += 1
        if not cx.ob("all reported", st, st in by, "a counter is kept but never reported"):
            continue
        name, kind = by[st]
        cx.ob("no loss", st, ops <= {"fetch_add"} or ops <= {"store"}, "a counter is changed by something that is no addition, so counts get lost: %s" % sorted(ops))
        cx.ob("kind", st, kind == ("Set" if "store" in ops else "Sum"), "what is added up is not reported as a sum, or what is a state as a sum")
    cx.floor("counters", n, 50)


STATIC = re.compile(r"'((?:\w+::)+[A-Z][A-Z0-9_]{3,})'")


def static_ops(cx, p, body):
    """(counter, operation) for each use of a counter in a body"""
    here = set(STATIC.findall(repr(body.__dict__)))
    if not here:
        return
    keep = ()
    for _ in range(4):
        fl = cx.flow(p, opaque=(r"^(?!%s)" % "|".join(keep + ("\\0",)),), key=("c24", keep))
        more = []
        seen = set()
        for c in fl.calls:
            for i, a in enumerate(c.args):
                if a[0] == "static" and a[1] in here:
                    m = ATOMIC.search(c.path)
                    if m and i == 0:
                        seen.add((a[1], m.group(1)))
                    elif c.path in cx.prog.bodies and c.path not in keep and "lazy_static" not in c.path:
                        more.append(re.escape(c.path) + "$")
        if not more:
            break
        keep = keep + tuple(sorted(set(more)))
    kinds = {k for k, _ in seen}
    for x in seen:
        yield x


# ---------------------------------------------------------------- what is counted

def added(q, by, only):
    """what a path adds to which name"""
    out = {}
    for c in q.calls:
        if atomic(c) == "fetch_add" and c.args[0][1] in by:
            n = by[c.args[0][1]]
            k = c.args[1]
            out.setdefault(n, []).append(k[1] if k[0] == "c" else k)
    return {n: (sum(v) if all(isinstance(x, int) for x in v) else v[0] if len(v) == 1 else tuple(v)) for n, v in out.items()}


def fact(q, *names):
    """what a path knows of the result of a call"""
    for t, v in q.facts.items():
        if call(t, *names):
            return v[1] if v[0] in ("v", "c") else v
    return None


def segment(cx, by, what, fl, starts, stops, expect, least=2):
    qs = trace(fl, starts, stops, limit=20000)
    if not cx.ob("counts", what, bool(qs) and len(qs) >= least, "the code that counts %s is not found" % what):
        return
    seen = set()
    for i, q in enumerate(qs):
        e = expect(q)
        if e is None:
            continue
        got = added(q, by, None)
        seen |= set(e)
        cx.ob("counts", "%s #%d" % (what, i), got == e, "what happened is not what is counted: %s, not %s" % (show_(got), show_(e)), at(fl, q.end) if q.end in fl.succ else None)
    return seen


def show_(d):
    return {k: v if isinstance(v, int) else fmt(v) if isinstance(v, tuple) and v and isinstance(v[0], str) else "?" for k, v in d.items()} or "nothing"


def after(fl, c):
    return [(c.blk, s) for s in fl.succ[c.blk]]


def one(cx, pat):
    ps = [p for p in cx.prog.bodies if re.search(pat, p)]
    if len(ps) == 1:
        return ps[0]
    cx.ob("site", pat, False, "the code is not found")


def counting(cx, by):
    for f in (statsd, graphite, payloads, delay, json_encode, wavefront, wavefront_kinds, elastic, influx, kafka, prometheus, full):
        f(cx, by)


def calls(fl, *names):
    return [c for c in fl.calls if last(c) in names]


def statsd(cx, by):
    p = one(cx, r"^source::statsd::Statsd::handle_datagrams$")
    if not p:
        return
    fl = cx.flow(p, opaque=("^util::send$", "parse_statsd$"))
    for c in calls(fl, "recv_from"):
        def expect(q):
            if fact(q, "recv_from") != "Ok":
                return {}
            if fact(q, "parse_statsd") is True:
                return {"cernan.statsd.packet": 1}
            return {"cernan.statsd.bad_packet": 1}
        segment(cx, by, "statsd packets", fl, after(fl, c), {c.blk}, expect, 4)


def graphite(cx, by):
    p = one(cx, r"^<source::graphite::GraphiteStreamHandler as source::tcp::TCPStreamHandler>::handle_stream$")
    if not p:
        return
    fl = cx.flow(p, opaque=("^util::send$", "parse_graphite$"))
    for c in calls(fl, "read_until"):
        def expect(q):
            if fact(q, "read_until") != "Ok" or not calls_in(q, "from_utf8"):
                return {}
            if fact(q, "parse_graphite") is True:
                got = added(q, by, None).get("cernan.graphite.telemetry.received")
                if whole_buffer(q, got):
                    return {"cernan.graphite.packet": 1, "cernan.graphite.telemetry.received": got}
                n = sum(1 for x in q.calls if x.path == "util::send")
                return {"cernan.graphite.packet": 1, "cernan.graphite.telemetry.received": n}
            return {"cernan.graphite.bad_packet": 1}
        segment(cx, by, "graphite lines", fl, after(fl, c), {x.blk for x in calls(fl, "read_until", "poll")}, expect, 4)
    polls = calls(fl, "poll")
    segment(cx, by, "graphite peers", fl, None, {x.blk for x in polls}, lambda q: {"cernan.graphite.new_peer": 1}, 1)


def whole_buffer(q, t):
    """the length of what parse_graphite filled, asked for before any of it was taken out"""
    ps = [c for c in q.calls if last(c) == "parse_graphite"]
    if not (call(t, "len") and len(ps) == 1 and t[2][0] in ps[0].args):
        return False
    filled = False
    taken = False
    for c in q.calls:
        if last(c) == "parse_graphite":
            filled, taken = True, False
        elif c.args and c.args[0] == t[2][0]:
            if last(c) == "len" and filled and taken:
                return False
            if last(c) in ("drain", "clear", "truncate", "pop", "remove", "swap_remove", "retain", "split_off", "append", "push", "insert"):
                taken = True
        elif atomic(c) == "fetch_add" and c.args[1] == t:
            break
    return filled


def calls_in(q, *names):
    return [c for c in q.calls if last(c) in names]


def payloads(cx, by):
    for src, handler in (("native", r"^<source::native::NativeStreamHandler as source::tcp::TCPStreamHandler>::handle_stream$"), ("avro", r"^<source::avro::AvroStreamHandler as source::tcp::TCPStreamHandler>::handle_stream$")):
        p = one(cx, handler)
        if not p:
            continue
        fl = cx.flow(p, opaque=("^util::send$", r"BufferedPayload::read$", r"handle_\w*payload$", r"nonblocking::write_all$"))
        rs = [c for c in fl.calls if c.path.endswith("BufferedPayload::read")]
        hs = [c for c in fl.calls if re.search(r"handle_\w*payload$", c.path)]
        if not cx.ob("site", src, len(rs) == 1 and len(hs) == 1, "where payloads are read and handled is not found"):
            continue
        def expect(q):
            r = [v[1] for t, v in q.facts.items() if call(t, "read") and v[0] == "v"]
            if r == ["Ok"]:
                h = [v[1] for t, v in q.facts.items() if t[0] == "call" and t[1] == hs[0].path and v[0] == "v"]
                w = fact(q, "write_all")
                e = {"cernan.%s.payload.success" % src: 1} if h == ["Ok"] else {"cernan.%s.payload.parse.failure" % src: 1}
                if w == "Err":
                    e["cernan.avro.payload.io.failure"] = 1
                return e
            ks = [v for t, v in q.facts.items() if v in (("v", "WouldBlock"), ("v", "EOF"))]
            return {} if ks or src == "native" else {"cernan.avro.payload.io.failure": 1}
        segment(cx, by, src + " payloads", fl, after(fl, rs[0]), {x.blk for x in rs + calls(fl, "poll")}, expect, 4)


def delay(cx, by):
    p = one(cx, r"^<filter::delay_filter::DelayFilter as filter::Filter>::process$")
    if not p:
        return
    fl = cx.flow(p)
    def expect(q):
        kind = [v[1] for t, v in q.facts.items() if t == ("arg", 2) and v[0] == "v"]
        passed = bool([c for c in q.calls if last(c) in ("push", "extend") and c.args and c.args[0] == ("arg", 3)])
        w = {"Telemetry": "telemetry", "Log": "log"}.get(kind[0] if kind else None)
        return {"cernan.filters.delay.%s.%s" % (w, "accept" if passed else "reject"): 1} if w else {}
    segment(cx, by, "delayed events", fl, None, set(), expect, 4)


def json_encode(cx, by):
    p = one(cx, r"^<filter::json_encode_filter::JSONEncodeFilter as filter::Filter>::process$")
    if not p:
        return
    fl = cx.flow(p)
    def expect(q):
        kind = [v[1] for t, v in q.facts.items() if t == ("arg", 2) and v[0] == "v"]
        if kind != ["Log"]:
            return {}
        e = {"cernan.filters.json_encode.log.processed": 1}
        if fact(q, "from_str", "from_slice") == "Ok" and any(v == ("v", "Object") for v in q.facts.values()):
            e["cernan.filters.json_encode.log.parsed"] = 1
        return e
    segment(cx, by, "lines encoded", fl, None, set(), expect, 3)


def wavefront(cx, by):
    p = one(cx, r"^<sink::wavefront::Wavefront as sink::Sink<.*>>::flush$")
    if p:
        fl = cx.flow(p, opaque=(r"::format_stats$", r"wavefront::connect$", r"^time::delay$", r"Buckets"))
        heads = {c.blk for c in calls(fl, "write_all", "connect")}
        for c in calls(fl, "write_all"):
            segment(cx, by, "wavefront deliveries", fl, after(fl, c), heads, lambda q: {"cernan.sinks.wavefront.delivery.success": 1} if fact(q, "write_all") == "Ok" else {"cernan.sinks.wavefront.delivery.failure": 1, **conn(q, fl)}, 2)
        segment(cx, by, "wavefront connects", fl, None, heads, lambda q: conn(q, fl), 1)
        for c in calls(fl, "connect"):
            segment(cx, by, "wavefront reconnects", fl, after(fl, c), heads, lambda q: conn(q, fl), 1)
    p = one(cx, r"^<sink::wavefront::Wavefront as sink::Sink<.*>>::valve_state$")
    if p:
        fl = cx.flow(p, opaque=(r"Buckets",))
        segment(cx, by, "wavefront's valve", fl, None, set(), lambda q: {"cernan.sinks.wavefront.valve.open": 1} if q.ret[:2] == ("agg", "Open") else {"cernan.sinks.wavefront.valve.closed": 1}, 2)
        for q in trace(fl) or []:
            ss = [c for c in q.calls if atomic(c) == "store"]
            cx.ob("counts", "wavefront's points %s" % q.ret[1], len(ss) == 1 and by.get(ss[0].args[0][1]) == "cernan.sinks.wavefront.aggregations.total_stored" and call(ss[0].args[1], "count"), "the number of points held is not what is reported as that")


def conn(q, fl):
    """a path that ends at connecting counts the attempt, once"""
    return {"cernan.sinks.wavefront.proxy.connection_attempts": 1} if any(c.blk == q.end and last(c) == "connect" for c in fl.calls) else {}


def influx(cx, by):
    p = one(cx, r"^<sink::influxdb::InfluxDB as sink::Sink<.*>>::flush$")
    if not p:
        return
    fl = cx.flow(p, opaque=(r"format_stats$", r"^time::delay$"))
    sends = [c for c in fl.calls if last(c) == "send"]
    if not cx.ob("site", "influxdb", len(sends) == 1, "where the request is sent is not found"):
        return
    def expect(q):
        e = {}
        if fact(q, "send") == "Ok":
            if fact(q, "is_success") is True:
                e = {"cernan.sinks.influxdb.success": 1}
            elif fact(q, "is_client_error") is True:
                e = {"cernan.sinks.influxdb.failure.client_error": 1}
            elif fact(q, "is_server_error") is True:
                e = {"cernan.sinks.influxdb.failure.server_error": 1}
        if q.end == sends[0].blk:
            e["cernan.sinks.influxdb.delivery_attempts"] = added(q, by, None).get("cernan.sinks.influxdb.delivery_attempts", 0)
            if not reads_attempts(e["cernan.sinks.influxdb.delivery_attempts"]):
                e["cernan.sinks.influxdb.delivery_attempts"] = -1
        return e
    segment(cx, by, "influxdb deliveries", fl, after(fl, sends[0]), {sends[0].blk}, expect, 4)


def reads_attempts(t):
    return isinstance(t, tuple)


def kafka(cx, by):
    kafka_messages(cx)
    kafka_lost(cx)
    for m, n in (("increment_publish", "publish.success"), ("increment_retry", "publish.retry"), ("increment_publish_failed", "publish.failure"), ("increment_retry_failed", "publish.retry.failure")):
        p = one(cx, r"^<sink::kafka::DefaultStatsCollector as sink::kafka::StatsCollector>::%s$" % m)
        if p:
            segment(cx, by, "kafka " + m, cx.flow(p), None, set(), lambda q: {"cernan.sinks.kafka." + n: ("arg", 2)}, 1)


def kafka_messages(cx):
    """every message whose end is heard of is counted once, under what became of it"""
    ps = set()
    for p, b in cx.prog.bodies.items():
        if any(blk and blk[1][0] == "call" and isinstance(blk[1][1], dict) and last(blk[1][1].get("fn", "")) == "finalize" and "KafkaPublishable" in blk[1][1].get("fn", "") for blk in b.blocks):
            ps.add(re.sub(r"(::\{\{closure\}\}#\d+)+$", "", p))
    if not cx.ob("site", "kafka messages", len(ps) == 1, "where messages are heard of is not found"):
        return
    fl = cx.flow(ps.pop(), opaque=("AckBag", "global_ack_bag"))
    fz = [c for c in fl.calls if last(c) == "finalize"]
    inc = {m: [c for c in fl.calls if last(c) == m] for m in ("increment_publish", "increment_publish_failed", "increment_retry")}
    if not cx.ob("site", "kafka messages counted", len({c.blk for c in fz}) == 1 and all(inc.values()), "where messages are counted is not found"):
        return
    R = fz[0].dest
    phis = {}
    for m, cs in inc.items():
        outside = [c for c in cs if c.args[1][0] != "c"]
        for c in outside:
            v = c.args[1]
            ok = v[0] == "phi" and len(outside) == 1
            if cx.ob("counts", "kafka " + m, ok, "what is counted is not a count of messages", at(fl, c.blk)):
                phis[m] = v
                h = v[1]
                ent = [x for p_, x, _ in phi_ins(fl, v) if not reach(fl, [h]) & {p_}]
                cx.ob("counts", "kafka %s from none" % m, bool(ent) and all(x == ("c", 0) for x in ent), "messages are counted before any is heard of")
                # told once, before the end
                bad = reach(fl, [0], avoid=[c.blk]) & set(fl.ret_blocks) or c.blk in reach(fl, succs(fl, [c.blk]))
                cx.ob("counts", "kafka %s told" % m, not bad, "what was counted is not told once", at(fl, c.blk))
    hs = {v[1] for v in phis.values()} or {b for b in [fz[0].blk]}
    done = blks([c for cs in inc.values() for c in cs if c.args[1][0] != "c"])
    seen = set()
    for i, q in enumerate(trace(fl, after(fl, fz[0]), set(hs) | set(done) | {fz[0].blk}, limit=20000) or ()):
        if q.end not in hs:
            continue
        got = {}
        for m in inc:
            n = sum(c.args[1][1] for c in q.calls if last(c) == m and c.args[1][0] == "c")
            if m in phis:
                x = phis[m]
                try:
                    n += evalt(fl.val(q.state, fl.read(q.state, x[2], x[3])), lambda t: 100 if t == x else None, "u64") - 100
                except (Unknown, Overflow):
                    n = None
            if n:
                got[m] = n
        ok = q.facts.get(R) == ("v", "Some") and q.facts.get(inside(R, "Some")) == ("v", "Ok")
        k = [v for t, v in q.facts.items() if t[0] == "fld" and t[1][0] == "var" and t[1][2] == "MessageProduction" and v[0] == "v" and v[1] in RETRIED]
        want = "increment_publish" if ok else "increment_retry" if k else "increment_publish_failed"
        seen.add(want)
        cx.ob("counts", "kafka message #%d" % i, got == {want: 1}, "a message is counted as %s, not %s" % (sorted(got) or "nothing", want))
    cx.ob("counts", "kafka messages", seen == set(inc), "not every end of a message is counted")


def kafka_lost(cx):
    """a message that cannot be tried again is counted, and no other"""
    fl = cx.flow(cx.method("sink::Sink", r"^sink::kafka::Kafka", "flush"), opaque=("await_inflight_messages", "AckBag", "global_ack_bag", "acknowledge"))
    tp = [c for c in fl.calls if last(c) == "try_payload"]
    inc = [c for c in fl.calls if last(c) == "increment_retry_failed"]
    if not cx.ob("site", "kafka messages lost", len({c.blk for c in tp}) == 1 and bool(inc), "where messages that are lost are counted is not found"):
        return
    hs = {b for L in loops(fl) for b in L.next} | {tp[0].blk}
    src = [strip_some(a) for a in tp[0].args[2:4]]
    seen = set()
    for st in [(h, None) for h in hs] + [(0, None)]:
        for i, q in enumerate(trace(fl, [st], hs, limit=20000) or ()):
            n = [c.args[1] for c in q.calls if last(c) == "increment_retry_failed"]
            lost = any(q.local.get(t) == ("v", "None") for t in src)
            seen.add(lost)
            cx.ob("counts", "kafka lost %s #%d" % (st[0], i), n == ([("c", 1)] if lost else []), "a message that is lost is not counted, or one that is not")
    cx.ob("counts", "kafka messages lost", seen == {True, False}, "a message that is lost is not counted")


def strip_some(t):
    return t[1][1] if t[0] == "fld" and t[1][0] == "var" and t[1][2] == "Some" else t


def prometheus(cx, by):
    p = one(cx, r"^<sink::prometheus::PrometheusHandler as http::Handler>::handle$")
    if not p:
        return
    fl = cx.flow(p, opaque=(r"write_text$",))
    for c in calls(fl, "respond"):
        segment(cx, by, "prometheus reports", fl, after(fl, c), set(), lambda q: {"cernan.sinks.prometheus.report.success" if fact(q, "respond") == "Ok" else "cernan.sinks.prometheus.report.error": 1}, 2)


    # what is reported, and how long it took
    for i, q in enumerate(trace(fl) or []):
        if q.end not in fl.ret_blocks or not any(call(t, "try_lock", "lock") and v == ("v", "Ok") for t, v in q.facts.items()):
            continue
        ss = [c for c in q.calls if atomic(c) == "store" and by.get(c.args[0][1]) == "cernan.sinks.prometheus.aggregation.reportable"]
        n = ss[0].args[1] if len(ss) == 1 else ("?",)
        cx.ob("counts", "prometheus' series #%d" % i, len(ss) == 1 and (call(n, "len", "count")) and "PROMETHEUS" not in repr(n), "the number of series held is not what is reported as that")
        took = added(q, by, None).get("cernan.sinks.prometheus.exposition.inside_baseball.delay.sum")
        cx.ob("counts", "prometheus' delay #%d" % i, isinstance(took, tuple) and isinstance(took[0], str) and has(took, lambda x: call(x, "elapsed", "duration_since")), "how long a scrape took is not counted once")
    purged(cx, by)


def has(t, pred):
    return isinstance(t, tuple) and (pred(t) or any(has(y, pred) for y in t if isinstance(y, tuple)))


def purged(cx, by):
    """a purge says how many summaries it took out, all windows together, and that is counted"""
    P = "sink::prometheus::"
    T = r"^sink::prometheus::Prometheus\b"
    OPQ = (r"^metric::", r"^<metric::", r"^time::")

    def tally(name, fl, step):
        """every value returned is none, or what a loop has added up"""
        rets = {t for _, t, _ in fl.terms_at_return}
        bad, n = [], 0
        for t in rets:
            if t == ("c", 0):
                continue
            while t[0] == "cast":
                t = t[2]
            todo, seen = [t], set()
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x[0] != "phi":
                    if x != ("c", 0) and not summed(x, step):
                        bad.append(fmt(x)[:60])
                    n += summed(x, step)
                    continue
                loop_ = x[1] in reach(fl, succs(fl, [x[1]]))
                if not loop_:
                    todo += [v for _, v, _ in phi_ins(fl, x)]
                    continue
                n += 1
                h = x[1]
                qs = [q for q in trace(fl, [(h, None)], [h], limit=20000) or () if q.end == h]
                back = reach(fl, succs(fl, [h]))
                ins = [v for p_, v, _ in phi_ins(fl, x) if p_ not in back]
                if not qs or any(v != ("c", 0) for v in ins) or not ins:
                    bad.append("start")
                for q in qs:
                    v = fl.val(q.state, fl.read(q.state, x[2], x[3]))
                    if not step(q, v, x):
                        bad.append(fmt(v)[:60])
        cx.ob("counts", name, n > 0 and not bad, "what a purge took out is not what it says: %s" % bad[:1])

    def summed(x, step):
        if call(x, "sum") and x[2][0][0] == "iterop" and x[2][0][1] == "map":
            return call(x[2][0][3], "purge")
        if x[0] == "bin" and x[1] == "Sub":
            return all(call(y, "len") for y in x[2:4])
        if call(x, "fold"):
            return True
        return False

    def one_each(q, v, x):
        n = len([c for c in q.calls if last(c) in ("remove", "swap_remove") and "Vec" in c.path])
        return v == x if n == 0 else plus(v, x, ("c", n))

    def plus(v, x, k):
        return v[0] == "bin" and v[1] == "Add" and sorted(map(repr, v[2:4])) == sorted(map(repr, (x, k))) or v[0] == "call" and last(v[1]) in ("saturating_add", "wrapping_add") and set(v[2]) == {x, k}

    def all_windows(q, v, x):
        cs = [c.dest for c in q.calls if c.path == P + "Accumulator::purge"]
        return v == x if not cs else len(cs) == 1 and plus(v, x, cs[0])
    for n, opq, step in (("Accumulator", OPQ, one_each), ("PrometheusAggr", (r"Accumulator::purge$",), all_windows)):
        p = P + n + "::purge"
        if cx.ob("site", p, p in cx.prog.bodies, "the code is not found"):
            tally("purged by " + n, cx.flow(p, opaque=opq), step)
    fl = cx.flow(cx.method("sink::Sink", T, "flush"), opaque=(r"PrometheusAggr::purge$",))
    def expect(q):
        cs = [c.dest for c in q.calls if c.path.endswith("PrometheusAggr::purge")]
        return {"cernan.sinks.prometheus.aggregation.inside_baseball.windowed.purged": cs[0]} if len(cs) == 1 else {}
    segment(cx, by, "prometheus purges", fl, None, set(), expect, 1)


def full(cx, by):
    p = one(cx, r"^util::send$")
    if not p:
        return
    fl = cx.flow(p)
    ss = [c for c in fl.calls if last(c) == "send" and "hopper" in c.path]
    cx.ob("site", "util::send", bool(ss), "where events are sent is not found")
    for c in ss:
        def expect(q):
            fulls = [v for t, v in q.facts.items() if v == ("v", "Full")]
            errs = [v[1] for t, v in q.facts.items() if call(t, "send") and v[0] == "v"]
            return {"cernan.util.hopper.error.full": 1} if fulls and errs[:1] == ["Err"] else {}
        segment(cx, by, "full queues %d" % c.blk, fl, after(fl, c), {x.blk for x in ss}, expect, 2)


def wavefront_kinds(cx, by):
    p = one(cx, r"^sink::wavefront::Wavefront::format_stats$")
    if not p:
        return
    fl = cx.flow(p, opaque=(r"Buckets", r"fmt_val$", r"wavefront::padding$", r"^<?metric::", r"Pad", r"Padding"))
    ns = [c for c in fl.calls if last(c) == "next"]
    seen = set()
    for c in ns:
        def expect(q):
            k = [v[1] for t, v in q.facts.items() if (call(t, "kind") or t[0] in ("fld", "var") and t[-1] == "kind") and v[0] == "v"]
            pad = [v[1] for t, v in q.facts.items() if v in (("v", "Zero"), ("v", "Telem"))]
            if pad != ["Telem"]:
                return {}
            w = {"Histogram": "histogram", "Sum": "sum", "Set": "set", "Summarize": "summarize"}.get(k[0] if k else None)
            e = {"cernan.sinks.wavefront.aggregation.%s" % w: 1}
            if w == "summarize":
                n = added(q, by, None).get("cernan.sinks.wavefront.aggregation.summarize.total_percentiles")
                e["cernan.sinks.wavefront.aggregation.summarize.total_percentiles"] = n if call(n, "len") and "percentiles" in repr(n) else -1
            return e
        seen |= segment(cx, by, "wavefront points %d" % c.blk, fl, after(fl, c), {x.blk for x in ns}, expect, 1) or set()
    cx.floor("kinds of wavefront points", len(seen), 5)


ACTIONS = {"Index": "index", "Create": "create", "Update": "update", "Delete": "delete"}
API = {"IndexNotFound": "index_not_found", "Parsing": "parsing", "MapperParsing": "mapper_parsing", "ActionRequestValidation": "action_request_validation", "DocumentMissing": "action_document_missing", "IndexAlreadyExists": "index_already_exists", "Other": "unknown"}
ES = "cernan.sinks.elasticsearch."


def elastic(cx, by):
    p = one(cx, r"^<sink::elasticsearch::Elasticsearch as sink::Sink<.*>>::flush$")
    if not p:
        return
    fl = cx.flow(p, opaque=(r"bulk_body$",))
    resp = [c for c in fl.calls if last(c) == "into_response"]
    ns = [c for c in fl.calls if last(c) == "next" and "bulk" in repr(c.args) + c.path or last(c) == "next" and "into_response" in repr(c.args)]
    if not cx.ob("site", "elasticsearch", len(resp) == 1 and bool(ns), "where the response is looked at is not found"):
        return
    stops = {c.blk for c in ns}
    # how much is buffered is told whenever an answer has come
    st = [c for c in fl.calls if atomic(c) == "store"]
    buf = [c for c in st if c.args[1] == ("len", ("fld", ("arg", 1), "buffer")) or call(c.args[1], "len") and c.args[1][2] == (("fld", ("arg", 1), "buffer"),)]
    cx.ob("counts", "elasticsearch buffer", bool(buf) and len(buf) == len(st), "what is told is not how much is buffered")
    sent = edge_pairs(fl, lambda t, v: call(t, "send") and v == ("v", "Ok"))
    # the answer is looked at again when it is dropped
    sent = [e for e in sent if not any(e[0] in reach(fl, [s]) for _, s in sent)]
    bad = reach(fl, [s for _, s in sent], avoid=blks(buf)) & set(fl.ret_blocks)
    cx.ob("counts", "elasticsearch buffer told", bool(sent) and not bad, "how much is buffered is not told")
    seen = set()
    variants = lambda q: [v[1] for v in q.facts.values() if isinstance(v, tuple) and v[0] == "v"]
    def whole_(q):
        if fact(q, "into_response") == "Ok":
            return {ES + "records.delivery": 1}
        vs = variants(q)
        if "Api" in vs:
            k = [v for v in vs if v in API]
            return {ES + "error.api." + API[k[0] if k else "Other"]: 1}
        if "Client" in vs:
            return {ES + "error.client": 1}
        return {}
    def item(q):
        r = [v[1] for t, v in q.local.items() if v in (("v", "Ok"), ("v", "Err")) and t[0] != "call"]
        if not r:
            return {}
        if "Ok" in r:
            removed = [c for c in q.calls if last(c) in ("remove", "swap_remove")]
            return {ES + "records.total_delivered": len(removed)} if removed else {}
        a = [v for v in variants(q) if v in ACTIONS]
        return {ES + "records.total_failed": 1, ES + "error.bulk_action." + ACTIONS[a[0] if a else "Index"]: 1}
    seen |= segment(cx, by, "elasticsearch responses", fl, after(fl, resp[0]), stops, whole_, 3) or set()
    for c in ns:
        seen |= segment(cx, by, "elasticsearch items %d" % c.blk, fl, after(fl, c), stops, item, 3) or set()
    cx.floor("elasticsearch counters", len(seen), 12)
