"""Buffering sinks deliver what they buffer.  For every sink that buffers and
flushes over the network (InfluxDB, Wavefront, native) the flow graph of deliver,
flush, shutdown and valve_state is compared with a retry protocol: what deliver is
given is put into the buffer, the payload is built from the whole buffer before
the first attempt, an attempt's failure leads back to another attempt of the same
payload, the function is left only over the edge on which the peer accepted the
payload, the buffer is emptied then and not before, shutdown flushes, and the valve
closes exactly above the sink's limit."""
from rules import *

OPQ = ("time::delay", "sink::native::connect", "sink::wavefront::connect", "metric::telemetry::", "metric::logline::",
       "buckets::", "sink::wavefront::Wavefront::fmt_val", "sink::influxdb::fmt_tags", "sink::wavefront::padding", "TagIter")
OK, ERR = ("v", "Ok"), ("v", "Err")


def last(c):
    return c.path.rsplit("::", 1)[-1]


def ok_edges(fl, c):
    return edge_pairs(fl, lambda t, v: t == c.dest and v == OK)


def cut(fl, pairs, start=0):
    seen, st, cutset = set(), [start], set(pairs)
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        st += [s for s in fl.succ.get(b, ()) if (b, s) not in cutset]
    return seen


READONLY = {"clone", "as_bytes", "as_str", "deref", "as_ref", "len", "is_empty", "compute_size", "to_owned", "to_string", "into_bytes", "borrow", "iter", "as_slice", "get_cached_size"}


def run(cx):
    influx(cx)
    wavefront(cx)
    native(cx)
    valve(cx, "elasticsearch", "^sink::elasticsearch::Elasticsearch", lambda x: islen(x, ("fld", ("arg", 1), "buffer")), 10000)
    kafka(cx)
    for name, cfg in (("influxdb::InfluxDB", "InfluxDBConfig"), ("wavefront::Wavefront", "WavefrontConfig"), ("native::Native", "NativeConfig"), ("elasticsearch::Elasticsearch", "ElasticsearchConfig")):
        ty = "^sink::%s" % name
        fp = cx.method("sink::Sink", ty, "flush")
        fl = cx.flow(cx.method("sink::Sink", ty, "shutdown"), opaque=(fp,))
        fs = [c for c in fl.calls if c.path == fp or last(c) == "flush" and c.args and c.args[0] == ("arg", 1)]
        cx.ob("shutdown-flushes", name, bool(fs) and not (reach(fl, [0], avoid=blks(fs)) & set(fl.ret_blocks)), "a shutdown leaves what is buffered undelivered")


def kafka(cx):
    """the valve follows the number of bytes handed to the producer and not heard of"""
    B, MAX = ("fld", ("arg", 1), "message_bytes"), ("fld", ("arg", 1), "max_message_bytes")
    T = r"^sink::kafka::Kafka"
    valve(cx, "kafka", T, lambda x: x == B, MAX)
    fl = cx.flow(cx.method("sink::Sink", T, "deliver_raw"), opaque=("try_payload$",))
    n = 0
    for i, q in enumerate(trace(fl) or ()):
        if q.ret is None:
            continue
        n += 1
        ws = [w for w in q.writes if path_of(w.root, w.proj) == B]
        good = len(ws) == 1
        if good:
            try:
                good = evalt(ws[0].val, lambda t: 100 if t == B else 7 if islen(t, ("arg", 4)) else None, "u64") == 107
            except (Unknown, Overflow):
                good = False
        cx.ob("counted", "kafka #%d" % i, good, "what is handed to Kafka's producer is not counted")
    cx.floor("ways to deliver to kafka", n, 1)


# ---- the retry loop ----------------------------------------------------------
def loop(cx, name, fl, attempts, accepts, payload, clears, pre):
    """attempts: calls that submit the payload; accepts: [edges] each of which every
    exit must have crossed; payload: terms whose content is submitted; clears: blocks
    that empty the buffer; pre: the buffer is emptied while the payload is built"""
    if not cx.ob("attempts", name, bool(attempts), "nothing is submitted"):
        return
    rets = set(fl.ret_blocks)
    for what, e in accepts:
        cx.ob("left-only-when-accepted", name + "/" + what, bool(e) and not (cut(fl, e) & rets), "the flush can end although the payload was not accepted (%s)" % what)
        # the buffer survives until then
        early = [b for b in clears if b in cut(fl, e)]
        cx.ob("kept-until-accepted", name + "/" + what, pre or not early, "the buffer is emptied before the payload was accepted", at(fl, early[0]) if early else None)
    # a failure leads back to another attempt
    ab = blks(attempts)
    fin = [s for _, e in accepts[-1:] for _, s in e]
    if not pre:
        bad = must_reach(fl, fin, clears, rets)
        cx.ob("emptied-once-accepted", name, bool(clears) and not bad, "what was delivered stays in the buffer")
    # nothing alters the payload between attempts
    after = reach(fl, succs(fl, ab), avoid=fin)
    back = {b for b in after if reach(fl, [b], avoid=fin) & set(ab)}
    bad = [c for c in fl.calls if c.blk in back and c.args and c.args[0] in payload and last(c) not in READONLY and c.blk not in ab
           and last(c) not in ("write_to_with_cached_sizes", "write_to", "write_to_writer", "write_to_vec", "write_to_bytes", "write_length_delimited_to", "write_length_delimited_to_writer", "write_length_delimited_to_bytes", "compute_size")]
    bad += [w for w in fl.writes if w.blk in back and w.root in payload]
    cx.ob("same-payload", name, not bad, "the payload is altered between attempts", at(fl, bad[0].blk) if bad else None)


def influx(cx):
    T = "^sink::influxdb::InfluxDB"
    fl = cx.flow(cx.method("sink::Sink", T, "flush"), opaque=OPQ)
    AGG = ("fld", ("arg", 1), "aggrs")
    sends = [c for c in fl.calls if c.path == "reqwest::RequestBuilder::send"]
    bodies = [c for c in fl.calls if c.path == "reqwest::RequestBuilder::body"]
    pl = {strip(c.args[1]) for c in bodies}
    cx.ob("payload", "influxdb", len(pl) == 1 and all(any(s == b.dest for b in bodies for s in flow.subterms(c.args[0])) for c in sends), "the request does not carry the formatted points")

    def success(t):
        return t[0] == "call" and t[1].endswith("is_success") and t[2][0][0] == "call" and t[2][0][1].endswith("Response::status") and term_has(t[2][0], lambda s: s[0] == "var" and s[2] == "Ok" and any(s[1] == c.dest for c in sends))
    acc = edge_pairs(fl, lambda t, v: success(t) and v == ("c", True))
    loop(cx, "influxdb", fl, sends, [("success response", acc)], pl, clr(fl, AGG), False)
    # what is sent is built from all of the buffer
    built(cx, "influxdb", fl, pl, AGG, blks(sends), ("push_str", "push", "write_str", "write_fmt", "extend", "insert_str"))
    stored(cx, "influxdb", T, "deliver", lambda c: last(c) == "push" and c.args[0] == AGG and c.args[1] == ("arg", 2))
    valve(cx, "influxdb", T, lambda x: islen(x, AGG), 100000)


def clr(fl, coll):
    out = [c.blk for c in fl.calls if c.args and c.args[0] == coll and (last(c) in ("clear", "reset") or last(c) == "drain" and whole(fl, c.dest, coll) or last(c) == "truncate" and is_const(c.args[1], 0))]
    out += [c.blk for c in fl.calls if c.path in ("std::mem::replace", "std::mem::take", "core::mem::replace") and c.args and c.args[0] == coll]
    out += [w.blk for w in fl.writes if path_of(w.root, w.proj) == coll]
    return out


def path_of(root, proj):
    t = root
    for e in proj:
        if isinstance(e, tuple) and e[0] == "f":
            t = ("fld", t, e[1])
        else:
            return None
    return t


def built(cx, name, fl, pl, coll, ab, writers):
    """before any attempt, every element of coll is visited and each visit can write to the payload"""
    it = lambda q: q[0] == "call" and q[1].rsplit("::", 1)[-1] == "next" and whole(fl, q[2][0], coll)
    done = edge_pairs(fl, lambda t, v: v == ("v", "None") and it(t))
    some = edge_pairs(fl, lambda t, v: v == ("v", "Some") and it(t))
    cx.ob("whole-buffer", name, bool(done) and not (cut(fl, done) & set(ab)), "the payload is not built from everything that is buffered")
    w = {c.blk for c in fl.calls if c.args and c.args[0] in pl and last(c) in writers}
    body = reach(fl, [s for _, s in some], avoid=[s for _, s in done])
    cx.ob("payload-from-buffer", name, bool(some) and bool(w & body), "the buffered elements are not written into the payload")
    wipe = [c for c in fl.calls if c.args and c.args[0] in pl and last(c) in ("clear", "truncate", "drain", "pop", "remove") and c.blk in reach(fl, [0], avoid=ab) and reach(fl, [c.blk], avoid=()) & set(ab) and reach(fl, [s for _, s in some]) & {c.blk} and c.blk not in reach(fl, succs(fl, ab))]
    cx.ob("payload-complete", name, not wipe, "the payload is cut before it is sent", at(fl, wipe[0].blk) if wipe else None)


def islen(x, coll):
    x = strip(x, "cast")
    return x == ("len", coll) or x[0] == "call" and x[1].rsplit("::", 1)[-1] in ("len", "count") and x[2][0] == coll


def stored(cx, name, T, m, pred, guard=None):
    fl = cx.flow(cx.method("sink::Sink", T, m), opaque=OPQ)
    b = [c.blk for c in fl.calls if pred(c)]
    r = cut(fl, guard(fl)) if guard else reach(fl, [0])
    bad = reach(fl, [0], avoid=b) & set(fl.ret_blocks)
    if guard and bad:
        g = guard(fl)
        seen, st = set(), [0]
        while st:
            x = st.pop()
            if x in seen or x in b:
                continue
            seen.add(x)
            st += [s for s in fl.succ.get(x, ()) if (x, s) not in g]
        bad = seen & set(fl.ret_blocks)
    cx.ob("buffered", name + "." + m, bool(b) and not bad, "an event given to the sink may not be buffered")
    rep = must_reach(fl, succs(fl, b), [], b) if b else []
    cx.ob("buffered-once", name + "." + m, not rep, "an event can be buffered twice")


def valve(cx, name, T, measure, limit):
    fl = cx.flow(cx.method("sink::Sink", T, "valve_state"), opaque=OPQ)
    ps = trace(fl)
    ok = bool(ps)
    lims = [limit] if isinstance(limit, int) else [0, 1, 7, 1 << 20]
    near = {x[1] for q in ps or () for t in q.facts for x in flow.subterms(t) if x[0] == "c" and isinstance(x[1], int) and not isinstance(x[1], bool)} | set(lims)
    for lim in lims:
        for n in sorted({k for x in near for k in (x - 1, x, x + 1) if k >= 0} | {0, 1 << 40}):
            ev = lambda t: n if measure(t) else lim if t == limit else None
            took = [q for q in ps if could(q, ev, "u64")]
            want = n > lim if isinstance(limit, int) else n >= lim
            ok = ok and bool(took) and all(q.ret == ("agg", "Closed" if want else "Open", ()) for q in took)
    cx.ob("valve", name, ok, "the valve is not closed exactly while more than %s are buffered" % (limit if isinstance(limit, int) else "its limit"))



def wavefront(cx):
    T = "^sink::wavefront::Wavefront"
    fl = cx.flow(cx.method("sink::Sink", T, "flush"), opaque=OPQ + ("sink::wavefront::Wavefront::format_stats",))
    STATS, AGG = ("fld", ("arg", 1), "stats"), ("fld", ("arg", 1), "aggrs")
    ops = writes_of(fl)
    pay = [c for c in ops if len(c.args) > 1 and any(s == STATS for s in flow.subterms(c.args[1]))]
    fmtc = [c for c in fl.calls if c.path.endswith("Wavefront::format_stats")]
    cx.ob("formatted-first", "wavefront", bool(fmtc) and not (reach(fl, [0], avoid=blks(fmtc)) & set(blks(pay))), "the points are not formatted before they are sent")
    cx.ob("formatted-once", "wavefront", not (reach(fl, succs(fl, blks(pay))) & set(blks(fmtc))), "the points are formatted again between attempts")
    cx.ob("complete-write", "wavefront", all(last(c) != "write" for c in pay), "a short write would lose the rest of the payload")
    streams(cx, "wavefront", fl, ops)
    loop(cx, "wavefront", fl, pay, [(last(c), group(fl, ops, c)) for c in ops], {STATS}, clr(fl, STATS), False)
    fl = cx.flow("sink::wavefront::Wavefront::format_stats", opaque=OPQ)
    moved = [c.dest for c in fl.calls if c.path.endswith("mem::replace") and c.args[0] == AGG]
    its = [c for c in fl.calls if last(c) in ("into_iter", "iter", "drain", "next") and c.args]
    cx.ob("whole-buffer", "wavefront", any(allof(c.args[0], [AGG] + moved) for c in its), "the payload is not built from what is buffered")
    TH = ("fld", ("arg", 1), "age_threshold")
    stored(cx, "wavefront", T, "deliver", lambda c: c.path == "buckets::Buckets::add" and c.args[0] == AGG and c.args[1] == ("arg", 2),
           guard=lambda fl: [p for p in edge_pairs(fl, lambda t, v: old(t, v, TH))])
    valve(cx, "wavefront", T, lambda x: islen(x, AGG) or x[0] == "call" and x[1] == "buckets::Buckets::count" and x[2][0] == AGG, 10000)


def allof(t, colls):
    """t runs over everything in one of colls (padded at most)"""
    while t not in colls:
        if t[0] == "call" and (t[1].rsplit("::", 1)[-1] in ("iter", "into_iter") and len(t[2]) == 1 or t[1] == "sink::wavefront::padding"):
            t = t[2][0]
        else:
            return False
    return True


def old(t, v, TH):
    """fact: the distance of the timestamp from now exceeds the threshold"""
    if t[0] != "bin" or v[0] != "c":
        return False
    op, a, b, tr = t[1], t[2], t[3], v[1]
    lim = lambda x: strip(x, "cast") == ("fld", ("var", TH, "Some"), "0")
    def dist(x):
        if not (x[0] == "call" and x[1].endswith("::abs")):
            return False
        d = x[2][0]
        ts = ("fld", ("arg", 2), "timestamp")
        return d[0] == "bin" and d[1] == "Sub" and (d[2] == ts) != (d[3] == ts) and any(is_now(y) for y in (d[2], d[3]))
    if lim(a) and dist(b):
        a, b = b, a
        op = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(op, op)
    if not (dist(a) and lim(b)):
        return False
    return (op, tr) in (("Le", False), ("Gt", True))


def writes_of(fl):
    return [c for c in fl.calls if last(c) in ("write_all", "write", "write_raw_bytes", "write_to", "write_to_with_cached_sizes", "write_to_writer", "write_u32",
                                               "write_length_delimited_to", "write_length_delimited_to_writer", "write_message_no_tag", "flush", "into_inner")
            and not c.path.startswith("<byteorder::") and not c.path.startswith("<sink::") and not c.path.startswith("sink::")]


def group(fl, ops, c):
    """success edges of the calls that do the same as c (code may be duplicated on paths)"""
    same = [o for o in ops if o.path == c.path and o.args[1:] == c.args[1:]]
    return [p for o in same for p in ok_edges(fl, o)]


def streams(cx, name, fl, ops):
    """a buffering writer between the payload and the socket is flushed"""
    for c in fl.calls:
        if re.search(r"BufWriter::<.*>::(new|with_capacity)$", c.path) or re.search(r"CodedOutputStream::<.*>::(new|bytes)$", c.path):
            fs = [o for o in ops if last(o) in ("flush", "into_inner") and o.args[0] == c.dest]
            cx.ob("writer-flushed", name + "/" + c.path.split("::<")[0].rsplit("::", 1)[-1], bool(fs), "what is left in the writer's own buffer is never sent", cat(c))


def native(cx):
    T = "^sink::native::Native"
    fl = cx.flow(cx.method("sink::Sink", T, "flush"), opaque=OPQ)
    BUF = ("fld", ("arg", 1), "buffer")
    ops = writes_of(fl)
    msgs = {c.dest for c in fl.calls if c.path.endswith("native::Payload::new")} | {t for c in ops for t in c.args if t[0] == "call" and t[1].endswith("native::Payload::new")}
    pay = [c for c in ops if any(term_has(a, lambda s: s in msgs) for a in c.args)]
    streams(cx, "native", fl, ops)
    cx.ob("complete-write", "native", all(last(c) != "write" for c in ops), "a short write would lose the rest of the payload")
    loop(cx, "native", fl, pay, [(last(c) + "/" + (c.args[0][1].rsplit("::", 2)[-2] if c.args[0][0] == "call" else "stream"), group(fl, ops, c)) for c in ops], msgs, clr(fl, BUF), True)
    # every buffered element reaches the payload
    it = lambda q: q[0] == "call" and q[1].rsplit("::", 1)[-1] == "next" and whole(fl, q[2][0], BUF)
    done = edge_pairs(fl, lambda t, v: v == ("v", "None") and it(t))
    some = edge_pairs(fl, lambda t, v: v == ("v", "Some") and it(t))
    cx.ob("whole-buffer", "native", bool(done) and not (cut(fl, done) & set(blks(pay))), "the payload is not built from everything that is buffered")
    e = fl.elem(BUF)
    for var, new, setter in (("Telemetry", "native::Telemetry::new", "set_points"), ("Log", "native::LogLine::new", "set_lines")):
        mk = [c for c in fl.calls if c.path.endswith(new)]
        dst = set()
        for c in fl.calls:
            if last(c) == setter and c.args[0] in msgs:
                dst |= {s for s in flow.subterms(c.args[1]) if s[0] == "call"}
        pu = [c for c in fl.calls if last(c) == "push" and c.args[0] in dst and c.args[1] in {m.dest for m in mk}]
        nx = [c.blk for c in fl.calls if it(c.dest)]
        ps = PSim(fl, e)
        ps.from_edges(some, avoid=blks(pu) + nx + list(fl.ret_blocks))
        bad = [b for b, env in ps.stopped if b not in blks(pu) and F(e, var)(dict(env))]
        seen = [b for b, env in ps.stopped if b in blks(pu)]
        cx.ob("each-element", "native." + var, bool(seen) and not bad, "a buffered %s may not get into the payload" % var)
        st = [c.blk for c in fl.calls if last(c) == setter and c.args[0] in msgs]
        bad = reach(fl, [0], avoid=st) & set(blks(pay))
        cx.ob("payload-carries", "native." + var, bool(st) and not bad, "the payload may be sent without the buffered %s" % var)
    for m, v in (("deliver", "Telemetry"), ("deliver_line", "Log")):
        stored(cx, "native", T, m, lambda c: last(c) == "push" and c.args[0] == BUF and c.args[1] == ("agg", v, (("0", ("arg", 2)),)))
