"""Source shutdown.  Every implementation of the source interface (found through
the impl table) is inlined into one body and analysed on its feasible control
flow graph: the end-of-stream event is handed to the channel on every path to
return and exactly once, only after the shutdown wake-up was observed, nothing
is handed over after it, the wake-up is answered before the source polls again,
items accepted into a local buffer are handed over first, and the TCP source
signals and joins every connection handler first.  Each connection handler is
checked to return on the shutdown wake-up without polling or emitting again."""
from rules import *

SEND = "util::send"
SYSTEM = 2048


def is_token(t):
    return t[0] == "fld" and t[1][0] == "call" and t[1][1].endswith("Event::token")


def sys_edge(t, v):
    if is_token(t) and v == ("c", SYSTEM):
        return True
    # token() == SYSTEM written as an equality
    return t[0] == "bin" and t[1] == "Eq" and v == ("c", True) and any(is_token(strip(x, "cast")) or x[0] == "call" and x[1].endswith("Event::token") for x in t[2:]) \
        and any(is_const(s, SYSTEM) for s in flow.subterms(t) if s)


def poll_nonzero(t, v):
    """the branch on which poll() returned at least one event"""
    def n(x):
        return x[0] == "fld" and x[1][0] == "var" and x[1][2] == "Ok" and x[1][1][0] == "call" and x[1][1][1].endswith("Poll::poll")
    if t[0] == "bin" and v[0] == "c":
        op, a, b = t[1], t[2], t[3]
        if is_const(a, 0) and n(b):
            return (op, v[1]) in (("Lt", True), ("Eq", False), ("Ne", True), ("Ge", False))
        if is_const(b, 0) and n(a):
            return (op, v[1]) in (("Gt", True), ("Eq", False), ("Ne", True), ("Le", False))
        if is_const(b, 1) and n(a):
            return (op, v[1]) in (("Ge", True), ("Lt", False))
    if t[0] == "not-variants" and n(t[1]):
        return set(v) == {0}
    return False


def sends(fl):
    return [c for c in fl.calls if c.path == SEND]


def shutdowns(fl):
    return [c for c in sends(fl) if "Shutdown" in variants_of(fl, c.args[1])]


def run(cx):
    n = 0
    for im in cx.prog.impls_for("source::Source"):
        name = im["self"].split("::")[-1].split("<")[0]
        fl = cx.flow(im["items"]["run"], opaque=("^util::send$",))
        sd = shutdowns(fl)
        if name == "FlushTimer":
            # the timer has no shutdown wake-up: it never returns and never ends the stream
            cx.ob("timer-never-ends-stream", name, not sd and not fl.ret_blocks, "the flush timer must not end the stream")
            continue
        n += 1
        if not cx.ob("sends-shutdown", name, bool(sd), "run never hands over the end-of-stream event"):
            continue
        sb = blks(sd)
        for c in sd:
            cx.ob("shutdown-event", name, variants_of(fl, c.args[1]) == {"Shutdown"} and c.args[0] == ("arg", 2),
                  "the end-of-stream event is not certainly what is sent to the forwards", cat(c))
        bad = always_before(fl, sb, fl.ret_blocks)
        cx.ob("return-after-shutdown", name, not bad, "a path returns without end-of-stream", at(fl, bad[0]) if bad else None)
        bad = never_after(fl, sb, blks(sends(fl)))
        cx.ob("nothing-after-shutdown", name, not bad, "an event (or a second end-of-stream) can follow end-of-stream", at(fl, bad[0]) if bad else None)
        W = edge_pairs(fl, sys_edge) or edge_pairs(fl, poll_nonzero)
        if not cx.ob("wake-up", name, bool(W), "no branch recognises the shutdown wake-up"):
            continue
        # reach Shutdown without crossing a wake-up edge
        cut = set(W)
        seen, st = set(), [0]
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            st += [s for s in fl.succ.get(b, ()) if (b, s) not in cut]
        bad = sorted(seen & set(sb))
        cx.ob("shutdown-only-on-wake-up", name, not bad, "end-of-stream can be sent without the shutdown wake-up", at(fl, bad[0]) if bad else None)
        polls = [c.blk for c in fl.calls if c.path.endswith("Poll::poll") and c.args[0] == ("arg", 3)]
        cx.ob("polls", name, bool(polls), "the source does not poll for its shutdown wake-up")
        r = reach_edges(fl, W, avoid=sb)
        bad = sorted(r & (set(polls) | set(fl.ret_blocks)))
        cx.ob("wake-up-answered", name, not bad, "after the shutdown wake-up the source can poll again or return without end-of-stream", at(fl, bad[0]) if bad else None)
        # local buffers whose elements are sent: drained before end-of-stream
        if name == "FileServer":
            buffers(cx, name, fl, sb)
    cx.floor("sources", n, 4)
    pool(cx)
    handlers(cx)


def buffers(cx, name, fl, sb):
    bufs = set()
    for c in sends(fl):
        for t in leaves(fl, c.args[1]):
            if t[0] == "elem" and t[1][0] == "call" and re.search(r"Vec::<T>::(new|with_capacity)$", t[1][1]):
                bufs.add(t[1])
    k = 0
    for B in bufs:
        fills = [c for c in fl.calls if re.search(r"Vec::<T>::(push|extend|append)$|Extend.*::extend$", c.path) and c.args[0] == B]
        k += len(fills)
        outs = [c for c in sends(fl) if any(t == ("elem", B) for t in leaves(fl, c.args[1]))]
        # exhausted iteration edges over B
        def done(t, v):
            return v == ("v", "None") and t[0] == "call" and "next" in t[1] and any(x == B for x in flow.subterms(t[2]) if x)
        ends = edges(fl, done)
        bad = must_reach(fl, succs(fl, blks(fills)), ends, sb)
        cx.ob("buffer-drained-first", name, not bad and bool(ends), "lines already read can still be buffered when end-of-stream is sent", at(fl, bad[0]) if bad else None)
        # inside the iteration every element is sent
        some = edge_pairs(fl, lambda t, v: v == ("v", "Some") and t[0] == "call" and "next" in t[1] and any(x == B for x in flow.subterms(t[2]) if x))
        nx = [c.blk for c in fl.calls if c.dest and any(("call", c.path, tuple(c.args)) == s[:3] for s in ())]
        r = reach_edges(fl, some, avoid=blks(outs))
        bad = sorted(r & (set(ends) | set(sb)))
        cx.ob("every-buffered-item-sent", name, bool(some) and not bad, "an item taken from the buffer may be dropped", at(fl, bad[0]) if bad else None)
    cx.floor("buffer fill sites in " + name, k, 1)


def pool(cx):
    fl = cx.flow(cx.method("source::Source", r"tcp::TCP<", "run"), opaque=("^util::send$",))
    sb = blks(shutdowns(fl))
    tok = edge_pairs(fl, sys_edge)
    r = reach_edges(fl, tok)
    sig = [c for c in fl.calls if c.path.endswith("SetReadiness::set_readiness") and c.blk in r]
    joins = [c for c in fl.calls if c.path.endswith("JoinHandle::<T>::join") and c.blk in r]

    def over_threads(t):
        return t[0] == "elem" and t[1][0] == "fld" and "threads" in t[1][2]
    sig = [c for c in sig if any(over_threads(s) for s in flow.subterms(c.args[0]) if s)]
    js = [c for c in joins if any(over_threads(s) for s in flow.subterms(c.args[0]) if s)]
    cx.ob("handlers-signalled", "TCP", bool(sig), "connection handlers are not told to stop before end-of-stream")
    cx.ob("handlers-joined", "TCP", bool(js), "connection handlers are not joined before end-of-stream")
    if not sig or not js:
        return
    # the loop over all handlers is exhausted before end-of-stream
    def done(t, v):
        return v == ("v", "None") and t[0] == "call" and re.search(r"next$", t[1]) and any(s[0] == "fld" and s[2] == "threads" for s in flow.subterms(t[2]) if s)
    ends = [e for e in edges(fl, done) if e in r]
    bad = must_reach(fl, [s for _, s in tok], ends, sb)
    cx.ob("all-handlers-stopped-first", "TCP", bool(ends) and not bad, "end-of-stream can be sent before every connection handler was stopped", at(fl, bad[0]) if bad else None)
    nxt = edge_pairs(fl, lambda t, v: v == ("v", "Some") and t[0] == "call" and re.search(r"next$", t[1]) and any(s[0] == "fld" and s[2] == "threads" for s in flow.subterms(t[2]) if s))
    st = [s for b, s in nxt if s in r]
    for what, cs in (("signalled", sig), ("joined", js)):
        heads = {b for b, s in nxt}
        bad = must_reach(fl, st, blks(cs), heads | set(sb))
        cx.ob("each-handler-" + what, "TCP", bool(st) and not bad, "a connection handler may be skipped", at(fl, bad[0]) if bad else None)
    bad = must_reach(fl, st, blks(sig), blks(js))
    cx.ob("signal-before-join", "TCP", not bad, "a handler is joined before it was told to stop", at(fl, bad[0]) if bad else None)
    # handlers are all recorded in the pool: spawn result inserted before the next accept/poll
    sp = [c for c in fl.calls if c.path == "std::thread::spawn"]
    ins = [c for c in fl.calls if c.path.endswith("HashMap::<K, V, S>::insert") and c.args[0][0] == "fld" and c.args[0][2] == "threads"
           and term_has(c.args[2], lambda s: s[0] == "call" and s[1] == "std::thread::spawn")]
    bad = must_reach(fl, succs(fl, blks(sp)), blks(ins), [c.blk for c in fl.calls if c.path.endswith("accept") or c.path.endswith("Poll::poll")] + sb + list(fl.ret_blocks))
    cx.ob("handler-recorded", "TCP", bool(sp) and bool(ins) and not bad, "a spawned connection handler is not recorded for shutdown", at(fl, bad[0]) if bad else None)
    # a crashed connection handler must not take the source down
    crash = [p for p in fl.panics if any(t[0] == "call" and t[1].endswith("JoinHandle::<T>::join") and v == ("v", "Err") for t, v in fl.guards(p[0]).items())]
    cx.ob("handler-crash-contained", "TCP", not crash, "a connection handler that crashed makes the source panic when it is joined, so end-of-stream is never sent", at(fl, crash[0][0]) if crash else None)


def handlers(cx):
    n = 0
    for im in cx.prog.impls_for("source::tcp::TCPStreamHandler"):
        name = im["self"].split("::")[-1]
        fl = cx.flow(im["items"]["handle_stream"], opaque=("^util::send$",))
        W = edge_pairs(fl, sys_edge)
        n += 1
        if not cx.ob("handler-wake-up", name, bool(W), "the handler does not recognise the shutdown wake-up"):
            continue
        r = reach_edges(fl, W)
        bad = sorted(r & {c.blk for c in fl.calls if c.path.endswith("Poll::poll") or c.path == SEND})
        cx.ob("handler-returns-on-wake-up", name, not bad and bool(r & set(fl.ret_blocks)), "the handler can poll or emit again after the shutdown wake-up", at(fl, bad[0]) if bad else None)
    cx.floor("connection handlers", n, 3)
