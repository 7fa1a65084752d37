"""Sink run loop.  The body that runs in a sink's thread is analysed with its
helpers inlined: a received event is held while the valve is closed and the sink
is flushed meanwhile; once open it is given to the operation for its kind exactly
once with all its fields; flush pulses are deduplicated by index and filtered by
the flush interval; the sink is shut down once, after end-of-stream was counted
from every upstream, as the last thing."""
from rules import *
from c02 import count_and_stop

S = "sink::Sink::"


def run(cx):
    path = None
    for p in cx.prog.bodies:
        if "RunnableSink" in p and "run::{{closure}}" in p:
            path = p
    if path is None:
        raise AnchorError("the thread body of a runnable sink")
    fl = cx.flow(path)
    name = "sink loop"
    C = lambda n: [c for c in fl.calls if c.path == S + n]
    nx = [c for c in fl.calls if c.path.endswith("Iterator>::next")]
    rc = {c.args[0] for c in nx}
    if len(rc) != 1:
        raise AnchorError("one receive queue in the sink loop")
    R = rc.pop()
    root = R[1]
    STATE, SRCS, E = ("fld", root, "state"), ("fld", root, "sources"), ("elem", R)
    nxt = blks(nx)
    ok = lambda rule, bad, msg, need=True: cx.ob(rule, name, need and not bad, msg, at(fl, bad[0]) if bad else None)
    ends = nxt + fl.ret_blocks
    ps = PSim(fl, pred=lambda t: t == E or t[0] == "call" and (t[1] == S + "valve_state" or t[2] and t[2][0] == R))
    kinds = {"Telemetry": ("deliver", ["0"]), "Log": ("deliver_line", ["0"]),
             "Raw": ("deliver_raw", ["order_by", "encoding", "bytes", "metadata", "connection_id"])}
    acts = {}
    valve = C("valve_state")
    vb = blks(valve)
    opn = edge_pairs(fl, lambda t, v: v == ("v", "Open") and t[0] == "call" and t[1] == S + "valve_state")
    cls = edge_pairs(fl, lambda t, v: v == ("v", "Closed") and t[0] == "call" and t[1] == S + "valve_state")
    cx.ob("consults-valve", name, bool(opn) and bool(cls), "the valve is not consulted")
    closed = reach_edges(fl, cls, avoid=vb)
    flush = blks(C("flush"))
    work = []
    for k, (m, fields) in kinds.items():
        cs = C(m)
        work += blks(cs)
        ek = edge_pairs(fl, lambda t, v: t == E and v == ("v", k))
        cx.ob("kind-recognised", k, bool(ek) and bool(cs), "events of this kind are not dispatched")
        want = [STATE] + [("fld", ("var", E, k), f) for f in fields]
        for c in cs:
            cx.ob("delivered-intact", k, list(c.args) == want, "the sink is not given the received event's own fields", cat(c))
            ok("right-kind", [c.blk] if fl.guards(c.blk).get(E) != ("v", k) else [], "%s is used for another kind of event" % m)
        # open valve + this kind: the operation happens before the next receive
        bad = ps.missing(nxt, blks(cs), ends, F(E, k))
        cx.ob("delivered", k, not bad, "an event of this kind can be dropped", at(fl, bad[0]) if bad else None)
        bad = at_most_once(fl, blks(cs), nxt)
        cx.ob("delivered-once", k, not bad, "an event of this kind can be delivered twice", at(fl, bad[0]) if bad else None)
    sh = blks(C("shutdown"))
    work += sh
    # closed valve
    ok("held-while-closed", sorted(closed & set(ends + work)), "a closed valve does not hold the event back")
    ok("flush-while-closed", must_reach(fl, [s for _, s in cls], flush, vb), "a closed valve is not relieved by a flush")
    # work only under an open valve
    cut = set(opn)
    seen, st = set(), [s for b in nxt for s in fl.succ.get(b, ())]
    while st:
        b = st.pop()
        if b in seen or b in nxt:
            continue
        seen.add(b)
        st += [s for s in fl.succ.get(b, ()) if (b, s) not in cut]
    ok("open-valve-only", sorted(seen & set(work)), "work is done without an open valve")
    # flush pulses
    IDX = ("fld", ("var", E, "TimerFlush"), "0")
    tf = edge_pairs(fl, lambda t, v: t == E and v == ("v", "TimerFlush"))
    pf = [b for b in flush if b not in closed]
    cx.ob("pulse-flushes", name, bool(pf) and bool(tf), "flush pulses do not flush")

    def newer(t, v):
        if t[0] != "bin" or v[0] != "c":
            return None
        a, b = t[2], t[3]
        if b == IDX and a != IDX:
            if (t[1], v[1]) in (("Lt", True), ("Ge", False)):
                return a
        if a == IDX:
            if (t[1], v[1]) in (("Gt", True), ("Le", False)):
                return b
        return None
    fresh = {}
    for b, s, nf in new_facts(fl):
        for t, v in nf.items():
            l = newer(t, v)
            if l is not None and only_indices(fl, l, IDX):
                fresh[(b, s)] = l
    cx.ob("pulse-dedup", name, bool(fresh), "pulse indices are not compared with the last one")
    cut = set(fresh)
    seen, st = set(), [0]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        st += [s for s in fl.succ.get(b, ()) if (b, s) not in cut]
    ok("flush-only-on-new-pulse", sorted(seen & set(pf)), "a repeated or older pulse can flush")
    # after a fresh pulse the last index is the pulse's index at the next receive
    for (b, s), l in fresh.items():
        r = reach(fl, [s], avoid=nxt)
        for h in nxt:
            for p in fl.pred[h]:
                pass
        good = last_updated(fl, l, s, nxt, IDX)
        cx.ob("last-pulse-remembered", name, good, "the index of an accepted pulse is not remembered")
    # interval
    FI = ("call", S + "flush_interval", (STATE,), None)
    for c in C("flush"):
        if c.blk not in pf:
            continue
        g = fl.guards(c.blk)
        some = any(t[0] == "call" and t[1] == S + "flush_interval" and v == ("v", "Some") for t, v in g.items())
        cx.ob("no-interval-no-flush", name, some, "a sink without interval is flushed by pulses", cat(c))
    iv = lambda t: t[0] == "fld" and t[1][0] == "var" and t[1][2] == "Some" and t[1][1][0] == "call" and t[1][1][1] == S + "flush_interval"

    def due(t, v):
        if t[0] != "bin" or v[0] != "c" or t[1] not in ("Eq", "Ne"):
            return False
        truth = v[1] if t[1] == "Eq" else not v[1]
        x = t[2] if is_const(t[3], 0) else t[3] if is_const(t[2], 0) else None
        if x is None or not truth:
            return False
        return iv(x) or (x[0] == "bin" and x[1] == "Rem" and x[2] == IDX and iv(x[3]))
    dueE = edge_pairs(fl, due)
    rem = edge_pairs(fl, lambda t, v: due(t, v) and not iv(t[2]) and not iv(t[3]))
    cut = set(dueE)
    seen, st = set(), [0]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        st += [s for s in fl.succ.get(b, ()) if (b, s) not in cut]
    ok("interval-respected", sorted(seen & set(pf)), "a pulse that is not a multiple of the interval can flush", bool(rem))
    ok("due-pulse-flushes", must_reach(fl, [s for _, s in dueE], pf, ends), "a due pulse may not flush", bool(dueE))
    ok("pulse-flushes-once", at_most_once(fl, pf, nxt), "one pulse can flush twice")
    for x in fl.asserts:
        if "divisor of zero" in x[1] and term_has(x[2], iv):
            cx.ob("interval-zero", name, not could(None, lambda t: 0 if iv(t) else None, facts=all_facts(fl, x[0])), "a sink flushed by every pulse crashes on the first", at(fl, x[0]))
    # shutdown
    E_sd = edge_pairs(fl, lambda t, v: t == E and v == ("v", "Shutdown"))
    cx.ob("recognises-end", name, bool(E_sd) and bool(sh), "end-of-stream is not handled")
    count_and_stop(cx, name, fl, E_sd, nxt, sh, SRCS, "acted on")
    ok("return-after-shutdown", always_before(fl, sh, fl.ret_blocks), "the loop can end without shutting the sink down", bool(fl.ret_blocks))
    ok("shutdown-is-last", never_after(fl, sh, nxt + [c.blk for c in fl.calls if c.path.startswith(S)]), "the sink is used after its shutdown")
    for c in C("shutdown"):
        cx.ob("shutdown-own-sink", name, c.args[0] == STATE, "another object is shut down", cat(c))


def only_indices(fl, l, IDX):
    ph, rest = phi_family(fl, l)
    return all(x == IDX or is_const(x, 0) for x in rest)


def last_updated(fl, l, start, nxt, IDX):
    """following the phi of `l` at the receive: the value arriving from any path
    through the fresh branch is IDX"""
    # the phi for l is keyed (block, local, path): its inputs along edges reachable from `start`
    r = reach(fl, [start], avoid=nxt)
    if l[0] != "phi":
        return False
    fam, _ = phi_family(fl, l)
    root = l[2]
    for b in nxt:
        for p in fl.pred.get(b, ()):
            pass
    ok = False
    for b in sorted(r | set(nxt)):
        for s in fl.succ.get(b, ()):
            pass
    # value of the local at the entry of each receive block predecessor inside r
    for h in nxt:
        for (p, k), st in fl.edge_in.get(h, {}).items():
            pass
    vals = set()
    for h in loop_heads(fl, nxt, r):
        for (p, k), st in fl.edge_in.get(h, {}).items():
            if p in r and not before_fresh(fl, p, start):
                vals.add(fl.val(st, fl.read(st, l[2], l[3])) if len(l) > 3 else None)
    return vals == {IDX}


def before_fresh(fl, p, start):
    return not fl.dominates(start, p)


def loop_heads(fl, nxt, r):
    """blocks where control from r re-joins the receive loop"""
    out = set()
    for b in r:
        for s in fl.succ.get(b, ()):
            if s in r or s in nxt:
                out.add(s)
    return [h for h in out if any(p not in r or not True for p in fl.pred[h]) or h in nxt]


def all_facts(fl, b):
    """what is known of values on entry to b, also what they are known not to be"""
    d = dict(fl.guards(b))
    d.update((("not", t), v) for t, v in fl.excluded(b).items())
    return d
