"""Filter run loop.  The provided run loop of the filter interface (and any
override of it) is analysed with its helpers inlined: each received event is
given to the filter logic exactly once, everything the logic produced is sent on
in production order before the next receive, a failed event is itself sent on,
and end-of-stream is forwarded once, only after it was counted from every
upstream, as the last thing the loop does."""
from rules import *

SEND = "util::send"


def run(cx):
    roots = []
    for im in cx.prog.impls_for("filter::Filter"):
        if "run" in im["items"]:
            roots.append((im["self"], im["items"]["run"]))
    roots.append(("Filter", "filter::Filter::run"))
    cx.floor("filter implementations", len(cx.prog.impls_for("filter::Filter")), 4)
    for name, path in roots:
        loop(cx, name, path)


def loop(cx, name, path):
    fl = cx.flow(path, opaque=("^util::send$",))
    snd = [c for c in fl.calls if c.path == SEND]
    sd = [c for c in snd if "Shutdown" in variants_of(fl, c.args[1])]
    # the end may also be put behind what the filter held, in the same buffer
    held_in = {c.args[1] for c in fl.calls if c.path == "filter::Filter::drain"}
    app = ends_of(fl, held_in) if not sd else []
    sd = sd or app
    nxt = blks([c for c in fl.calls if c.path.endswith("Iterator>::next") and term_has(c.args[0], lambda s: s == ("arg", 2)) and c.args[0] == ("arg", 2)])
    ELEM = ("elem", ("arg", 2))
    ok = lambda rule, bad, msg, need=True: cx.ob(rule, name, need and not bad, msg, at(fl, bad[0]) if bad else None)
    if not cx.ob("receives", name, bool(nxt), "the loop does not receive from its queue"):
        return
    # --- end of stream
    E_sd = edge_pairs(fl, lambda t, v: t == ELEM and v == ("v", "Shutdown"))
    E_ev = edge_pairs(fl, lambda t, v: t == ("not-variants", ELEM) and v == frozenset({"Shutdown"})
                      or t == ELEM and v[0] == "v" and v[1] != "Shutdown")
    cx.ob("recognises-end", name, bool(E_sd) and bool(E_ev), "end-of-stream is not distinguished")
    count_and_stop(cx, name, fl, E_sd, nxt, blks(sd), ("arg", 3), "forwarded")
    ok("return-after-end", always_before(fl, blks(sd), fl.ret_blocks), "the loop can return without forwarding end-of-stream")
    ok("nothing-after-end", never_after(fl, blks(sd), blks([c for c in snd if not app or all(c.args[1] != ("elem", b) for b in held_in)])), "something can be forwarded after end-of-stream")
    ok("stops-after-end", never_after(fl, blks(sd), nxt), "the loop receives again after forwarding end-of-stream")
    for c in sd:
        cx.ob("end-to-forwards", name, (c.args[0] == ("arg", 4) or c in app) and variants_of(fl, c.args[1]) == {"Shutdown"}, "end-of-stream does not go to the forwards", cat(c))
    at_end(cx, name, fl)
    # --- events
    pr = [c for c in fl.calls if c.path == "filter::Filter::process"]
    P = blks(pr)
    ps = PSim(fl, pred=lambda t: t == ELEM or t[0] == "call" and (t[1] == "filter::Filter::process" or t[2] and t[2][0] == ("arg", 2)))
    ends = nxt + fl.ret_blocks

    def is_event(e):
        f = e.get(("F", ELEM))
        return f is not None and f != ("v", "Shutdown") or f is None and "Shutdown" in e.get(("FX", ELEM), ())
    ok("event-processed", ps.missing(nxt, P, ends, is_event), "a received event can be skipped", bool(P))
    ok("processed-once", at_most_once(fl, P, nxt), "an event can be given to the filter logic twice", bool(P))
    r = reach_edges(fl, E_sd, avoid=nxt)
    ok("end-not-processed", sorted(r & set(P)), "end-of-stream is given to the filter logic")
    bufs = set()
    for c in pr:
        cx.ob("event-intact", name, strip_ref(c.args[1]) == ELEM and c.args[0] == ("arg", 1), "the filter logic is not given the received event", cat(c))
        bufs.add(c.args[2])
    if len(bufs) != 1:
        cx.ob("one-buffer", name, False, "more than one output buffer")
        return
    B = bufs.pop()
    okE = edge_pairs(fl, lambda t, v: v == ("v", "Ok") and t[0] == "call" and t[1] == "filter::Filter::process")
    errE = edge_pairs(fl, lambda t, v: v == ("v", "Err") and t[0] == "call" and t[1] == "filter::Filter::process")
    def left(through, res):
        return ps.missing(P, through, ends, lambda e: any(k[0] == "F" and k[1][0] == "call" and k[1][1] == "filter::Filter::process" and v == ("v", res) for k, v in e.items()))
    done, some = iter_edges(fl, lambda x: whole(fl, x, B))
    rev = [t for _, _, nf in new_facts(fl) for t in nf if t[0] == "call" and term_has(t, lambda s: s[0] == "call" and s[1] == "rev") and term_has(t, lambda s: s == B)]
    cx.ob("production-order", name, not rev, "produced events are forwarded in a different order")
    outs = [c for c in snd if c.args[1] == ("elem", B) and c.args[0] == ("arg", 4)]
    dr = [c for c in fl.calls if term_has(c.args[0], lambda s: s == B) and re.search(r"Vec::<T>::(drain|clear|append)$|mem::(replace|take)", c.path)] if True else []
    ob = blks(outs)
    empty = {s for _, s in edge_pairs(fl, lambda t, v: t[0] == "call" and t[1].endswith("is_empty") and t[2][0] == B and v == ("c", True))}
    # a produced batch is completely forwarded before the next receive
    ok("output-forwarded", left({s for _, s in done} | empty, "Ok"), "produced events can be left behind", bool(done) and bool(okE))
    ok("each-output-forwarded", must_reach(fl, [s for _, s in some], ob, {b for b, _ in some} | {s for _, s in done} | set(nxt)), "a produced event can be dropped", bool(some) and bool(ob))
    heads = {b for b, _ in some}
    ok("output-forwarded-once", must_reach(fl, succs(fl, ob), heads, ob), "a produced event can be forwarded twice", bool(ob))
    # what was forwarded leaves the buffer before the next batch is put there
    gone = blks(dr) + blks([c for c in fl.calls if c.args and c.args[0] == B and re.search(r"Vec::<T>::(clear|truncate)$", c.path)])
    made = [c.blk for c in fl.calls if c.dest == B]
    anew = bool(made) and not must_reach(fl, succs(fl, P), made, P)
    ok("buffer-consumed", [] if anew else must_reach(fl, succs(fl, P), set(gone) | empty | set(fl.ret_blocks), P), "forwarded events stay in the output buffer and would be forwarded again", bool(gone) or anew)
    # failure: the event inside the error goes on
    fe = []
    for c in snd:
        ls = [t for t in fl.alts(c.args[1])]
        if ls and all(term_has(t, lambda s: s[0] == "call" and s[1] == "filter::Filter::process") and t[0] == "fld" for t in ls):
            if c.args[0] == ("arg", 4):
                fe.append(c)
    ok("failed-event-forwarded", left(blks(fe), "Err"), "an event on which the logic failed can be dropped", bool(errE) and bool(fe))
    ok("failed-event-once", at_most_once(fl, blks(fe), nxt), "a failed event can be forwarded twice", bool(fe))
    # nothing else is sent
    kept = {c.args[1] for c in fl.calls if c.path == "filter::Filter::drain"}
    held = [c for c in snd if c.args[0] == ("arg", 4) and any(c.args[1] == ("elem", b) for b in kept)]
    other = [c for c in snd if c not in sd and c not in outs and c not in fe and c not in held]
    cx.ob("nothing-else", name, not other, "something that the filter logic did not produce is forwarded", cat(other[0]) if other else None)


def at_end(cx, name, fl):
    """what the filter holds back is asked for and sent before end-of-stream"""
    ok = lambda rule, bad, msg, need=True: cx.ob(rule, name, need and not bad, msg, at(fl, bad[0]) if bad else None)
    snd = [c for c in fl.calls if c.path == SEND]
    end = blks([c for c in snd if "Shutdown" in variants_of(fl, c.args[1])])
    dr = [c for c in fl.calls if c.path == "filter::Filter::drain" and c.args[0] == ("arg", 1)]
    app = blks(ends_of(fl, {c.args[1] for c in dr})) if not end else []
    end = end or app
    ok("asked-at-end", always_before(fl, blks(dr), end), "end-of-stream is forwarded without asking the filter for what it holds", bool(dr))
    ok("asked-once", at_most_once(fl, blks(dr), []), "the filter is asked twice for what it holds")
    for b in {c.args[1] for c in dr}:
        done, some = iter_edges(fl, lambda x: whole(fl, x, b))
        empty = {s for _, s in edge_pairs(fl, lambda t, v: t[0] == "call" and t[1].endswith("is_empty") and t[2][0] == b and v == ("c", True))}
        out = blks([c for c in snd if c.args[0] == ("arg", 4) and c.args[1] == ("elem", b)])
        ask = blks([c for c in dr if c.args[1] == b])
        if app:
            ok("held-forwarded", must_reach(fl, succs(fl, app), {s for _, s in done} | empty, fl.ret_blocks), "what the filter held, and end-of-stream, can be left behind at the end", bool(done))
        ok("held-forwarded", must_reach(fl, succs(fl, ask), {s for _, s in done} | empty, fl.ret_blocks if app else end), "what the filter held can be left behind at the end", bool(done))
        ok("each-held-forwarded", must_reach(fl, [s for _, s in some], out, {x for x, _ in some} | {s for _, s in done}), "an event the filter held can be dropped at the end", bool(out))
        ok("held-forwarded-once", must_reach(fl, succs(fl, out), {x for x, _ in some}, out), "an event the filter held can be forwarded twice")


def ends_of(fl, bufs):
    """where end-of-stream is put behind the events of one of the buffers"""
    return [c for c in fl.calls if re.search(r"Vec::<T>::push$", c.path) and c.args[0] in bufs and variants_of(fl, c.args[1]) == {"Shutdown"}]


def strip_ref(t):
    return t


def count_and_stop(cx, name, fl, E_sd, nxt, stop, srcs, what):
    """end-of-stream is acted on (blocks `stop`) once counted from every upstream"""
    ok = lambda rule, bad, msg, need=True: cx.ob(rule, name, need and not bad, msg, at(fl, bad[0]) if bad else None)
    cands = []
    for b, s, nf in new_facts(fl):
        for t, v in nf.items():
            if t[0] == "bin" and v[0] == "c" and any(is_len(x, srcs) for x in t[2:]):
                cands.append((b, s, t, v))
    reached, notyet, incs = set(), set(), set()
    for b, s, t, v in cands:
        op, x, y = t[1], t[2], t[3]
        cnt = y if is_len(x, srcs) else x
        inc = counter(fl, cnt)
        if inc is None:
            continue
        incs |= inc
        if is_len(y, srcs):  # normalise to len OP count
            op = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(op, op)
        if (op, v[1]) in (("Le", True), ("Gt", False), ("Eq", True), ("Ne", False)):
            reached.add((b, s))
        if (op, v[1]) in (("Le", False), ("Gt", True), ("Eq", False), ("Ne", True)):
            notyet.add((b, s))
    if not cx.ob("counts-upstreams", name, bool(reached) and bool(incs), "end-of-stream events are not counted against the number of upstreams"):
        return
    # stop only after the count was reached
    cut = reached
    seen, st = set(), [0]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        st += [s for s in fl.succ.get(b, ()) if (b, s) not in cut]
    ok("waits-for-every-upstream", sorted(seen & set(stop)), "end-of-stream can be %s before every upstream ended" % what)
    ok("stops-when-all-ended", must_reach(fl, [s for _, s in reached], stop, nxt), "the loop can go on although every upstream ended")
    # one count per end-of-stream event
    st = [s for _, s in E_sd]
    ok("each-end-counted", must_reach(fl, st, incs, nxt), "an end-of-stream event can go uncounted")
    ok("end-counted-once", must_reach(fl, succs(fl, incs), nxt, incs), "one end-of-stream event can be counted twice")
    cutE = set(E_sd)
    seen, st = set(), [s for b in nxt for s in fl.succ.get(b, ())] + [0]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        if b in set(nxt):
            continue
        st += [s for s in fl.succ.get(b, ()) if (b, s) not in cutE]
    ok("only-ends-counted", sorted(seen & incs), "something other than end-of-stream is counted")


def is_len(t, srcs):
    t = strip(t, "cast")
    return (t[0] == "len" and t[1] == srcs) or (t[0] == "call" and t[1].rsplit("::", 1)[-1] in ("len", "count") and t[2][0] == srcs)
