"""The flush boundary filter.  The filter is taken apart into its iterations and the
paths between them: where an event that arrives is put, when a flush is taken notice
of, how holds age, which holds a flush releases (the release condition is evaluated on
a finite model of age and tolerance), and what is left in the end.  Every event must be
in exactly one place at all times and leave in the order of time."""
from rules import *
import c02

E, R, A = ("arg", 2), ("arg", 3), ("arg", 1)
HOLDS, LAST, TOL = ("fld", A, "holds"), ("fld", A, "last_flush_idx"), ("fld", A, "tolerance")
TIMED = {"Telemetry": "timestamp", "Log": "time"}


def last(c):
    return c.path.rsplit("::", 1)[-1]


def fresh_vec(t):
    return t[0] == "default" or t[0] == "call" and re.search(r"Vec::<.*>::(new|with_capacity)$", t[1]) is not None


def on(q, obj):
    """what a path does to a collection"""
    return [c for c in q.calls if c.args and c.args[0] == obj and last(c) not in ("len", "is_empty", "reserve", "deref", "deref_mut", "iter", "with_capacity", "into_iter", "next", "index_mut", "index", "binary_search_by", "binary_search_by_key", "as_slice", "drain", "last", "get")]


def sets_holds(q):
    return [w for w in q.writes if w.root == A and w.proj[:1] == (("f", "holds"),)] + [w for w in q.writes if w.root == HOLDS]


def run(cx):
    p = cx.method("filter::Filter", r"FlushBoundaryFilter$", "process")
    fl = cx.flow(p)
    ls = loops(fl)
    stops = [b for l in ls for b in l.next]
    qs = trace(fl, None, stops)
    if not cx.ob("followed", "process", bool(qs), "the paths of the filter could not be followed"):
        return
    arrivals(cx, fl, [q for q in qs if q.facts.get(E) != ("v", "TimerFlush")])
    flushes(cx, fl, ls, stops, [q for q in qs if q.facts.get(E) == ("v", "TimerFlush")])
    draining(cx)
    c02.at_end(cx, "Filter", cx.flow("filter::Filter::run", opaque=("^util::send$",)))
    fresh(cx)


def ok_ret(q):
    return q.ret is not None and q.ret[0] == "agg" and q.ret[1] == "Ok"


def arrivals(cx, fl, qs):
    seen = set()
    for q in qs:
        v = q.facts.get(E)
        k = v[1] if v else "other"
        if not cx.ob("arrival", "%s ends" % k, q.end in fl.ret_blocks and ok_ret(q), "an arriving %s does not simply get filed" % k):
            continue
        r, h = on(q, R), on(q, HOLDS)
        if k in TIMED:
            ts = ("fld", ("fld", ("var", E, k), "0"), TIMED[k])
            evs = (E, ("agg", k, (("0", ("fld", ("var", E, k), "0")),)))
            s = [(t, f[1]) for t, f in q.facts.items() if t[0] == "call" and t[1].rsplit("::", 1)[-1] in ("binary_search_by", "binary_search_by_key") and t[2][0] == HOLDS]
            if not cx.ob("filed", k, len(s) == 1 and not r, "an event with a time is emitted on arrival or filed without looking for its hold"):
                continue
            t, res = s[0]
            seen.add((k, res))
            idx = ("fld", ("var", t, res), "0")
            pu = [c for c in q.calls if last(c) == "push"]
            if res == "Ok":
                at_ = [c.args[0] for c in pu if c.args[1] in evs]
                good = len(pu) == 1 and len(at_) == 1 and at_[0] in tuple(("fld", x, "events") for x in (("call",), ("at", HOLDS, idx), fl.at(HOLDS, idx) if hasattr(fl, "at") else None)) or \
                    len(pu) == 1 and len(at_) == 1 and held_at(at_[0], idx)
                cx.ob("filed", k + " joins", good and not h, "an event does not join the hold of its own time")
            else:
                ins = [c for c in h if last(c) == "insert"]
                good = len(ins) == 1 and len(h) == 1 and ins[0].args[1] == idx
                if good:
                    v = ins[0].args[2]
                    g = lambda n: fl.proj(q.state, v, ("f", n))
                    good = g("timestamp") == ts and is_const(g("age"), 0)
                    evl = g("events")
                    put = [c.args[1] for c in pu if c.args[0] == evl]
                    good = good and len(pu) == 1 and len(put) == 1 and put[0] in evs and fresh_vec(evl) or good and evl[0] == "arr" and len(evl[1]) == 1 and evl[1][0] in evs
                cx.ob("filed", k + " new hold", good, "an event that needs a hold of its own does not get one with its time, at its place in time order, of age zero, holding it alone")
        else:
            cx.ob("untimed", k, not h and [c.args[1] for c in r if last(c) == "push"] == [E] and len(r) == 1 and not sets_holds(q), "an event without a time does not pass through exactly once")
    cx.floor("ways to file an event", len(seen), 4)
    cmpc = [c for c in fl.calls if last(c) in ("cmp", "partial_cmp") and c.args[0][0] == "fld" and c.args[0][2] == "timestamp" and c.args[0][1][0] == "elem"]
    alien = [c for c in fl.calls if last(c) in ("reverse", "then", "then_with") and c.path.startswith("std::cmp::Ordering")]
    keyed = [c for c in fl.calls if last(c) == "binary_search_by_key"]
    cx.ob("time-order", "search", (bool(cmpc) and all(timed(fl, c.args[1]) for c in cmpc) or bool(keyed)) and not alien, "holds are not searched by time")


def timed(fl, t):
    """the time of the event: on every path that of its own kind"""
    if t[0] == "fld" and t[2] == "0" and t[1][0] == "var" and t[1][2] == "Some":
        t = t[1][1]
    if t[0] == "phi":
        return all(timed(fl, v) for _, v, _ in phi_ins(fl, t))
    if t[0] == "agg" and t[1] == "Some":
        return timed(fl, t[2][0][1])
    if t[0] == "agg" and t[1] == "None":
        return True
    return t in [("fld", ("fld", ("var", E, k), "0"), f) for k, f in TIMED.items()]


def held_at(t, idx):
    return t[0] == "fld" and t[2] == "events" and t[1][0] == "call" and t[1][1].rsplit("::", 1)[-1] in ("index_mut",) and t[1][2] == (HOLDS, idx)


def flushes(cx, fl, ls, stops, qs):
    IDX = ("fld", ("var", E, "TimerFlush"), "0")
    cx.floor("ways to take a flush", len(qs), 2)
    # notice is taken of an index exactly once: a copy of an old one changes nothing
    freshq = []
    for q in qs:
        for i in (1, 2, 3):
            for l in (0, 1, 2, 3):
                f = lambda t: i if t == IDX else l if t == LAST else None
                try:
                    r = feasible(q, f, "u64")
                except Overflow:
                    r = None
                if r is False:
                    continue
                stale = i <= l
                if stale:
                    cx.ob("once-per-flush", "%d after %d" % (i, l), r is True and q.end in fl.ret_blocks and q.end not in stops and ok_ret(q) and not on(q, HOLDS) and not sets_holds(q) and not [w for w in q.writes if w.proj[-1:] == (("f", "age"),)] and [c.args[1] for c in on(q, R)] in ([], [E]), "a copy of an earlier flush pulse has an effect")
                else:
                    freshq.append(q) if q not in freshq else None
    cx.ob("once-per-flush", "fresh", bool(freshq), "no flush is ever taken notice of")
    ws = [w.blk for w in fl.writes if w.root == A and w.proj == (("f", "last_flush_idx"),)]
    cx.ob("once-per-flush", "remembered", all(w.val == IDX for w in fl.writes if w.blk in ws) and all(w in reach_all(freshq, fl) for w in ws), "the index of a flush is not what is remembered")
    for n, q in enumerate(freshq):
        done = any(b in ws for b in q.blocks) or not (reach(fl, [q.end], avoid=ws) & set(fl.ret_blocks))
        cx.ob("once-per-flush", "remembered #%d" % n, done, "a flush may be forgotten and taken again")
    starts = [q.end for q in freshq]
    rets = set(fl.ret_blocks)
    # aging: every hold, once
    mine = [l for l in ls if over_holds(fl, l.it)]
    aging = [l for l in mine if any([w for w in q.writes if w.proj[-1:] == (("f", "age"),)] for q in l.body(stops) or [])]
    rel = [l for l in mine if any(moves(fl, q, l) for q in l.body(stops) or [])]
    cx.ob("release", "loop", len(rel) == 1, "holds are not released by one pass over all of them")
    if len(rel) != 1:
        return
    rl = rel[0]
    if not aging:  # aged on the way, as values that are moved
        aging = [rl]
    cx.ob("aging", "loop", len(aging) == 1, "holds are not aged by one pass over all of them")
    al = aging[0]
    touched = [w for w in fl.writes if w.proj[-1:] == (("f", "age"),) and w.blk not in {b for q in al.body(stops) or [] for b in q.blocks}]
    cx.ob("aging", "only by flushes", not touched, "a hold's age is changed by something else than a flush")
    for i, q in enumerate(al.body(stops) or []):
        w = [w.val for w in q.writes if w.proj[-1:] == (("f", "age"),)]
        if al is rl and not w:
            w = [older(c.args[1], al.elem) for c in q.calls if last(c) in ("push", "push_back") and len(c.args) > 1 and older(c.args[1], al.elem) is not None]
            if not w and released(q, al.elem) == 1:
                continue
        cx.ob("aging", "body #%d" % i, len(w) == 1 and q.end in al.next and plus1(fl, w[0]), "a hold does not age by exactly one with a flush")
    cx.ob("aging", "complete", al.complete() and all(not (reach(fl, [s], avoid=[x for _, x in al.done]) & rets) for s in starts), "not every hold ages")
    cx.ob("aging", "once", not (reach(fl, [s for _, s in al.done]) & set(al.next)) , "holds age repeatedly")
    same = al is rl
    if not same:
        cx.ob("aging", "first", not (reach(fl, starts, avoid=[s for _, s in al.done]) & set(rl.next)), "holds are released before they have aged")
    # release
    keep = set()
    n = 0
    for i, q in enumerate(rl.body(stops) or []):
        ev = [c for c in on(q, R)]
        gone = released(q, rl.elem)
        kept = [c for c in q.calls if last(c) in ("push", "push_back") and len(c.args) > 1 and (c.args[1] == rl.elem or older(c.args[1], rl.elem) is not None)]
        keep |= {c.args[0] for c in kept}
        if not cx.ob("release", "body #%d ends" % i, q.end in rl.next, "the pass over the holds is broken off"):
            continue
        cx.ob("release", "body #%d" % i, (len(kept) == 1 and not ev) or (not kept and gone == 1 and len(ev) == 1), "a hold is neither kept nor released as a whole, or both")
        for tol in (0, 1, 2):
            for age in (1, 2, 3, 4):
                b = age - 1 if same else age
                f = lambda t: b if is_age(fl, t, rl.elem) else tol if t == TOL else None
                try:
                    r = feasible(q, f, "usize")
                except Overflow:
                    r = None
                if r is False:
                    continue
                n += 1
                cx.ob("when", "flushes held %d, tolerance %d" % (age, tol), r is True and (age > tol) == (gone == 1 and not kept), "a hold of %d flushes is %s with a tolerance of %d" % (age, "not released" if age > tol else "released", tol))
    cx.floor("release cases", n, 12)
    cx.ob("release", "complete", rl.complete() and all(not (reach(fl, [s], avoid=[x for _, x in rl.done]) & rets) for s in starts), "not every hold is looked at")
    # what is kept becomes the holds, in order; then the flush passes
    back = [w for w in fl.writes if w.root == A and w.proj == (("f", "holds"),) and w.val in keep and fresh_vec(w.val)]
    after = [s for _, s in rl.done]
    # (or the holds were made anew before, and those kept go straight there)
    anew = [w.blk for w in fl.writes if w.root == A and w.proj == (("f", "holds"),) and fresh_vec(w.val)]
    hw = [w for w in fl.writes if w.root == A and w.proj[:1] == (("f", "holds"),)]
    direct = len(keep) == 1 and {w.val for w in hw} == keep and all(w.blk in anew for w in hw) and not (reach(fl, [0], avoid=anew) & set(rl.next)) and not (reach(fl, [x for _, x in rl.some]) & set(anew))
    cx.ob("kept", "holds", direct or len(keep) == 1 and all(fresh_vec(k) for k in keep) and bool(back) and not (reach(fl, after, avoid=[w.blk for w in back]) & rets), "the holds that were kept are lost")
    fw = [c.blk for c in fl.calls if c.args and c.args[0] == R and last(c) == "push" and c.args[1] == E]
    cx.ob("flush-passes", "after the release", bool(fw) and not (reach(fl, starts, avoid=fw) & rets) and not (reach(fl, succs(fl, [b for b in fw if b in reach(fl, starts)])) & (set(rl.next) | set(fw))), "the flush pulse does not follow what it released, exactly once")


def older(v, el):
    """the new age of an element that was moved with nothing but its age changed"""
    return v[3] if v[0] == "upd" and v[1] == el and v[2] == ("f", "age") else None


def reach_all(qs, fl):
    out = set()
    for q in qs:
        out |= set(q.blocks) | reach(fl, [q.end])
    return out


def over_holds(fl, it):
    if whole(fl, it, HOLDS):
        return True
    return False


def released(q, el):
    """how often the events of el are handed on"""
    n = 0
    for c in q.calls:
        if c.args and c.args[0] == R and last(c) in ("append", "extend"):
            x = c.args[1]
            while x[0] == "call" and x[1].rsplit("::", 1)[-1] in ("drain", "into_iter") and (len(x[2]) < 2 or "RangeFull" in repr(x[2][1]) or x[2][1][0] == "undef"):
                x = x[2][0]
            n += x == ("fld", el, "events")
    return n


def moves(fl, q, l):
    return released(q, l.elem) or [c for c in q.calls if last(c) in ("push", "push_back") and len(c.args) > 1 and (c.args[1] == l.elem or older(c.args[1], l.elem) is not None)]


def is_age(fl, t, el):
    if t == ("fld", el, "age"):
        return True
    return t[0] == "phi" and t[2] == ("t", el) and t[3] == (("f", "age"),)


def plus1(fl, v):
    base = lambda t: t[0] == "fld" and t[2] == "age" or t[0] == "phi" and t[3] == (("f", "age"),)
    if v[0] == "bin" and v[1] == "Add":
        return is_const(v[2], 1) and base(v[3]) or is_const(v[3], 1) and base(v[2])
    return v[0] == "call" and v[1].rsplit("::", 1)[-1] in ("saturating_add", "wrapping_add") and base(v[2][0]) and is_const(v[2][1], 1)


def draining(cx):
    fl = cx.flow(cx.method("filter::Filter", r"FlushBoundaryFilter$", "drain"))
    res = ("arg", 2)
    ls = [l for l in loops(fl) if over_holds(fl, l.it)]
    if not cx.ob("drain", "loop", len(ls) == 1, "what is held at the end is not emitted by one pass over all holds"):
        return
    l = ls[0]
    for i, q in enumerate(l.body() or []):
        put = [c for c in q.calls if c.args and c.args[0] == res and last(c) in ("append", "extend")]
        x = put[0].args[1] if put else None
        while x is not None and x[0] == "call" and x[1].rsplit("::", 1)[-1] in ("drain", "into_iter"):
            x = x[2][0]
        cx.ob("drain", "body #%d" % i, len(put) == 1 and x == ("fld", l.elem, "events") and q.end in l.next, "a hold's events are not emitted exactly once at the end")
    cx.ob("drain", "complete", l.complete() and not (reach(fl, [0], avoid=[s for _, s in l.done]) & set(fl.ret_blocks)), "not every hold is emitted at the end")


def fresh(cx):
    fl = cx.flow("filter::flush_boundary_filter::FlushBoundaryFilter::new")
    r = fl.ret()
    g = lambda n: fl.proj({}, r, ("f", n))
    cx.ob("new", "FlushBoundaryFilter", r is not None and fresh_vec(g("holds")) and is_const(g("last_flush_idx"), 0) and g("tolerance") == ("fld", ("arg", 1), "tolerance"), "a new filter does not start empty with the configured tolerance")
