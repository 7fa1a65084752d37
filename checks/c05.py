"""Fan-out.  The function through which every stage hands an event to its
forwards is analysed with path-sensitive queries: every channel of the list is
covered by a send of the caller's event (or of the very event a failed send gave
back), a successful send is never repeated, a failed send is repeated unless the
channel is full, and a full channel is counted once and only then given up."""
from rules import *

SENDP = "hopper::Sender::<T>::send"


def run(cx):
    fl = cx.flow("util::send")
    sites = [c for c in fl.calls if c.path == SENDP]
    if not cx.ob("sends", "send", bool(sites), "nothing is sent"):
        return
    A, EV = ("arg", 1), ("arg", 2)
    n = 0
    cover = set()
    full = ("static", "util::UTIL_SEND_HOPPER_ERROR_FULL")
    counts = [c for c in fl.calls if c.path.endswith("fetch_add") and c.args[0] == full]
    for c in counts:
        cx.ob("count-by-one", at(fl, c.blk), is_const(c.args[1], 1), "a dropped event is not counted as one", cat(c))
    track = lambda t: term_has(t, lambda s: s[0] == "call" and s[1] == SENDP) or t[0] == "call" and t[1].endswith("next")
    ps = PS(fl, track)
    empty = edge_pairs(fl, lambda t, v: t[0] == "call" and t[1].endswith("is_empty") and t[2][0] == A and v == ("c", True) or len_le(t, v, A, 0)
                       or v == ("v", "None") and t[0] == "call" and re.search(r"split_(first|last)|first_mut|last_mut", t[1]))
    few = empty + edge_pairs(fl, lambda t, v: len_le(t, v, A, 1))
    allb = blks(sites)
    for c in sites:
        n += 1
        inst = at(fl, c.blk)
        # the event
        ph, rest = phi_family(fl, c.args[1])
        good = all(x == EV or is_returned(x) for x in rest)
        cx.ob("event-unchanged", inst, good and bool(rest), "something other than the caller's event is sent", cat(c))
        # the channel
        ch = c.args[0]
        k = channel(fl, ch, A)
        if not cx.ob("channel", inst, k is not None, "the receiver of the event is not one of the forwards: " + fmt(ch), cat(c)):
            continue
        cover.add(k)
        it = [x.blk for x in fl.calls if x.path.endswith("next") and ch == fl.elem(x.args[0])] if k[0] in ("all", "from") else []
        others = [b for b in allb if b != c.blk]
        T = lambda k: k[0] == "F" and k[1][0] == "call" and k[1][1] == SENDP and k[1][2][0] == ch
        ends = it + list(fl.ret_blocks) + others

        def res(e):
            for kk, v in e.items():
                if T(kk):
                    return v
        def isfull(e):
            return any(kk[0] == "F" and kk[1][0] == "fld" and term_has(kk[1], lambda s: s[0] == "call" and s[1] == SENDP and s[2][0] == ch) and v == ("v", "Full") for kk, v in e.items())
        bad = ps.missing([c.blk], [c.blk], ends, lambda e: res(e) == ("v", "Err") and not isfull(e))
        cx.ob("retried-until-accepted", inst, not bad, "an event can be given up although the channel is not full", at(fl, bad[0]) if bad else None)
        bad = ps.missing([c.blk], blks(counts), ends + [c.blk], isfull)
        cx.ob("drop-counted", inst, not bad and bool(counts), "an event dropped on a full channel is not counted", at(fl, bad[0]) if bad else None)
        bad = ps.missing([c.blk], [], [c.blk] + it, lambda e: False)
        ps.after([c.blk], avoid=[c.blk] + ends)
        rep = [b for b, e in ps.stopped if b == c.blk and (res(dict(e)) == ("v", "Ok") or isfull(dict(e)))]
        over = edge_pairs(fl, lambda t, v: v == ("v", "Full") and t[0] == "fld" and term_has(t, mine(ch)) or v == ("v", "Ok") and mine(ch)(t))
        ps.from_edges(over, avoid=[c.blk] + it)
        rep += [b for b, e in ps.stopped if b == c.blk]
        cx.ob("sent-once", inst, not rep and bool(over), "an accepted (or given up) event is sent again to the same forward", cat(c))
        # every element gets it
        if it:
            some = edge_pairs(fl, lambda t, v: v == ("v", "Some") and t[0] == "call" and t[1].endswith("next") and fl.elem(t[2][0]) == ch)
            bad = must_reach(fl, [s for _, s in some], [c.blk], ends)
            cx.ob("each-forward", inst, bool(some) and not bad, "a forward can be skipped", at(fl, bad[0]) if bad else None)
            done = [s for b, s in edge_pairs(fl, lambda t, v: v == ("v", "None") and t[0] == "call" and t[1].endswith("next") and fl.elem(t[2][0]) == ch)]
            skip = few if k[0] == "from" else empty
            bad = cut_reach(fl, skip, done) & set(fl.ret_blocks)
            cx.ob("all-forwards", inst, bool(done) and not bad, "the forwards may not all be visited", None)
        else:
            bad = cut_reach(fl, empty if k == ("at", 0) else few, [c.blk]) & set(fl.ret_blocks)
            cx.ob("all-forwards", inst, not bad, "a forward may not be visited", None)
    full_cover = ("all",) in cover or (("from", 1) in cover and ("at", 0) in cover) or (("rest", 0) in cover and ("first", 0) in cover)
    cx.ob("covers-forwards", "send", full_cover, "the sends do not cover all forwards: %s" % sorted(cover))
    # counted only when dropped
    for c in counts:
        g = fl.guards(c.blk)
        cx.ob("counted-only-when-full", at(fl, c.blk), any(v == ("v", "Full") for t, v in g.items()), "counts a drop that did not happen", cat(c))
        bad = must_reach(fl, succs(fl, [c.blk]), allb, blks(counts))
        cx.ob("counted-once", at(fl, c.blk), not bad, "one drop can be counted twice", cat(c))
    cx.floor("send sites", n, 1)


def mine(ch):
    return lambda s: s[0] == "call" and s[1] == SENDP and s[2][0] == ch


def cut_reach(fl, cut, avoid):
    cut, seen, st, av = set(cut), set(), [0], set(avoid)
    while st:
        b = st.pop()
        if b in seen or b in av:
            continue
        seen.add(b)
        st += [s for s in fl.succ.get(b, ()) if (b, s) not in cut]
    return seen


def is_returned(x):
    return x[0] == "fld" and x[2] == "0" and x[1][0] == "fld" and x[1][1][0] == "var" and x[1][1][2] == "Err" and x[1][1][1][0] == "call" and x[1][1][1][1] == SENDP


def channel(fl, ch, A):
    if ch == ("elem", A):
        its = {c.args[0] for c in fl.calls if c.path.endswith("next") and fl.elem(c.args[0]) == ch}
        if len(its) == 1:
            x = its.pop()
            while x[0] == "call" and x[1].rsplit("::", 1)[-1] in ("iter_mut", "into_iter", "rev", "enumerate"):
                x = x[2][0]
            if x[0] == "call" and x[1].rsplit("::", 1)[-1] == "skip" and x[2][1][0] == "c" and x[2][0] == A:
                return ("from", x[2][1][1]) if x[2][1][1] else ("all",)
            return ("all",) if x == A else None
        return None
    if ch[0] == "elem":
        x = ch[1]
        if x[0] == "call" and x[1].rsplit("::", 1)[-1] in ("index", "index_mut") and x[2][0] == A:
            r = x[2][1]
            if r[0] == "agg" and len(r[2]) == 1 and r[2][0][0] == "start" and r[2][0][1][0] == "c":
                return ("from", r[2][0][1][1]) if r[2][0][1][1] else ("all",)
        if x[0] == "call" and x[1].endswith("skip") and x[2][0] == A and x[2][1][0] == "c":
            return ("from", x[2][1][1])
        if term_has(x, lambda s: s[0] == "call" and re.search(r"split_(first|last)(_mut)?$", s[1]) and s[2][0] == A) and x[0] == "fld" and x[2] == "1":
            return ("rest", 0)
    if ch[0] == "call" and ch[1].rsplit("::", 1)[-1] in ("index", "index_mut") and ch[2][0] == A and ch[2][1][0] == "c":
        return ("at", ch[2][1][1])
    if ch[0] in ("at", "idx") and ch[1] == A:
        return ("at", ch[2][1]) if ch[2][0] == "c" else None
    if ch[0] == "fld" and ch[2] == "0" and term_has(ch, lambda s: s[0] == "call" and re.search(r"split_(first|last)(_mut)?$", s[1]) and s[2][0] == A):
        return ("first", 0)
    return None


def len_le(t, v, A, k):
    """fact: len(A) <= k (k in 0, 1)"""
    if t[0] != "bin" or v[0] != "c":
        return False

    def ln(x):
        return is_coll_len(x, A)

    def ln1(x):
        return x[0] == "call" and x[1].endswith("saturating_sub") and ln(x[2][0]) and is_const(x[2][1], 1)
    op, a, b, tr = t[1], t[2], t[3], v[1]
    if ln(b) or ln1(b):
        a, b = b, a
        op = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(op, op)
    if b[0] != "c":
        return False
    c = b[1] + (1 if ln1(a) else 0)
    if not (ln(a) or ln1(a)):
        return False
    hi = None
    if (op, tr) in (("Eq", True), ("Ne", False), ("Le", True), ("Gt", False)):
        hi = c
    if (op, tr) in (("Lt", True), ("Ge", False)):
        hi = c - 1
    return hi is not None and hi <= k


def is_coll_len(x, A):
    x = strip(x, "cast")
    return x == ("len", A) or x[0] == "call" and x[1].endswith("::len") and x[2][0] == A
