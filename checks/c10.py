"""The statsd protocol.  Every path of parsing a line is followed; the slices it looks at are
brought into a normal form (what, from where, to where), and what the path accepts or
rejects, and the point it makes, is compared with the grammar.  The source's handler is
followed from one datagram to the next."""
from rules import *
import strs
from strs import P, ZERO, END

SRC, RES, TEMPLATE, CONF = ("arg", 1), ("arg", 2), ("arg", 3), ("arg", 4)


def last(c):
    return (c if isinstance(c, str) else c.path).rsplit("::", 1)[-1]


def call(t, *names):
    return isinstance(t, tuple) and len(t) > 2 and t[0] == "call" and last(t[1]) in names


def inside(t, v):
    return ("fld", ("var", t, v), "0")


def has(t, x):
    return t == x or isinstance(t, tuple) and any(has(y, x) for y in t if isinstance(y, tuple))


def found(c, a):
    return ("found", ("c", c), a, END)


COLON = found(":", ZERO)
VAL = P(1, COLON)
PIPE = found("|", VAL)
TYP = P(1, PIPE)
AT = found("@", TYP)
RATE = P(1, AT)


def run(cx):
    parsing(cx)
    packets(cx, "^source::statsd::Statsd$")


def parsing(cx):
    fl = cx.flow("protocols::statsd::parse_statsd", opaque=(r"SoftTelemetry::", r"Telemetry::thaw", r"^time::now$"), models=dict(list(strs.MODELS.items()) + list(strs.SOFT.items())), key="c10")
    ls = loops(fl)
    lines = [L for L in ls if call(L.it, "lines") and L.it[2] == (SRC,)]
    if not cx.ob("lines", "loop", len(lines) == 1, "a packet is not taken apart line by line"):
        return
    L = lines[0]
    S = L.elem
    slices = lambda a, b: ("str", S, a, b)
    find = lambda c, a: ("find", S, ("c", c), a, END)
    name, val = slices(ZERO, P(0, COLON)), slices(VAL, P(0, PIPE))
    kinds = {}
    for i, q in enumerate(L.body()):
        inst = "#%d" % i
        fact = lambda t: q.facts.get(t)
        some = lambda t: fact(t) == ("v", "Some")
        none = lambda t: fact(t) == ("v", "None")
        at_ = find("@", TYP)
        typ = slices(TYP, P(0, AT)) if some(at_) else slices(TYP, END)
        rate = ("call", "parse_f64", (slices(RATE, END),), None)
        num = ("call", "parse_f64", (val,), None)
        eqs = {}
        for t, v in q.facts.items():
            if t[0] == "bin" and t[1] in ("Eq", "Ne") and v[0] == "c":
                for x, y in ((t[2], t[3]), (t[3], t[2])):
                    if x[0] == "c" and y == typ:
                        eqs[x[1]] = v[1] == (t[1] == "Eq")
        isone = [k for k, v in eqs.items() if v]
        pushed = [c for c in q.calls if c.args and c.args[0] == RES and last(c) not in ("is_empty", "len", "reserve")]
        if q.end in L.next:
            k = isone[0] if len(isone) == 1 else None
            allowed = ("g|", "g", "c|", "c", "ms", "ms|", "h", "h|") if some(at_) else ("g", "c", "ms", "h") if none(at_) else ()
            ok = some(find(":", ZERO)) and nonempty(q, name, S) and some(find("|", VAL)) and fact(num) == ("v", "Ok") and k in allowed
            if not cx.ob("accepts", inst, ok, "a line is accepted that is no name, ':', number, '|' and type"):
                continue
            if some(at_):
                cx.ob("accepts", inst + " rate", fact(rate) == ("v", "Ok"), "a line is accepted whose sample rate is no number")
            one = len(pushed) == 1 and last(pushed[0]) == "push"
            p = one and pushed[0].args[1]
            p = p and p[0] == "fld" and p[1][0] == "var" and call(p[1][1], "harden") and p[1][1][2][0]
            if not cx.ob("point", inst, bool(p) and p[0] == "soft" and has(p[1], TEMPLATE), "a line accepted does not make one point, last of all"):
                continue
            kinds.setdefault(k[0], set()).add(point(cx, q, inst, dict(p[2]), k, name, inside(num, "Ok"), some(at_) and inside(rate, "Ok"), S, fl))
        else:
            good = q.end in fl.ret_blocks and q.ret == ("c", False) and not pushed
            if not cx.ob("rejects", inst, good, "a line that is not accepted does not make the packet bad, or makes a point"):
                continue
            why = none(find(":", ZERO)) or isempty(q, name, S) or none(find("|", VAL)) or short(q, VAL, S) or fact(num) == ("v", "Err") or short(q, TYP, S)
            if some(at_):
                why = why or fact(rate) == ("v", "Err") or all(eqs.get(k) is False for k in ("g|", "g", "c|", "c", "ms", "ms|", "h", "h|"))
            elif none(at_):
                why = why or all(eqs.get(k) is False for k in ("g", "c", "ms", "h"))
            cx.ob("rejects", inst + " why", why, "a line is rejected although it is a name, ':', number, '|' and type")
    cx.ob("kinds", "all", set(kinds) == {"g", "c", "m", "h"} and kinds["g"] == {"Sum", "Set"} and kinds["c"] == {"Sum"} and kinds["m"] == kinds["h"] == {"Summarize", "Histogram"}, "not every type makes the kinds of points it should")
    cx.floor("types of lines", len(kinds), 4)
    # masks
    for L2 in ls:
        if not L2.over(("fld", CONF, "histogram_masks")):
            continue
        for i, q in enumerate(L2.body(stops=L.next)):
            m = matches(q, L2.elem, name)
            sets = [c for c in q.calls if "SoftTelemetry" in c.path and last(c) in ("kind", "bounds", "error", "clear_error")]
            if q.end in L2.next:
                cx.ob("masks", "#%d passed over" % i, m is False and not [c for c in q.calls if "SoftTelemetry" in c.path], "a mask that does not match has an effect, or one that matches is passed over")
            elif q.end in L.next:
                cx.ob("masks", "#%d taken" % i, m is True, "the masks end early although none has matched")
    # the end of a packet
    ends = trace(fl, L.done)
    cx.ob("verdict", "packet", bool(ends) and all(q.end in fl.ret_blocks and verdict(q) for q in ends), "whether a packet was good is not told by there being points")
    lead = trace(fl, stops=L.next)
    cx.ob("verdict", "begin", bool(lead) and all(q.end in L.next and not [c for c in q.calls if c.args and c.args[0] == RES and last(c) != "clear"] for q in lead), "a packet is judged before its lines are looked at")


def verdict(q):
    e = [v[1] for t, v in q.facts.items() if call(t, "is_empty") and t[2] == (RES,)]
    if q.ret in (("c", True), ("c", False)):
        return len(e) == 1 and q.ret[1] is (not e[0])
    r = q.ret
    if r[0] == "not" or r[0] == "un" and r[1] == "Not":
        x = r[-1]
        return call(x, "is_empty") and x[2] == (RES,)
    return False


def matches(q, elem, name):
    for t, v in q.facts.items():
        if call(t, "is_match") and t[2][1] == name and t[2][0] == ("fld", elem, "0"):
            return v[1]
    return None


def size(q, t, S):
    """(op, position) of a comparison of the line's length, read as length op position"""
    swap = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le", "Eq": "Eq", "Ne": "Ne"}
    if t[0] == "bin" and t[1] in swap:
        for x, y, op in ((t[2], t[3], t[1]), (t[3], t[2], swap[t[1]])):
            if call(x, "len") and x[2] == (S,):
                p = strs.lin(y)
                if p is not None:
                    return op, p
    return None


def short(q, pos, S):
    """the path knows that nothing is left of the line from a position on"""
    for t, v in q.facts.items():
        if t[0] == "not":
            continue
        z = size(q, t, S)
        if z and z[1] == pos and (z[0], v[1]) in (("Le", True), ("Gt", False), ("Eq", True), ("Ne", False)):
            return True
        if z and z[1] == strs.add(pos, P(1)) and (z[0], v[1]) in (("Lt", True), ("Ge", False)):
            return True
        if call(t, "is_empty") and t[2] == (("str", S, pos, END),) and v == ("c", True):
            return True
    return False


def emptiness(q, s, S):
    for t, v in q.facts.items():
        if call(t, "is_empty") and t[2] == (s,):
            return v[1]
        at0 = strs.lin(t) == P(0, COLON)
        if at0 and v[0] == "c":
            return v[1] == 0
        if t[0] == "not" and strs.lin(t[1]) == P(0, COLON) and 0 in v:
            return False
        if t[0] == "bin" and t[1] in ("Eq", "Ne") and v[0] == "c":
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if x == ("c", 0) and (call(y, "len") and y[2] == (s,) or strs.lin(y) == P(0, COLON)):
                    return v[1] == (t[1] == "Eq")
                if x == ("c", "") and y == s:
                    return v[1] == (t[1] == "Eq")
    return None


def nonempty(q, s, S):
    return emptiness(q, s, S) is False


def isempty(q, s, S):
    return emptiness(q, s, S) is True


def signed(q, S):
    """whether the path knows the number to begin with a sign"""
    first = ("str", S, VAL, P(2, COLON))
    known = {}
    for t, v in q.facts.items():
        if t[0] == "bin" and t[1] in ("Eq", "Ne") and v[0] == "c":
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if x[0] == "c" and (y == first or y[0] == "at" and strs.lin(y[2]) == VAL):
                    known[{43: "+", 45: "-"}.get(x[1], x[1])] = v[1] == (t[1] == "Eq")
        if call(t, "starts_with") and t[2][0][0] == "str" and t[2][0][1:3] == (S, VAL) and t[2][1][0] == "c":
            known[t[2][1][1]] = v[1]
        if t[0] == "not" and t[1][0] == "at" and strs.lin(t[1][2]) == VAL and isinstance(v, frozenset):
            for x in v:
                known[{43: "+", 45: "-"}.get(x, x)] = False
    if known.get("+") or known.get("-"):
        return True
    if known.get("+") is False and known.get("-") is False:
        return False
    return None


def point(cx, q, inst, d, k, name, val, rate, S, fl):
    cx.ob("point", inst + " name", d.get("name") == name, "a point does not have the name on its line")
    cx.ob("point", inst + " time", is_now(d.get("timestamp", ("c", 0))), "a point does not have the time it arrived")
    v = d.get("value")
    if rate:
        inv = ("bin", "Div", ("c", 1.0), rate)
        ok = v in (("bin", "Mul", inv, val), ("bin", "Mul", val, inv), ("bin", "Div", val, rate))
    else:
        ok = v == val
    cx.ob("point", inst + " value", ok, "a point's value is not the number on its line, over the sample rate if there is one")
    kind = d.get("kind")
    kind = kind[1] if kind and kind[0] == "agg" else None
    cx.ob("point", inst + " persists", is_const(d.get("persist", ()), k[0] == "g"), "a %s" % ("gauge does not persist" if k[0] == "g" else "point persists though it is no gauge"))
    err = d.get("error")
    bounds = d.get("bounds")
    masks = ("fld", CONF, "histogram_masks")
    if k[0] == "g":
        s = signed(q, S)
        cx.ob("kind", inst, s is not None and kind == ("Sum" if s else "Set"), "a gauge is not set by a number without sign, and changed by one with")
        cx.ob("kind", inst + " plain", err is None and bounds is None, "a gauge has an error bound or bins")
    elif k[0] == "c":
        cx.ob("kind", inst, kind == "Sum" and err is None and bounds is None, "a counter is not summed")
    elif kind == "Histogram":
        e = ("elem", masks)
        cx.ob("kind", inst, matches(q, e, name) is True and bounds == ("fld", e, "1") and err is None, "a timing becomes a histogram though no mask matched, or with bins that are not its mask's")
    else:
        over = [v for t, v in q.facts.items() if call(t, "next") and t[2] == (masks,)]
        cx.ob("kind", inst, kind == "Summarize" and over == [("v", "None")] and err == ("fld", CONF, "summarize_error_bound") and bounds is None, "a timing no mask matches is not summarized with the configured error bound")
    cx.ob("point", inst + " only", set(d) <= {"name", "timestamp", "value", "kind", "persist", "error", "bounds"}, "something else of a point is set")
    return kind


def packets(cx, ty):
    ps = [p for p in cx.prog.bodies if p.endswith("Statsd::handle_datagrams")]
    if not cx.ob("packets", "handler", len(ps) == 1, "the handler of datagrams was not found"):
        return
    fl = cx.flow(ps[0], opaque=(r"parse_statsd$", r"^util::send$"))
    recv = [c for c in fl.calls if last(c) == "recv_from" or last(c) == "recv"]
    parse = [c for c in fl.calls if last(c) == "parse_statsd"]
    if not cx.ob("packets", "sites", len(recv) == 1 and len(parse) == 1, "datagrams are not received and parsed in one place"):
        return
    rb, pc = recv[0].blk, parse[0]
    pts = pc.args[1]
    src = lambda it: src(it[2]) if it[0] == "iterop" and it[1] == "map" else it
    drains = [L for L in loops(fl) if has(L.it, pts) or L.over(pts)]
    first = trace(fl, stops=[rb])
    cx.ob("packets", "begin", bool(first) and all(q.end == rb and not sends(q) for q in first), "datagrams are not received from the beginning on")
    seen = set()
    for i, q in enumerate(trace(fl, [(rb, s) for s in succs(fl, [rb])], [rb])):
        inst = "#%d" % i
        got = q.facts.get(recv[0].dest)
        parsed = [c for c in q.calls if c.blk == pc.blk]
        if got == ("v", "Err"):
            e = inside(recv[0].dest, "Err")
            drained = errkind(q, e, "WouldBlock")
            seen.add("drained" if drained else "broken")
            ok = q.end in fl.ret_blocks and q.ret[0] == "agg" and q.ret[1] == ("Ok" if drained else "Err") or errkind(q, e, "Interrupted") and q.end == rb
            cx.ob("packets", inst + " nothing more", ok and not parsed and not sends(q) and drained is not None, "receiving does not end when, and only when, there is nothing more or the socket broke")
            continue
        if not cx.ob("packets", inst, got == ("v", "Ok") and q.end == rb, "after a datagram the next is not received"):
            continue
        text = [(t, v) for t, v in q.facts.items() if call(t, "from_utf8")]
        buf, n = recv[0].args[1], ("fld", inside(recv[0].dest, "Ok"), "0")
        ok = len(text) == 1 and upto(fl, q, text[0][0][2][0], buf, n)
        if not cx.ob("packets", inst + " text", ok, "what is parsed is not the datagram received"):
            continue
        if text[0][1] == ("v", "Err"):
            seen.add("no text")
            cx.ob("packets", inst + " no text", not parsed and not sends(q), "a datagram that is no text has an effect")
            continue
        good = q.facts.get(pc.dest)
        ok = len(parsed) == 1 and parsed[0].args[0] == inside(text[0][0], "Ok") and parsed[0].args[1] == pts and good is not None
        if not cx.ob("packets", inst + " parsed", ok, "a datagram is not parsed once, or its verdict not looked at"):
            continue
        at_ = q.calls.index(parsed[0])
        if good == ("c", True):
            seen.add("good")
            ok = [L for L in drains if L.complete() and set(L.next) & set(q.blocks) and all(q.blocks.index(b) > q.blocks.index(pc.blk) for b in L.next if b in q.blocks)]
            cx.ob("packets", inst + " sent", len(ok) == 1 and (call(src(ok[0].it), "drain") or fresh(fl, q, pts, rb)) and not [c for c in sends(q)], "what a good packet holds is not sent, each point once")
            for j, b in enumerate(ok[0].body(stops=[rb]) if len(ok) == 1 else ()):
                if b.end in ok[0].next:
                    ss = sends(b)
                    ev = ss[0].args[1] if len(ss) == 1 else ("c", 0)
                    cx.ob("packets", inst + " sent each", ev[0] == "agg" and ev[1] == "Telemetry" and ev[2][0][1] == fl.elem(src(ok[0].it)), "a point is not sent once and as it is")
            if ok:
                cx.ob("packets", inst + " all", whole(fl, src(ok[0].it), pts) or call(src(ok[0].it), "drain") and src(ok[0].it)[2][0] == pts and full(fl, q, pts), "not every point of a good packet is sent, in order")
        else:
            seen.add("bad")
            wiped = [c for c in q.calls[at_ + 1:] if last(c) in ("clear",) and c.args[0] == pts] or fresh(fl, q, pts, rb)
            cx.ob("packets", inst + " dropped", bool(wiped) and not sends(q), "points of a bad packet are sent, with it or with the next")
    cx.ob("packets", "outcomes", seen == {"drained", "broken", "no text", "good", "bad"}, "of what can happen to a datagram, only %s has a case" % sorted(seen))


def fresh(fl, q, pts, rb):
    """the points of a packet are collected anew for each packet"""
    return call(pts, "new", "with_capacity") and len(pts) > 3 and pts[3] in q.blocks


def full(fl, q, pts):
    ds = [c for c in q.calls if last(c) == "drain" and c.args[0] == pts]
    return len(ds) == 1 and (ds[0].args[1:] == [] or ds[0].args[1][0] in ("agg", "c", "undef", "const") and not (ds[0].args[1][0] == "agg" and ds[0].args[1][2]))


def upto(fl, q, t, buf, n):
    """t is what buf holds up to n"""
    if call(t, "index", "get_unchecked", "split_at") or t[0] == "slice":
        for c in q.calls:
            if c.dest == t or last(c) in ("index", "index_mut") and c.args[0] == buf:
                r = c.args[1]
                d = dict(r[2]) if r[0] == "agg" else {}
                return set(d) <= {"start", "end"} and d.get("end") == n and is_const(d.get("start", ("c", 0)), 0) and c.args[0] == buf
    return False


def sends(q):
    return [c for c in q.calls if last(c) == "send" and "util" in c.path]
