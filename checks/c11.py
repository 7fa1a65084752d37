"""The Graphite protocol.  Parsing a line is followed path by path, the words it takes told
apart by where they are drawn; the source's handler is followed from one reading to the
next."""
from rules import *
import strs

SRC, RES, TEMPLATE = ("arg", 1), ("arg", 2), ("arg", 3)


def last(c):
    return (c if isinstance(c, str) else c.path).rsplit("::", 1)[-1]


def call(t, *names):
    return isinstance(t, tuple) and len(t) > 2 and t[0] == "call" and last(t[1]) in names


def inside(t, v):
    return ("fld", ("var", t, v), "0")


def has(t, x):
    return t == x or isinstance(t, tuple) and any(has(y, x) for y in t if isinstance(y, tuple))


def run(cx):
    parsing(cx)
    lines(cx)


def parsing(cx):
    fl = cx.flow("protocols::graphite::parse_graphite", opaque=(r"SoftTelemetry::", r"Telemetry::thaw"), models=dict(list(strs.MODELS.items()) + list(strs.SOFT.items())), key="c11")
    draws = [c for c in fl.calls if last(c) == "next" and call(c.args[0], "split_whitespace", "split_ascii_whitespace") and c.args[0][2] == (SRC,)]
    others = [c for c in fl.calls if last(c) in ("next", "nth", "last", "skip", "nth_back", "next_back", "peek") and c not in draws]
    if not cx.ob("words", "draws", len({c.blk for c in draws}) == 3 and not others and len({c.args[0] for c in draws}) == 1, "a line is not taken apart into words, three at a time"):
        return
    # the first draw of a triple: reached from the entry without another
    head = [c for c in draws if c.blk in reach(fl, [0], avoid=[d.blk for d in draws if d is not c])]
    if not cx.ob("words", "first", len(head) == 1, "the words of a line are not taken in a fixed order"):
        return
    hb = head[0].blk
    it = head[0].args[0]
    word = lambda c: ("elem", it, c.blk)
    lead = trace(fl, stops=[hb])
    cx.ob("verdict", "begin", bool(lead) and all(q.end == hb and not touch(q) for q in lead), "a line is judged before its words are looked at")
    n = 0
    for i, q in enumerate(trace(fl, [(hb, s) for s in succs(fl, [hb])], [hb])):
        inst = "#%d" % i
        order = [c for b in (hb,) + tuple(q.blocks) for c in draws if c.blk == b and (b == hb) + 1][:0]
        seq = []
        for b in [hb] + [b for b in q.blocks if b != hb]:
            seq += [c for c in draws if c.blk == b]
        got = [q.facts.get(c.dest) for c in seq]
        if q.end == hb:
            n += 1
            p = [c for c in touch(q)]
            ok = got == [("v", "Some")] * 3 and len(p) == 1 and last(p[0]) == "push"
            if not cx.ob("accepts", inst, ok, "three words do not make one point"):
                continue
            name, val, time = (word(c) for c in seq)
            num, tim = ("call", "parse_f64", (val,), None), ("call", "parse_i64", (time,), None)
            cx.ob("accepts", inst + " numbers", parsed(q, num) == ("v", "Ok") and parsed(q, tim) == ("v", "Ok"), "a point is made of words that are no numbers")
            h = p[0].args[1]
            h = h[0] == "fld" and h[1][0] == "var" and call(h[1][1], "harden") and h[1][1][2][0]
            if not cx.ob("point", inst, bool(h) and h[0] == "soft" and has(h[1], TEMPLATE), "what is made of three words is no point"):
                continue
            d = dict(h[2])
            cx.ob("point", inst + " name", d.get("name") == name, "a point is not named by its first word")
            cx.ob("point", inst + " value", alike(d.get("value"), num), "a point's value is not its second word")
            cx.ob("point", inst + " time", alike(d.get("timestamp"), tim), "a point's time is not its third word")
            cx.ob("point", inst + " kind", d.get("kind") == ("agg", "Set", ()), "a point is not set")
            cx.ob("point", inst + " only", set(d) <= {"name", "value", "timestamp", "kind"}, "something else of a point is set")
            continue
        if not cx.ob("ends", inst, q.end in fl.ret_blocks and not touch(q), "a line ends with more than a verdict"):
            continue
        if got == [("v", "None")]:
            cx.ob("verdict", inst, verdict(q), "whether a line was good is not told by there being points")
            continue
        cx.ob("rejects", inst, q.ret == ("c", False), "a line that is not accepted is not bad")
        why = ("v", "None") in got
        if len(seq) == 3 and got == [("v", "Some")] * 3:
            name, val, time = (word(c) for c in seq)
            why = parsed(q, ("call", "parse_f64", (val,), None)) == ("v", "Err") or parsed(q, ("call", "parse_i64", (time,), None)) == ("v", "Err")
        elif len(seq) == 2 and got == [("v", "Some")] * 2:
            why = parsed(q, ("call", "parse_f64", (word(seq[1]),), None)) == ("v", "Err")
        cx.ob("rejects", inst + " why", why, "a line of whole triples with numbers is rejected")
    cx.floor("ways to accept", n, 1)


def touch(q):
    return [c for c in q.calls if c.args and c.args[0] == RES and last(c) not in ("is_empty", "len", "reserve", "capacity")]


def parsed(q, num):
    for t, v in q.facts.items():
        if t == num or call(t, "parse_f64", "parse_i64", "parse") and t[2] == num[2] and (t[1] == num[1] or last(t[1]) == "parse"):
            return v
    return None


def alike(t, num):
    return t is not None and (t == inside(num, "Ok") or t[0] == "fld" and t[1][0] == "var" and t[1][2] == "Ok" and call(t[1][1], "parse", num[1]) and t[1][1][2] == num[2])


def verdict(q):
    e = [v[1] for t, v in q.facts.items() if call(t, "is_empty") and t[2] == (RES,)]
    if q.ret in (("c", True), ("c", False)):
        return len(e) == 1 and q.ret[1] is (not e[0])
    r = q.ret
    return r[0] in ("not", "un") and call(r[-1], "is_empty") and r[-1][2] == (RES,)


def lines(cx):
    p = cx.method("source::tcp::TCPStreamHandler", r"GraphiteStreamHandler", "handle_stream")
    fl = cx.flow(p, opaque=(r"parse_graphite$", r"^util::send$"))
    rd = [c for c in fl.calls if last(c) in ("read_until", "read_line", "read_to_end", "read", "read_exact")]
    parse = [c for c in fl.calls if last(c) == "parse_graphite"]
    if not cx.ob("lines", "sites", len(rd) == 1 and last(rd[0]) == "read_until" and is_const(rd[0].args[1], 10) and len(parse) == 1, "lines are not read and parsed in one place each"):
        return
    rb, pc = rd[0].blk, parse[0]
    LINE, PTS = rd[0].args[2], pc.args[1]
    kept = call(LINE, "new", "with_capacity")
    cx.ob("lines", "kept", kept and LINE != PTS, "lines are not kept between readings")
    inner = reach(fl, succs(fl, [rb]))
    cx.ob("lines", "kept anew", LINE[3] not in inner if kept and len(LINE) > 3 else False, "an unfinished line is forgotten")
    for c in fl.calls:
        if c.args and c.args[0] == LINE and last(c) not in LOOKS and c.blk in inner:
            # every way to it from a waking passes a reading
            fresh = reach(fl, [s for b in polls_(fl) for s in succs(fl, [b])], avoid=[rb])
            cx.ob("lines", "kept over", c.blk not in fresh, "an unfinished line is dropped when its peer pauses", at(fl, c.blk))
    ls = loops(fl)
    drains = [L for L in ls if has(L.it, PTS)]
    polls = polls_(fl)
    stops = [rb] + polls
    seen = set()
    for i, q in enumerate(trace(fl, [(rb, s) for s in succs(fl, [rb])], stops + [b for L in ls if L not in drains for b in L.next])):
        inst = "#%d" % i
        got = q.facts.get(rd[0].dest)
        ran = [c for c in q.calls if c.blk == pc.blk]
        line = [c for c in q.calls if c.args and c.args[0] == LINE and last(c) not in LOOKS]
        if got == ("v", "Err"):
            e = inside(rd[0].dest, "Err")
            k = errkind(q, e, "WouldBlock")
            seen.add("later" if k else "broken")
            cx.ob("lines", inst + " later", not line and not ran and not sends(q) and k is not None, "when nothing more can be read, something is dropped or sent")
            cx.ob("lines", inst + " goes on", (q.end not in fl.ret_blocks and q.end != rb) if k else q.end in fl.ret_blocks or errkind(q, e, "Interrupted") is True, "a peer is not waited for when it may send more, or not left when it broke")
            continue
        n = inside(rd[0].dest, "Ok")
        zero, some = could(q, lambda t: 0 if t == n else None), [could(q, lambda t: k if t == n else None) for k in (1, 2, 9)]
        if not cx.ob("lines", inst, got == ("v", "Ok") and some == [not zero] * 3, "the end of what a peer sends is not told from a line"):
            continue
        if zero:
            seen.add("end")
            cx.ob("lines", inst + " end", q.end in fl.ret_blocks, "a peer that has gone is not left")
            continue
        if not cx.ob("lines", inst + " next", q.end == rb, "after a line the next is not read"):
            continue
        text = [(t, v) for t, v in q.facts.items() if call(t, "from_utf8", "from_utf8_lossy")]
        cx.ob("lines", inst + " text", len(text) == 1 and text[0][0][2] == (LINE,), "what is parsed is not the line read")
        cleared = [c for c in line if last(c) == "clear"]
        at_ = q.calls.index(ran[0]) if ran else 0
        cx.ob("lines", inst + " once", len(cleared) == len(line) == 1 and q.calls.index(cleared[0]) >= at_, "a line is parsed again with the next, or changed before it is parsed")
        good = q.facts.get(pc.dest) if ran else None
        if text and text[0][1] == ("v", "Err"):
            seen.add("no text")
            cx.ob("lines", inst + " no text", not ran and not sends(q), "a line that is no text is parsed, or something sent")
            continue
        if not cx.ob("lines", inst + " parsed", len(ran) == 1 and text and ran[0].args[0] == inside(text[0][0], "Ok") and good is not None, "a line is not parsed once, or its verdict not looked at"):
            continue
        if good == ("c", True):
            seen.add("good")
            ok = [L for L in drains if L.complete() and set(L.next) & set(q.blocks)]
            if cx.ob("lines", inst + " sent", len(ok) == 1 and not sends(q), "what a good line holds is not sent, each point once"):
                src = ok[0].it
                while src[0] == "iterop" and src[1] == "map":
                    src = src[2]
                plain = whole(fl, src, PTS) and (call(src, "drain") or [c for c in q.calls if last(c) in ("clear", "replace", "take") and c.args[0] == PTS])
                cx.ob("lines", inst + " all", plain, "not every point of a line is sent, in order, once")
                for b in ok[0].body(stops=[rb]):
                    if b.end in ok[0].next:
                        ss = sends(b)
                        ev = ss[0].args[1] if len(ss) == 1 else ("c", 0)
                        cx.ob("lines", inst + " sent each", ev[0] == "agg" and ev[1] == "Telemetry" and ev[2][0][1] == fl.elem(src), "a point is not sent once and as it is")
        else:
            seen.add("bad")
            cx.ob("lines", inst + " dropped", not sends(q) and [c for c in q.calls[at_:] if last(c) == "clear" and c.args[0] == PTS], "points of a bad line are sent, with it or with the next")
    cx.ob("lines", "outcomes", seen == {"later", "broken", "end", "no text", "good", "bad"}, "of what can happen in reading, only %s has a case" % sorted(seen))
    early = [c for c in fl.calls if last(c) == "send" and "util" in c.path and c.blk not in reach(fl, succs(fl, [pc.blk]))]
    cx.ob("lines", "nothing else", not early, "something is sent that was not read", at(fl, early[0].blk) if early else None)


LOOKS = ("len", "is_empty", "as_slice", "iter", "last", "as_ref", "deref", "from_utf8", "from_utf8_lossy", "clone", "to_vec", "ends_with", "index", "capacity", "reserve")


def polls_(fl):
    return [c.blk for c in fl.calls if last(c) == "poll" and "Poll" in c.path]


def sends(q):
    return [c for c in q.calls if last(c) == "send" and "util" in c.path]
