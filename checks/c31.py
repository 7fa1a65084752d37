"""The Elasticsearch sink.  What is put into the buffer, what a bulk request is made of,
and what an item of the response does to the buffer are followed path by path through
deliver_line and flush, and compared with the rules of bulk delivery."""
from rules import *

ME = ("arg", 1)
F = lambda n: ("fld", ME, n)
BUF = F("buffer")
LINE = ("elem", BUF)
of = lambda *ns: __import__("functools").reduce(lambda t, n: ("fld", t, n), ns, LINE)


def last(c):
    return (c if isinstance(c, str) else c.path).rsplit("::", 1)[-1]


def call(t, *names):
    return isinstance(t, tuple) and len(t) > 2 and t[0] == "call" and last(t[1]) in names


def inside(t, v):
    return ("fld", ("var", t, v), "0")


def has(t, x):
    return t == x or isinstance(t, tuple) and any(has(y, x) for y in t if isinstance(y, tuple))


CHANGES = {"push", "remove", "swap_remove", "clear", "pop", "truncate", "drain", "insert", "retain", "append", "extend", "split_off", "swap", "replace", "take", "dedup_by", "dedup_by_key", "sort", "reverse", "resize", "set_len", "drain_filter", "split_at_mut", "iter_mut", "first_mut", "last_mut", "fill", "rotate_left", "rotate_right"}


def changes(q):
    """what a path does to the buffer"""
    cs = [c for c in q.calls if last(c) in CHANGES and c.args and has(c.args[0], BUF) and not call(c.args[0], "new_v4")]
    cs += [c for c in q.calls if last(c) in ("swap", "append") and len(c.args) > 1 and has(c.args[1], BUF)]
    ws = [w for w in q.writes if has(w.root, BUF) or w.root == ME and w.proj[:1] == (("f", "buffer"),) or entry(q, w.root) is not None]
    return cs, ws


def entry(q, t):
    """the index of a buffer entry that t is a view of"""
    if t == LINE:
        return t
    t = inside(t[1][1], "Some") and t[1][1] if isinstance(t, tuple) and t[0] == "fld" and t[2] == "0" and t[1][0] == "var" else t
    if call(t, "index", "index_mut", "get", "get_mut", "get_unchecked"):
        for c in q.calls:
            if c.dest == t and c.args[0] == BUF:
                return c.args[1]
    return None


def run(cx):
    ty = "^sink::elasticsearch::Elasticsearch$"
    m = lambda n: cx.method("sink::Sink", ty, n)
    # buffering
    fl = cx.flow(m("deliver_line"))
    qs = trace(fl)
    cx.ob("followed", "deliver_line", bool(qs), "delivery could not be followed")
    for i, q in enumerate(qs):
        cs, ws = changes(q)
        ok = len(cs) == 1 and last(cs[0]) == "push" and not ws and cs[0].args[1][0] == "agg"
        if cx.ob("buffered", "#%d" % i, ok, "a line delivered is not put into the buffer once"):
            f = dict(cs[0].args[1][2])
            cx.ob("buffered", "#%d line" % i, f.get("line") == ("arg", 2), "what is buffered is not the line as it came")
            cx.ob("buffered", "#%d id" % i, call(f.get("uuid"), "new_v4"), "a line has no identifier of its own")
            cx.ob("buffered", "#%d attempts" % i, is_const(f.get("attempts", ()), 0), "a line does not begin without attempts")
    # the hour and day of a line
    fl = cx.flow("time::datetime")
    good = lambda t: any(isinstance(c, tuple) for c in [t]) and has(t, ("arg", 1)) and t == inside(core(t), "Some") and call(core(t), "from_timestamp_opt") and core(t)[2] == (("arg", 1), ("c", 0))
    qs = trace(fl)
    inr = [q for q in qs if any(call(t, "from_timestamp_opt") and v == ("v", "Some") for t, v in q.facts.items())]
    cx.ob("date", "of a time", bool(inr) and all(good(q.ret) for q in inr), "a time that can be shown is not shown as it is")
    flushing(cx, m("flush"))


def core(t):
    return t[1][1] if t[0] == "fld" and t[2] == "0" and t[1][0] == "var" else t


def flushing(cx, p):
    fl = cx.flow(p, opaque=(r"^time::datetime$", r"LogLine::tags$", r"TagIter"))
    ls = loops(fl)
    qs = trace(fl)
    if not cx.ob("followed", "flush", bool(qs), "the paths of a flush could not be followed"):
        return
    send = [c for c in fl.calls if last(c) == "send" and "RequestBuilder" in c.path]
    req = [c for c in fl.calls if last(c) == "new" and "BulkRequest" in c.path]
    if not cx.ob("one-request", "flush", len(send) == 1 and len(req) == 1 and has(send[0].args[0], req[0].dest), "a flush does not make one request of the bulk body"):
        return
    body = req[0].args[-1]
    answer = [c for c in fl.calls if last(c) == "into_response"]
    cx.ob("one-request", "answer", len(answer) == 1 and answer[0].args[0] == inside(send[0].dest, "Ok"), "the answer is not that of the request")
    for i, q in enumerate(qs):
        cs, ws = changes(q)
        sent = [c for c in q.calls if c.blk == send[0].blk]
        cx.ob("kept", "#%d" % i, not cs and not ws, "a flush changes the buffer although no item of a response says so", at(fl, (cs or ws)[0].blk) if cs or ws else None)
        e = empty(q)
        cx.ob("sent", "#%d" % i, (not sent) if e else len(sent) == 1, "something buffered is not sent" if not e else "a request is made although nothing is buffered")
    # the two loops
    over = [L for L in ls if L.over(BUF) and any(touches(q, body) for q in L.body())]
    items = [L for L in ls if answer and call(L.it, "iter", "into_iter") and has(L.it, inside(answer[0].dest, "Ok"))]
    cx.ob("loops", "body", len(over) == 1 and over[0].complete(), "the request is not made from every line buffered, once")
    cx.ob("loops", "items", len(items) == 1 and items[0].complete(), "not every item of a response is looked at")
    for L in over[:1]:
        inner = [x for x in ls if x is not L and set(x.next) & L_blocks(fl, L)]
        documents(cx, fl, L, inner, body)
        late = reach(fl, L_blocks(fl, L)) if L_blocks(fl, L) else ()
        cx.ob("loops", "order", req[0].blk in late, "the request is made before its body")
    for L in items[:1]:
        for i, q in enumerate(L.body()):
            item(cx, q, "item #%d" % i, L)
    for L in ls:
        if L not in items[:1]:
            for q in [q for q in L.body(items[0].next if items else ()) if q.end in L.next]:
                cs, ws = changes(q)
                cx.ob("kept", "other loop", not cs and not ws, "a loop changes the buffer", at(fl, L.next[0]))


def L_blocks(fl, L):
    return set().union(*[set(q.blocks) for q in L.body()]) if L.body() else set()


def touches(q, s):
    return [c for c in q.calls if c.args and c.args[0] == s and last(c) in ("push_str", "push", "write_str", "write_fmt", "extend", "add_assign", "insert_str", "insert", "clear", "truncate", "pop", "write_char")]


def empty(q):
    for t, v in q.facts.items():
        if call(t, "is_empty") and t[2] == (BUF,):
            return v == ("c", True)
        if t[0] == "bin" and has(t, BUF) and v[0] == "c":
            ln = [x for x in (t[2], t[3]) if call(x, "len") and x[2] == (BUF,)]
            if ln:
                env = lambda n: (lambda x: n if x == ln[0] else None)
                try:
                    if evalt(t, env(0)) == v[1] and evalt(t, env(1)) != v[1] and evalt(t, env(7)) != v[1]:
                        return True
                except (Unknown, Overflow):
                    pass
    return False


def val(t):
    """a JSON value, without what makes it one"""
    while True:
        if t[0] == "fld" and t[2] == "0" and t[1][0] == "var" and t[1][2] == "Ok" and call(t[1][1], "to_value"):
            t = t[1][1][2][0]
        elif t[0] == "agg" and t[1] == "String" and len(t[2]) == 1:
            t = t[2][0][1]
        elif call(t, "to_string") and len(t[2]) == 1:
            t = t[2][0]
        elif call(t, "hyphenated", "to_hyphenated") and len(t[2]) == 1:
            t = t[2][0]
        else:
            return t


def maps(t, out=None):
    """the maps a JSON value is made of, as the term names them"""
    out = [] if out is None else out
    if call(t, "new", "with_capacity") and "Map" in t[1]:
        out.append(t)
    elif isinstance(t, tuple):
        for y in t:
            if isinstance(y, tuple):
                maps(y, out)
    return out


def documents(cx, fl, L, inner, body):
    n = 0
    for i, q in enumerate(L.body()):
        inst = "line #%d" % i
        parts = []
        for c in touches(q, body):
            if last(c) in ("push_str", "push", "add_assign", "write_str", "write_char", "extend"):
                parts.append(c.args[1])
            else:
                ps = weave_of(c.args[1]) if last(c) == "write_fmt" else None
                parts += ps if ps is not None else [None]
        docs = []
        ok = len(parts) == 4 and all(p is not None for p in parts)
        if ok:
            for a in (0, 2):
                p = parts[a]
                p = core(p) if p[0] == "fld" and p[1][0] == "var" and p[1][2] == "Ok" else p
                ms = maps(p) if call(p, "to_string") else []
                ok = ok and len(ms) == 1 and (is_const(parts[a + 1], "\n") or is_const(parts[a + 1], 10))
                docs += ms[:1]
        if not cx.ob("lines", inst, ok and len(docs) == 2 and docs[0] != docs[1], "a buffered line is not turned into a header and a document, each ended by a newline"):
            continue
        n += 1
        head, doc = (entries(q, d) for d in docs)
        h = head.get("index", [()])
        hm = maps(h[0]) if h[0] else []
        if cx.ob("header", inst, set(head) == {"index"} and len(h) == 1 and len(hm) == 1, "the header is not that of an index action"):
            hd = entries(q, hm[0])
            one = lambda d, k: val(d[k][0]) if len(d.get(k, ())) == 1 else ()
            cx.ob("header", inst + " id", one(hd, "_id") == of("uuid"), "the header does not name the line's identifier")
            cx.ob("header", inst + " type", one(hd, "_type") == F("index_type"), "the header does not name the configured type")
            ix = pieces(one(hd, "_index") or ("c", 0))
            pre = q.facts.get(F("index_prefix"))
            want = [(inside(F("index_prefix"), "Some"), "Display"), "-"] if pre == ("v", "Some") else [] if pre == ("v", "None") else None
            cx.ob("header", inst + " index", ix is not None and want is not None and ix[:-1] == want and shown(ix[-1], "%Y-%m-%d"), "the index is not that of the line's prefix and day")
            cx.ob("header", inst + " only", set(hd) <= {"_id", "_type", "_index", "routing", "pipeline", "version"}, "the header holds something else")
        cx.ob("document", inst + " id", one(doc, "uuid") == of("uuid"), "the document does not name the line's identifier")
        cx.ob("document", inst + " path", one(doc, "path") == of("line", "path"), "the document does not name the line's path")
        cx.ob("document", inst + " payload", one(doc, "payload") == of("line", "value"), "the document does not hold the line's text")
        ts = pieces(one(doc, "timestamp") or ("c", 0))
        cx.ob("document", inst + " time", ts is not None and len(ts) == 1 and shown(ts[0], "%+"), "the document does not hold the line's time")
        cx.ob("document", inst + " nothing lost", not [c for c in q.calls if last(c) in ("remove", "clear", "retain", "remove_entry") and c.args and docs[1] in maps(c.args[0])], "something is taken out of the document")
        # tags and fields, by loops of their own
        tags = [x for x in inner if x.complete() and any(call(t, "tags") and t[2] == (of("line"), F("tags")) for t in chained(x.it))]
        fields = [x for x in inner if x.complete() and any(whole(x.fl, t, of("line", "fields")) for t in chained(x.it))]
        for what, xs in (("tags", tags), ("fields", fields)):
            good = len(xs) == 1
            for b in xs[0].body() if good else ():
                ins = [c for c in b.calls if last(c) == "insert" and docs[1] in maps(c.args[0])]
                k, v = ("fld", xs[0].elem, "0"), ("fld", xs[0].elem, "1")
                good = good and len(ins) == 1 and ins[0].args[1] == k and val(ins[0].args[2]) == v
            ser = [c.blk for c in q.calls if last(c) == "to_string" and docs[1] in maps(c.args[0])]
            good = good and ser and set(xs[0].next) & set(q.blocks) and min(q.blocks.index(b) for b in xs[0].next if b in q.blocks) < min(q.blocks.index(b) for b in ser)
            cx.ob("document", inst + " " + what, good, "the document does not hold every one of the line's %s, as it is" % what)
    cx.floor("ways to write a line", n, 2)


def chained(t):
    """what is iterated, one after another"""
    return [y for x in t[2] for y in chained(x)] if call(t, "chain") else [t]


def weave_of(a):
    if a[0] == "call" and last(a[1]) == "new_v1" and a[2][0][0] == "arr" and a[2][1][0] == "arr":
        ps = weave(a[2][0][1], a[2][1][1])
        if ps is None:
            return None
        out = []
        for p in ps:
            if isinstance(p, str):
                out += [("c", p)] if p != "\n" else [("c", "\n")]
            else:
                out.append(p[0])
        return out
    return None


def entries(q, m):
    d = {}
    for c in q.calls:
        if last(c) == "insert" and len(c.args) == 3 and m in top_maps(c.args[0]):
            k = c.args[1]
            d.setdefault(k[1] if k[0] == "c" else k, []).append(c.args[2])
    return d


def top_maps(t):
    return [t] if call(t, "new", "with_capacity") else maps(t)[:1]


def shown(p, how):
    """(term, trait) shows the line's time in the given way"""
    if isinstance(p, str) or p[1] != "Display" or not call(p[0], "format") or len(p[0][2]) != 2 or not is_const(p[0][2][1], how):
        return False
    d = p[0][2][0]
    return call(d, "from_utc") and call(d[2][0], "datetime") and d[2][0][2] == (of("line", "time"),)


def item(cx, q, inst, L):
    it = L.elem
    v = q.facts.get(it)
    cs, ws = changes(q)
    if not cx.ob("item", inst, v in (("v", "Ok"), ("v", "Err")), "whether an item was accepted is not looked at"):
        return
    ident = inside(it, v[1])
    # is there a line the item is about, on this path
    found, idx = None, None
    for t, x in q.facts.items():
        if t[0] == "iterop" and t[1] in ("position", "find", "any") and t[2] == BUF:
            ok = t[3][0] == "bin" and t[3][1] == "Eq" and (named(t[3][2], of("uuid"), t[3][3], ident) or named(t[3][3], of("uuid"), t[3][2], ident))
            if cx.ob("item", inst + " line", ok, "the line an item is about is not told by the identifier they share") and t[1] == "position":
                found = x == ("v", "Some")
                idx = inside(t, "Some")
        elif t[0] == "bin" and t[1] == "Eq" and (named(t[2], of("uuid"), t[3], ident) or named(t[3], of("uuid"), t[2], ident)):
            if x == ("c", True):
                found, idx = True, ("idx", BUF)
        elif call(t, "next") and call(t[2][0], "enumerate") and t[2][0][2] == (BUF,) and found is None:
            found = False if x == ("v", "None") else None
    if found is None:
        bad = [t for t, x in q.facts.items() if call(t, "parse_str") and x == ("v", "Err")]
        keeps = [c for c in cs if last(c) == "retain"]
        if keeps and v[1] == "Ok" and len(cs) == 1 and not ws:
            r = [t for t in (keeps[0].args[1:] or ())]
            cx.ob("item", inst + " accepted", False, "what is kept when an item was accepted cannot be told")
            return
        if cx.ob("item", inst + " unknown", bool(bad), "the line an item is about is not looked for"):
            cx.ob("item", inst + " unknown", not cs and not ws, "an item about no line changes the buffer")
        return
    if not found:
        cx.ob("item", inst + " unknown", not cs and not ws, "an item about no line changes the buffer")
        return
    gone = [c for c in cs if last(c) in ("remove", "swap_remove") and c.args[0] == BUF and c.args[1] == idx]
    cx.ob("item", inst + " only that line", len(gone) == len(cs) and len(gone) <= 1, "an item changes other lines than the one it is about")
    if v[1] == "Ok":
        cx.ob("item", inst + " accepted", len(gone) == 1, "a line the peer accepted stays in the buffer")
        cx.ob("item", inst + " accepted once", not ws, "a line that was accepted is changed")
        return
    ws = [w for w in ws]
    w = ws[0] if len(ws) == 1 else None
    ok = w is not None and entry(q, w.root) == idx and tuple(w.proj) == (("f", "attempts"),) and counted(q, w.val, idx)
    if not cx.ob("item", inst + " attempts", ok, "a refusal is not counted, once, for the line refused"):
        return
    # decided: gone iff attempts so counted exceed the limit
    for a in (0, 1, 2, 3, 254, 255):
        for lim in (0, 1, 2, 3, 254, 255):
            if lim < 255 and could(q, lambda t: model(q, t, w, idx, a, lim), "u8"):
                cx.ob("item", inst + " limit", bool(gone) == (min(a + 1, 255) > lim), "a line refused %d times before, with a limit of %d, is %s" % (a, lim, "dropped" if gone else "kept"))


def model(q, t, w, idx, a, lim):
    if t == F("delivery_attempt_limit"):
        return lim
    if t == w.val:
        return min(a + 1, 255)
    if t[0] == "fld" and t[2] == "attempts" and entry(q, t[1]) == idx:
        # read after the count or before it
        rd = [c for c in q.calls if c.dest == t[1]]
        return min(a + 1, 255) if rd and q.blocks.index(rd[0].blk) > q.blocks.index(w.blk) else a
    return None


def counted(q, t, idx):
    if call(t, "saturating_add") and is_const(t[2][1], 1):
        x = t[2][0]
    else:
        return False
    return x[0] == "fld" and x[2] == "attempts" and entry(q, x[1]) == idx


def named(a, u, b, ident):
    """a is the line's identifier and b the item's, both as identifiers or both as text"""
    if val(a) != u:
        return False
    b = core(b) if call(core(b), "parse_str") else b
    if call(b, "parse_str") and len(b[2]) == 1:
        return a == u and call(b[2][0], "id") and b[2][0][2] == (ident,)
    return a != u and call(b, "id") and b[2] == (ident,)
