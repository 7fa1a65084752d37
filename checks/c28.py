"""What a scrape of Prometheus reads: the text written for each kind of metric, gathered
path by path with loops collapsed to what one round writes, is the exposition of it."""
from rules import *
from text import Text, norm, render, failed
import text

PR = "sink::prometheus::"
AGGRS, DEFAULT = ("arg", 1), ("arg", 2)
OUT = ("arg", 3)
TEL = (r"^metric::", r"^<metric::", r"^time::", r"^sink::prometheus::sanitize$", r"^<sink::prometheus::Iter")
ESC = {"\\": "\\\\", '"': '\\"', "\n": "\\n"}
QS = (0.0, 1.0, 0.25, 0.5, 0.75, 0.90, 0.95, 0.99, 0.999)
TYPES = {"Sum": "counter", "Set": "gauge", "Histogram": "histogram", "Summarize": "summary"}


def last(p):
    return p.rsplit("::", 1)[-1]


def call(t, *names):
    return isinstance(t, tuple) and len(t) > 2 and t[0] == "call" and last(t[1]) in names


def run(cx):
    written(cx)
    sanitized(cx)
    answered(cx)


def fetch(t, head, n=1):
    return isinstance(t, tuple) and len(t) == 3 and t[0] == "call" and t[1] == head and len(t[2]) == n


def written(cx):
    if not cx.ob("site", "write_text", PR + "write_text" in cx.prog.bodies, "the exposition's code is not found"):
        return
    fl = cx.flow(PR + "write_text", opaque=TEL)
    T = Text(fl, OUT)
    outer = [L for L in T.loops if whole(fl, L.it, AGGRS)]
    if not cx.ob("site", "loop", len(outer) == 1, "the loop over what is reported is not found"):
        return
    L = outer[0]
    E = norm(L.elem)
    ps = T.paths(L.some, tuple(L.next))
    if not cx.ob("site", "paths", bool(ps) and not T.bad, "what is written is not understood: %s" % (T.bad[:1],)):
        return
    NAME = ("call", "sanitize", (("fld", E, "name"),))
    TAGS = ("call", "tags", (E, DEFAULT))
    cum = {}

    def cumulative(t, B):
        """the sum of the counts up to and including this bin's"""
        if t not in cum:
            cum[t] = False
            if t[0] == "bin" and t[1] == "Add":
                for a, b in ((t[2], t[3]), (t[3], t[2])):
                    if a == ("fld", B, "1") and b[0] == "phi":
                        ins = {norm(v) for _, v, _ in phi_ins(fl, b)}
                        ins = {text.subst(v, ("fld", norm(bins_elem), "1"), a) for v in ins}
                        cum[t] = ins == {("c", 0), t} or ins == {("c", 0), ("bin", "Add", b, a)} or ins == {("c", 0), ("bin", "Add", a, b)}
        return cum[t]

    bl = [M for M in T.loops if call(M.it, "bins") or M.it[0] == "fld" and "bins" in repr(M.it)[:60]]
    bins_elem = bl[0].elem if len(bl) == 1 else ("?",)

    def label(t):
        if t == NAME:
            return "name"
        if t == ("fld", ("var", ("call", "sum", (E,)), "Some"), "0"):
            return "sum"
        if t == ("fld", ("var", ("call", "set", (E,)), "Some"), "0"):
            return "set"
        if t == ("fld", ("var", ("call", "samples_sum", (E,)), "Some"), "0"):
            return "samples_sum"
        if t in (("cast", "f64", ("call", "count", (E,))), ("call", "count", (E,))):
            return "count"
        if t[0] == "in":
            s = t[1]
            return "tags" if s == TAGS else "bins" if s == BINS else "quantiles" if quantiles(s) else None
        if t[0] == "call" and t[1] == "to_string" and len(t[2]) == 1:
            return label(t[2][0])
        if t[0] == "fld" and t[1] == ("E", TAGS):
            return {"0": "k", "1": "v"}.get(t[2])
        if t[0] == "fld" and t[1] == TE:
            return {"0": "k0", "1": "v0"}.get(t[2])
        if t == ("fld", ("var", ("fld", ("E", BINS), "0"), "Finite"), "0"):
            return "bound"
        if t[0] == "bin" and cumulative(t, ("E", BINS)):
            return "so far"
        if t[0] == "E" and quantiles(t[1]):
            return "q"
        if fetch(t, "query", 2) and t[2][0] == E and t[2][1][0] == "E" and quantiles(t[2][1][1]):
            return "value at q"
        if t[0] == "fld" and t[2] == "0" and t[1][0] == "var" and t[1][2] == "Some" and fetch(t[1][1], "query", 2):
            return label(t[1][1])
        return None

    BINS = ("fld", ("var", ("call", "bins", (E,)), "Some"), "0")
    TE = norm(fl.elem(next((M.it for M in T.loops if norm(M.it) == TAGS), ("?",))))

    def quantiles(s):
        return s[0] == "arr" and all(x[0] == "c" for x in s[1]) and tuple(x[1] for x in s[1]) == QS

    ALL = '(tags: , <k>="<esc v>")*'
    REST = '{<k0>="<esc v0>"' + ALL + "}"

    def le(v):
        return '<name>{le="%s"' % v + ALL + "} <so far>\n"

    heads = set(L.next)
    tl = [M for M in T.loops if norm(M.it) == TAGS]
    some, none = {e for M in tl for e in M.some}, {e for M in tl for e in M.done}
    kinds = set()
    for i, (q, bufs) in enumerate(ps):
        if q.end not in heads:
            cx.ob("all of it", "#%d" % i, failed(q), "the exposition stops before all is written though no write failed", at(fl, q.blocks[-2]))
            continue
        F = {norm(t): v for t, v in q.facts.items()}
        k = F.get(("call", "kind", (E,)))
        if not cx.ob("written", "kind #%d" % i, k is not None and k[0] == "v", "a metric is written without a look at its kind", at(fl, q.blocks[-2])):
            continue
        k = k[1]
        kinds.add(k)
        got = bufs.get(OUT, ())
        where = at(fl, q.blocks[-2])
        txt = render(got, label, ESC).replace("<esc bound>", "<bound>").replace("<esc q>", "<q>").replace("<esc? bound>", "<bound>").replace("<esc? q>", "<q>")
        gone = {"Sum": "sum", "Set": "set", "Histogram": "bins"}.get(k)
        if gone and F.get(("call", gone, (E,))) == ("v", "None"):
            cx.ob("written", "%s of nothing #%d" % (k, i), txt == "", "something is written for no value", where)
            continue
        fresh = None
        for t, v in q.facts.items():
            if call(t, "insert", "contains", "replace") and len(t[2]) == 2 and norm(t[2][1]) == NAME:
                fresh = v[1] is True if last(t[1]) == "insert" else v[1] is False
        if not cx.ob("type", "#%d known" % i, fresh is not None, "whether a name's type was announced is not looked up", where):
            continue
        # the pairs before a loop's rounds: drawn at blocks of their own
        firsts = sum(1 for e in zip(q.blocks, q.blocks[1:]) if e in some)
        cx.ob("written", "%s #%d labels" % (k, i), txt.count("<k0>") == firsts, "a label drawn is not written", where)
        flat = txt.replace(REST, "")
        cx.ob("written", "%s #%d label" % (k, i), "<k0>" not in flat, "labels are not written as {key=\"value\", ...}: %s" % (txt[:200],), where)
        # whether there are any labels is looked at once per sample that is not one of many
        drawn, left = 0, False
        for e in zip(q.blocks, q.blocks[1:]):
            if e in some | none:
                drawn += not left
                left = e in some
        cx.ob("written", "%s #%d labelled" % (k, i), drawn == (1 if k in ("Sum", "Set") else 2), "a sample is written without its labels", where)
        head = "# TYPE <name> %s\n" % TYPES[k] if fresh else ""
        if k in ("Sum", "Set"):
            want = {head + "<name> <%s>\n" % k.lower()}
        else:
            ss = F.get(("call", "samples_sum", (E,)))
            s = "0" if ss == ("v", "None") else "<samples_sum>"
            tail = "<name>_sum %s\n<name>_count <count>\n" % s
            if k == "Histogram":
                want = {head + "(bins: [Finite]%s | [PosInf]%s)*" % (le("<bound>"), le("+Inf")) + tail}
            else:
                want = {head + '(quantiles: <name>{quantile="<q>"' + ALL + "} <value at q>\n)*" + tail}
        cx.ob("written", "%s #%d" % (k, i), flat in want, "a metric is not written as its kind is: %r" % (flat[:300],), where)
    cx.floor("kinds of metrics written", len(kinds), 4)
    seen = {t[2][0] for q, _ in ps for t in q.facts if call(t, "insert", "contains", "replace") and len(t[2]) == 2 and norm(t[2][1]) == NAME}
    body = reach(fl, [s for _, s in L.some], avoid=L.next)
    cx.ob("type", "one set", len(seen) == 1 and not any(c.blk in body and last(c.path) in ("clear", "remove", "drain", "retain", "take") and c.args and c.args[0] in seen for c in fl.calls)
          and not any(c.blk in body and c.dest in seen for c in fl.calls if c.dest is not None), "the names announced are not remembered for the whole scrape")
    out = [q for q in trace(fl, [(b, s) for b, s in L.done]) or () if q.ret is not None]
    for i, q in enumerate(out):
        ok = q.ret[0] == "agg" and (q.ret[1] == "Ok" and q.ret[2] == (("0", OUT),) or q.ret[1] == "Err" and failed(q))
        cx.ob("all of it", "end #%d" % i, ok and not [c for c in q.calls if last(c.path) in text.WRITES and c.args and c.args[0] == OUT], "what was written is not handed back as it is")


def answered(cx):
    """what is written is the answer's body, compressed when asked for, and so labelled"""
    p = "<sink::prometheus::PrometheusHandler as http::Handler>::handle"
    if not cx.ob("site", "handle", p in cx.prog.bodies, "the code that answers a scrape is not found"):
        return
    fl = cx.flow(p, opaque=TEL + ("write_text$", "PrometheusAggr"))
    GZ = ("fld", ("arg", 1), "gzip")
    new = lambda t: call(t, "new", "with_capacity", "default") and "Vec" in t[1] or t[0] == "default"
    ok_ = lambda t: ("fld", ("var", t, "Ok"), "0")

    def text(t):
        while call(t, "deref", "as_slice", "as_ref", "borrow", "clone", "to_vec", "to_owned") or call(t, "index") and (t[2][1] == ("undef",) or t[2][1][0] == "agg" and not t[2][1][2]):
            t = t[2][0]
        return t
    seen = set()
    for i, q in enumerate(trace(fl) or ()):
        if q.end not in fl.ret_blocks:
            continue
        rs = [c for c in q.calls if last(c.path).startswith("respond") and "tiny_http" in c.path]
        ws = [c for c in q.calls if c.path.endswith("write_text")]
        locked = any(call(t, "try_lock", "lock") and v == ("v", "Ok") for t, v in q.facts.items())
        # an empty buffer that is not empty
        if any(call(t, "is_empty") and new(t[2][0]) and v == ("c", False) for t, v in q.facts.items()):
            continue
        inst = "#%d" % i
        if not locked:
            cx.ob("answer", inst + " busy", not ws and len(rs) <= 1, "a scrape answers with what is not there")
            continue
        gz = q.facts.get(GZ)
        ok = len(ws) == 1 and call(ws[0].args[0], "reportable") and ws[0].args[1] == DEFAULT_H and gz is not None
        if not cx.ob("answer", inst + " written", ok, "what is held is not written to the answer, with the sink's tags"):
            continue
        gz = gz[1]
        w, to = ws[0].dest, ws[0].args[2]
        ok = new(to) if not gz else call(to, "new") and "GzEncoder" in to[1] and new(to[2][0])
        cx.ob("answer", inst + " to", ok, "the answer is compressed when it should not be, or the other way round")
        body = ok_(w)
        isbody = lambda t: t == body if not gz else t[0] == "fld" and t[1][0] == "var" and call(t[1][1], "finish") and t[1][1][2] == (body,)
        nothing = [v[1] for t, v in q.facts.items() if call(t, "is_empty") and isbody(t[2][0])]
        seen.add((gz, bool(rs)))
        if True in nothing:
            continue
        if not cx.ob("answer", inst + " sent", len(rs) == 1 and rs[0].args[0] == ("arg", 2), "a scrape is not answered once"):
            continue
        r = rs[0].args[1]
        if not cx.ob("answer", inst + " response", call(r, "new") and len(r[2]) == 5, "the answer is not understood"):
            continue
        st, _, b, n, _ = r[2]
        cx.ob("answer", inst + " status", text(st) == ("c", 200) or call(st, "from") and st[2] == (("c", 200),), "a scrape is answered as a failure")
        cx.ob("answer", inst + " body", isbody(text(b)), "the answer is not what was written")
        cx.ob("answer", inst + " length", n == ("agg", "None", ()) or n[0] == "agg" and call(n[2][0][1], "len") and isbody(text(n[2][0][1][2][0])), "the answer's length is not that of what was written")
        hs = [(text(c.args[0]), text(c.args[1])) for c in q.calls if last(c.path) == "from_bytes" and "Header" in c.path]
        enc = [v for k, v in hs if k[0] == "c" and str(k[1]).lower() == "content-encoding"]
        put = [c for c in q.calls if last(c.path) in ("push", "insert", "add_header", "with_header", "extend") and any("from_bytes" in repr(a) for a in c.args[1:])]
        cx.ob("answer", inst + " type", any(k[0] == "c" and str(k[1]).lower() == "content-type" and v == ("c", "text/plain; version=0.0.4") for k, v in hs), "the answer's format is not told")
        cx.ob("answer", inst + " encoding", enc == ([("c", "gzip")] if gz else []) and (not gz or bool(put)), "the answer is said to be compressed when it is not, or the other way round")
    cx.ob("answer", "cases", {(True, True), (False, True)} <= seen, "a scrape is never answered compressed, or never plain")


DEFAULT_H = ("fld", ("arg", 1), "tags")
ALLOWED = set(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789:_")


CLASSES = {"is_ascii_alphanumeric": lambda b: b < 128 and chr(b).isalnum(), "is_ascii_alphabetic": lambda b: b < 128 and chr(b).isalpha(),
           "is_ascii_digit": lambda b: 48 <= b <= 57, "is_ascii_lowercase": lambda b: 97 <= b <= 122, "is_ascii_uppercase": lambda b: 65 <= b <= 90, "is_ascii": lambda b: b < 128}


def byte(el, b):
    """an element that is this byte"""
    def env(t):
        if t == el:
            return b
        if t[0] == "call" and len(t[2]) == 1 and t[2][0] == el and last(t[1]) in CLASSES:
            return CLASSES[last(t[1])](b)
        if t[0] == "c" and isinstance(t[1], str) and len(t[1]) == 1:
            return ord(t[1])
    return env


def about(facts, el):
    return {t: v for t, v in facts.items() if term_has(t, lambda x: x == el)}


def value(v, el, b):
    if v[0] == "c" and isinstance(v[1], str):
        return ord(v[1])
    while v[0] == "cast":
        v = v[2]
    try:
        return evalt(v, byte(el, b), "u8")
    except (Unknown, Overflow):
        return None


def mended(b):
    return b if b in ALLOWED else ord("_")


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from subterms(x)


def sanitized(cx):
    p = PR + "sanitize"
    if not cx.ob("name", "code", p in cx.prog.bodies, "the code that mends names is not found"):
        return
    fl = cx.flow(p)
    mapped = [t for q in trace(fl) or () if q.ret is not None for t in subterms(q.ret) if t[0] == "iterop" and t[1] == "map" and norm(t[2]) == A1]
    if mapped:
        el = fl.elem(mapped[0][2])
        bad = None
        cl = mapped[0][4][1] if len(mapped[0]) > 4 and mapped[0][4][0] == "closure" else None
        own = [q for q in trace(cx.flow(cl)) or () if q.ret is not None] if mapped[0][3] == ("undef",) and cl in cx.prog.bodies else None
        if own is not None:
            el = ("arg", 2)
        for b in range(256):
            vals = [(q.ret, q.facts) for q in own] if own is not None else [(v, f) for _, v, f in phi_ins(fl, mapped[0][3])] if mapped[0][3][0] == "phi" else [(mapped[0][3], {})]
            hits = [v for v, f in vals if could(None, byte(el, b), "u8", about(f, el))]
            if not hits or any(value(v, el, b) != mended(b) for v in hits):
                bad = b
        cx.ob("name", "bytes", bad is None, "a name is not mended: byte %s" % bad)
        cx.ob("name", "whole", not any(t[0] == "iterop" and t[1] != "map" for q in trace(fl) or () if q.ret is not None for t in subterms(q.ret)), "the mended name is not what is handed on")
        return
    ls = [L for L in loops(fl) if L.over(A1) or L.it == A1 or any(norm(L.it) == norm(x) for x in (A1,))]
    if not cx.ob("name", "loop", len(ls) == 1 and ls[0].complete(), "a name is not mended byte by byte"):
        return
    L = ls[0]
    qs = [q for q in trace(fl, L.some, L.next, limit=20000) or () if q.end in L.next]
    bufs = set()
    bad = None
    for b in range(256):
        hits = 0
        for q in qs:
            if not could(q, byte(L.elem, b), "u8", about(q.local, L.elem)):
                continue
            hits += 1
            put = [c for c in q.calls if last(c.path) == "push"]
            if len(put) != 1:
                bad = b
                continue
            bufs.add(put[0].args[0])
            if value(put[0].args[1], L.elem, b) != mended(b):
                bad = b
        if hits == 0:
            bad = b
    cx.ob("name", "bytes", bad is None, "a name is not mended: byte %s" % bad)
    out = [q for q in trace(fl, L.done) or () if q.ret is not None]
    ok = bool(out) and len(bufs) == 1 and all(any(term_has(q.ret, lambda x: x == y) for y in bufs) for q in out) and not any(c.path.rsplit("::", 1)[-1] in text.WRITES for q in out for c in q.calls)
    cx.ob("name", "whole", ok, "the mended name is not what is handed on")
    before = [q for q in trace(fl, stops=L.next) or () if q.end in L.next]
    cx.ob("name", "start", bool(before) and not any(c.path.rsplit("::", 1)[-1] in text.WRITES for q in before for c in q.calls), "a mended name does not start empty")


A1 = ("arg", 1)
