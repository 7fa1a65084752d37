"""Settings in use.  For every stage the term its constructor makes is compared field by
field with the configuration it is given, no later code writes those fields, and what names
a peer - addresses, hosts and ports, schemes, producer settings - is followed from the
configuration into the call that reaches the peer.  The connections of the sinks that keep
one are followed path by path through a flush: what a failed write leaves, and what a
reconnection keeps."""
from rules import *

COPY = ("to_string", "to_owned", "into", "from", "clone", "as_str", "as_ref", "deref", "to_vec", "borrow", "to_path_buf", "into_boxed_str", "as_bytes", "new")
A = ("arg", 1)
SELF = lambda f: ("fld", A, f)
WIRING = {"config_path", "forwards"}
OPQ = (r"::connect$", "^metric::", "^buckets::", "^thread::", "^time::delay$", r"format_stats$", r"bulk_body$", "^protocols::")


def last(c):
    return (c if isinstance(c, str) else c.path).rsplit("::", 1)[-1]


def call(t, *names):
    return isinstance(t, tuple) and len(t) > 2 and t[0] == "call" and last(t[1]) in names


def bare(t, names=COPY):
    while True:
        if t[0] == "call" and len(t[2]) == 1 and last(t[1]) in names:
            t = t[2][0]
        elif call(t, "index") and len(t[2]) == 2 and t[2][1][0] in ("undef", "agg"):
            t = t[2][0]
        elif t[0] == "fld" and t[2] == "0" and t[1][0] == "var" and t[1][2] in ("Some", "Ok"):
            t = t[1][1]
        elif t[0] == "agg" and t[1] == "Some":
            t = t[2][0][1]
        else:
            return t


def run(cx):
    makers(cx)
    influxdb(cx)
    elasticsearch(cx)
    kafka(cx)
    prometheus(cx)
    for name in ("native", "wavefront"):
        connect(cx, name)
        reconnect(cx, name)


# ------------------------------------------------------------------ what is kept

def makers(cx):
    out = []
    for im in cx.prog.impls:
        if im["trait"].split("<")[0] in ("sink::Sink", "source::Source") and "init" in im["items"] and im["items"]["init"] in cx.prog.bodies:
            out.append((im["self"].split("<")[0], im["items"]["init"], im["items"]))
    for p in sorted(cx.prog.bodies):
        m = re.match(r"^(filter::\w+::\w+Filter)::new$", p)
        if m:
            its = [im["items"] for im in cx.prog.impls if im["trait"].split("<")[0] == "filter::Filter" and im["self"].split("<")[0] == m.group(1)]
            out.append((m.group(1), p, its[0] if its else {}))
    n = 0
    for ty, p, items in out:
        cfg = config(cx, p)
        if cfg is None:
            continue
        fl = cx.flow(p, opaque=OPQ + ("^mond", "lua"))
        r = fl.ret()
        fields = [f[0] for f in cfg["variants"][0]["fields"] if f[0] not in WIRING]
        mine = cx.prog.adts.get(ty)
        has = {f[0] for f in mine["variants"][0]["fields"]} if mine else set()
        short = ty.rsplit("::", 1)[-1]
        odd = lambda q: [t for t, v in q.facts.items() if (t[0] == "bin" and t[1] == "Eq" or call(t, "eq", "is_empty")) and v == ("c", True) and any(mentions(t, SELF(f)) for f in fields)] \
            + [t for t, v in q.facts.items() if (t[0] == "bin" and t[1] == "Ne" or call(t, "ne")) and v == ("c", False) and any(mentions(t, SELF(f)) for f in fields)]
        ps = [q for q in trace(fl) or () if q.end in fl.ret_blocks]
        cx.ob("started", short, not ps or any(not odd(q) for q in ps), "only a stage with a setting left empty is started")
        for f in fields:
            n += 1
            used = any(mentions(a, SELF(f)) for c in fl.calls for a in c.args) or r is not None and mentions(r, SELF(f)) or any(mentions(w.val, SELF(f)) for w in fl.writes) or any(mentions(t, SELF(f)) for _, _, fs in new_facts(fl) for t in fs)
            cx.ob("used", short + "." + f, used, "a setting is not used")
            if f not in has:
                continue
            v = fl.proj({}, r, ("f", f)) if r is not None else ("?",)
            cx.ob("kept", short + "." + f, bare(v) == SELF(f), "a setting is not kept as it was given: %s" % fmt(v)[:100])
            for q in sorted(cx.prog.bodies):
                if q == p or not (q.startswith(ty + "::") or q.startswith("<" + ty + " as") or q.startswith("<" + ty + "<") or q in items.values()):
                    continue
                if "{{closure}}" in q:
                    continue
                g = cx.flow(q, opaque=("^",)) if q in cx.prog.bodies else None
                bad = [w for w in g.writes if w.root == A and w.proj and w.proj[0] == ("f", f)] + [w for w in g.writes if w.root == SELF(f)]
                cx.ob("stays", "%s.%s in %s" % (short, f, last(q)), not bad, "a setting is changed while the stage runs", at(g, bad[0].blk) if bad else None)
        if "flush_interval" in items and "flush_interval" in fields:
            v = cx.flow(items["flush_interval"]).ret()
            cx.ob("interval", short, v == ("agg", "Some", (("0", SELF("flush_interval")),)), "a sink is not flushed at the interval configured")
    cx.floor("settings", n, 45)


def config(cx, p):
    b = cx.prog.bodies[p]
    ty = b.locals[1] if isinstance(b.locals, (list, tuple)) else b.locals.get(1)
    ty = ty if isinstance(ty, str) else ty.get("ty") if isinstance(ty, dict) else ty[0]
    return cx.prog.adts.get(re.sub(r"^&\s*('\w+ )?(mut )?", "", str(ty)))


def mentions(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(mentions(y, x) for y in t if isinstance(y, tuple))


# ------------------------------------------------------------------ addresses

def url(cx, name, fl, t, secure, parts):
    """t is scheme://...: the scheme by whether it is to be secure"""
    ps = pieces(t)
    if not cx.ob("address", name, ps is not None, "the address of the peer is not understood: %s" % fmt(t)[:100]):
        return
    flat = flatten(ps)
    want = ["://"] + parts
    head, rest = flat[0], flat[1:]
    if isinstance(head, str):
        cx.ob("address", name + " scheme", False, "the scheme is %s whatever was configured" % head)
        return
    ok = len(rest) == len(want) and all((a == b) if isinstance(b, str) else not isinstance(a, str) and bare(a) == b for a, b in zip(rest, want))
    cx.ob("address", name + " parts", ok, "the address of the peer is not the one configured: %s" % [x if isinstance(x, str) else fmt(x)[:40] for x in rest])
    head = head if head[0] == "phi" else bare(head)
    seen = set()
    for k, v in scheme(fl, head, None, secure):
        good = v == ("c", "https" if k else "http") and k is not None
        seen.add(k)
        cx.ob("address", "%s secure=%s" % (name, k), good, "the scheme is %s where secure is %s" % (fmt(v), k))
    cx.ob("address", name + " both", seen == {True, False}, "the scheme does not follow what was configured")


def flatten(ps):
    """the pieces, with pieces that are formatted strings themselves taken apart"""
    out = []
    for x in ps:
        if isinstance(x, str):
            more = [x] if x else []
        else:
            y = pieces(bare(x[0]))
            more = [x[0]] if y is None else flatten(y)
        for y in more:
            if isinstance(y, str) and out and isinstance(out[-1], str):
                out[-1] += y
            else:
                out.append(y)
    return out


def scheme(fl, t, known, secure, deep=0):
    if t[0] != "phi" or deep > 6:
        return [(known, bare(t))]
    out = []
    for p, v, f in phi_ins(fl, t):
        k = known
        for a, b in f.items():
            if a == secure and b[0] == "c":
                k = bool(b[1])
            elif a == secure and b[0] == "not":
                k = True if 0 in b[1] or False in b[1] else False
        out += scheme(fl, v, k, secure, deep + 1)
    return out


def influxdb(cx):
    T = r"^sink::influxdb::InfluxDB"
    fl = cx.flow(cx.method("sink::Sink", T, "init"), opaque=OPQ)
    r = fl.ret()
    u = bare(fl.proj({}, r, ("f", "uri"))) if r is not None else ("?",)
    if cx.ob("address", "influxdb parsed", call(u, "parse", "from_str", "into_url"), "the address of the peer is not understood: %s" % fmt(u)[:100]):
        url(cx, "influxdb", fl, bare(u[2][0]), SELF("secure"), [SELF("host"), ":", SELF("port"), "/write?db=", SELF("db")])
    fl = cx.flow(cx.method("sink::Sink", T, "flush"), opaque=OPQ)
    rq = [c for c in fl.calls if re.search(r"Client::(post|put|get|request|patch)$", c.path)]
    cx.ob("peer", "influxdb", bool(rq) and all(last(c) == "post" and bare(c.args[1]) == SELF("uri") for c in rq), "points are not posted to the address configured")


def elasticsearch(cx):
    fl = cx.flow(cx.method("sink::Sink", r"^sink::elasticsearch::Elasticsearch", "flush"), opaque=OPQ + (r"::position$",))
    mk = [c for c in fl.calls if c.path.endswith("RequestParams::new")]
    if not cx.ob("peer", "elasticsearch", len(mk) == 1, "where lines are posted to is not found"):
        return
    url(cx, "elasticsearch", fl, bare(mk[0].args[0]), SELF("secure"), [SELF("host"), ":", SELF("port")])
    cl = [c for c in fl.calls if last(c) == "from_params"]
    cx.ob("peer", "elasticsearch client", len(cl) == 1 and cl[0].args[0] == mk[0].dest, "lines are not posted to the address configured")


def kafka(cx):
    p = cx.method("sink::Sink", r"^sink::kafka::Kafka", "init")
    fl = cx.flow(p, opaque=OPQ)
    made = [c for c in fl.calls if re.search(r"ClientConfig::create(_with_context)?$", c.path)]
    if not cx.ob("peer", "kafka producer", len(made) == 1, "Kafka's producer is not found"):
        return
    made = made[0]
    conf = made.args[0]
    sets = [c for c in fl.calls if last(c) == "set" and c.args[0] == conf]
    br = [c for c in sets if c.args[1] in (("c", "bootstrap.servers"), ("c", "metadata.broker.list"))]
    cx.ob("peer", "kafka brokers", bool(br) and all(bare(c.args[2]) == SELF("brokers") for c in br) and not (reach(fl, [0], avoid=blks(br)) & {made.blk}), "Kafka's producer is not given the brokers configured")
    M = SELF("rdkafka_config")
    ls = [L for L in loops(fl) if bare(inner(L.it)) == M]
    if cx.ob("peer", "kafka settings", len(ls) == 1 and ls[0].complete(), "not every setting for Kafka is passed on"):
        e = ls[0].elem
        for i, q in enumerate(ls[0].body()):
            ss = [c for c in q.calls if last(c) == "set" and c.args[0] == conf]
            cx.ob("peer", "kafka setting #%d" % i, len(ss) == 1 and bare(ss[0].args[1]) == ("fld", e, "0") and bare(ss[0].args[2]) == ("fld", e, "1"), "a setting for Kafka is not passed on as it was given")
        # it is gone through before the producer is made, whenever there are any
        none = edge_pairs(fl, lambda t, v: t == M and v == ("v", "None"))
        seen, st = set(), [0]
        cut_ = set(none) | set(ls[0].done)
        while st:
            b = st.pop()
            if b not in seen:
                seen.add(b)
                st += [s for s in fl.succ.get(b, ()) if (b, s) not in cut_]
        cx.ob("peer", "kafka settings first", made.blk not in seen, "Kafka's producer is made without the settings for it")
    r = fl.ret()
    v = bare(fl.proj({}, r, ("f", "producer"))) if r is not None else ("?",)
    cx.ob("peer", "kafka producer kept", v == made.dest or bare(made.dest) == v, "the producer made is not the one used")
    v = bare(fl.proj({}, r, ("f", "topic_name"))) if r is not None else ("?",)
    cx.ob("peer", "kafka topic", v == SELF("topic_name"), "the topic is not the one configured")


def inner(t):
    while call(t, "iter", "into_iter"):
        t = t[2][0]
    return t


def prometheus(cx):
    fl = cx.flow(cx.method("sink::Sink", r"^sink::prometheus::Prometheus", "init"), opaque=OPQ + (r"^http::Server::new$",))
    mk = [c for c in fl.calls if c.path.endswith("http::Server::new") or c.path == "http::Server::<H>::new" or last(c) == "new" and "http::Server" in c.path]
    if cx.ob("address", "prometheus", len(mk) == 1, "the exposition's server is not found"):
        ps = pieces(bare(mk[0].args[0]))
        flat = [x if isinstance(x, str) else bare(x) for x in flatten(ps or ())]
        cx.ob("address", "prometheus parts", flat == [SELF("host"), ":", SELF("port")], "the exposition is not served where configured")
    # the server listens where it is told
    p = [x for x in cx.prog.bodies if re.match(r"^http::Server::(<.*>::)?new$", x)]
    if not cx.ob("address", "server", len(p) == 1, "the exposition's server is not found"):
        return
    f = cx.flow(p[0], opaque=("^thread::",))
    sp = [c for c in f.calls if last(c) == "spawn"]
    ok = False
    for c in sp:
        for g in closures(cx, c):
            cl = cx.flow(g, opaque=("^thread::", "^http::http_server", "Handler"))
            b = [x for x in cl.calls if re.search(r"(^|::)tiny_http::Server::(http|new)$", x.path)]
            # the address comes in with the closure
            ok = ok or len(b) == 1 and bare(b[0].args[0])[0] == "fld" and bare(b[0].args[0])[1] == A and captured(c.args[0], bare(b[0].args[0])[2]) == A
    cx.ob("address", "server listens", ok, "the exposition is not served where configured")
    served(cx)


def served(cx):
    """every request that comes in is answered, once, until the server is told to stop"""
    p = "http::http_server"
    if not cx.ob("served", "code", p in cx.prog.bodies, "the exposition's server is not found"):
        return
    fl = cx.flow(p, opaque=("Handler",))
    hs = heads(fl)
    told = lambda q: [c for c in q.calls if last(c) == "poll" and "mio" in c.path and any(could_be(q, c, n) for n in (1,))]
    seen = set()
    for st in [(h, None) for h in hs] + [(0, None)]:
        for i, q in enumerate(trace(fl, [st], hs) or ()):
            if q.end is None and q.ret is None:
                continue
            got = [(t, v) for t, v in q.facts.items() if t[0] == "fld" and t[1][0] == "var" and call(t[1][1], "recv_timeout", "recv", "try_recv")]
            got = [t for t, v in got if v == ("v", "Some")]
            hd = [c for c in q.calls if last(c) == "handle"]
            rq = [("fld", ("var", t, "Some"), "0") for t in got]
            cx.ob("served", "request %s #%d" % (st[0], i), [c.args[1] for c in hd] == rq, "a request is not answered once")
            seen |= {"request"} if hd else set()
            if q.end not in hs:
                seen.add("stop")
                cx.ob("served", "stop %s #%d" % (st[0], i), bool(told(q)), "the exposition's server stops without being told")
    cx.ob("served", "cases", seen == {"request", "stop"}, "no request is answered, or the server never stops")


def could_be(q, c, n):
    """the poll's count may be n and cannot be 0"""
    x = ("fld", ("var", c.dest, "Ok"), "0")
    at_ = lambda k: could(q, lambda t: k if t == x else None)
    return q.facts.get(c.dest) == ("v", "Ok") and at_(n) and not at_(0)


def closures(cx, c):
    ty = c.info["targs"][0] if c.info.get("targs") else ""
    g = cx.prog.closure_of_type(ty)
    return [g] if g else []


def captured(t, i):
    if t[0] == "closure":
        return t[2][int(i)] if isinstance(t[2], tuple) and str(i).isdigit() and int(i) < len(t[2]) else None
    if t[0] == "agg":
        return dict(t[2]).get(str(i))
    return None


# ------------------------------------------------------------------ connections

def connect(cx, name):
    """any address of the host that accepts makes the connection"""
    p = "sink::%s::connect" % name
    if not cx.ob("connect", name + " code", p in cx.prog.bodies, "the making of connections is not found"):
        return
    fl = cx.flow(p)
    HP = (("agg", None, (("0", A), ("1", ("arg", 2)))),)
    look = lambda t: call(t, "to_socket_addrs") and t[2] == HP
    seen = set()
    for i, q in enumerate(trace(fl) or ()):
        if q.ret is None:
            continue
        st = {last(t[1]): (t, v) for t, v in q.facts.items() if t[0] == "call" and v[0] == "v"}
        if "to_socket_addrs" in st and st["to_socket_addrs"][1] == ("v", "Err"):
            seen.add("no host")
            cx.ob("connect", "%s no host #%d" % (name, i), q.ret == ("agg", "None", ()), "a connection is made up")
            continue
        cs = [c for c in q.calls if c.path == "std::net::TcpStream::connect"]
        won = [c for c in cs if q.facts.get(c.dest) == ("v", "Ok")]
        if won:
            seen.add("accepted")
            a = won[0].args[0]
            good = q.ret == ("agg", "Some", (("0", ("fld", ("var", won[0].dest, "Ok"), "0")),)) and (a[0] == "elem" and mentions(a, HP[0]) or a == HP[0])
            cx.ob("connect", "%s accepted #%d" % (name, i), good, "the connection is not the one an address of the host accepted")
        else:
            seen.add("refused")
            cx.ob("connect", "%s refused #%d" % (name, i), q.ret == ("agg", "None", ()), "a connection is made up")
    cx.ob("connect", name + " cases", {"accepted", "refused"} <= seen, "a connection is never made, or never refused")
    # every address is tried until one accepts
    ls = [L for L in loops(fl) if mentions(L.it, HP[0])]
    cs = [c for c in fl.calls if c.path == "std::net::TcpStream::connect"]
    if any(c.args[0] == HP[0] for c in cs):
        return  # the library tries them all
    if cx.ob("connect", name + " addresses", len(ls) == 1 and plain(ls[0].it, look), "not every address of the host is tried"):
        L = ls[0]
        for i, q in enumerate(trace(fl, L.some, list(L.next)) or ()):
            c = [c for c in q.calls if c.path == "std::net::TcpStream::connect"]
            ok = len(c) == 1 and (q.end in L.next) == (q.facts.get(c[0].dest) != ("v", "Ok"))
            cx.ob("connect", "%s address #%d" % (name, i), ok, "an address is not tried, or the next one is not")


def plain(t, look):
    """all that look() holds for, with nothing left out"""
    while call(t, "iter", "into_iter", "collect", "to_vec", "from_iter", "unwrap", "expect") and t[2] or t[0] == "fld":
        t = t[2][0] if t[0] == "call" else t[1][1]
    return look(t)


def reconnect(cx, name):
    """a connection that failed is dropped, and one that was made is kept"""
    T = {"native": r"^sink::native::Native", "wavefront": r"^sink::wavefront::Wavefront"}[name]
    p = "sink::%s::connect" % name
    fl = cx.flow(cx.method("sink::Sink", T, "init"), opaque=OPQ)
    bad = [c for c in fl.calls if c.path == p and not (c.args[0] == SELF("host") and c.args[1] == SELF("port"))]
    cx.ob("reconnect", name + " first", not bad, "a connection is not made to the host and port configured", at(fl, bad[0].blk) if bad else None)
    fl = cx.flow(cx.method("sink::Sink", T, "flush"), opaque=OPQ)
    cn = [c for c in fl.calls if c.path == p]
    if not cx.ob("reconnect", name + " made", bool(cn) and all(c.args[0] == SELF("host") and c.args[1] == SELF("port") for c in cn), "a connection is not made to the host and port configured"):
        return
    wr = [c for c in fl.calls if last(c) in ("write_all", "write_raw_bytes", "write_to_with_cached_sizes", "flush", "write") and "sink::" not in c.path and c.args]
    hs = heads(fl)
    n = 0
    for h in hs:
        for i, q in enumerate(trace(fl, [(h, None)], hs, limit=20000) or ()):
            if q.end not in hs or not [c for c in q.calls if c in wr or c.path == p]:
                continue
            n += 1
            left = stream_left(fl, q)
            failed = any(q.facts.get(c.dest) == ("v", "Err") for c in q.calls if any(c.blk == w.blk for w in wr))
            made = [c for c in q.calls if c.path == p]
            inst = "%s #%d" % (name, i)
            if made:
                d = made[-1].dest
                none = left == ("agg", "None", ()) or left is not None and q.facts.get(left) == ("v", "None")
                some = left == ("agg", "Some", (("0", ("fld", ("var", d, "Some"), "0")),))
                cx.ob("reconnect", inst, left == d or some or none and q.facts.get(d) == ("v", "None"), "a connection that was made is not kept: %s" % (fmt(left)[:60] if left else None))
            elif failed:
                cx.ob("reconnect", inst, left == ("agg", "None", ()), "a connection on which a write failed is written to again")
            else:
                cx.ob("reconnect", inst, True)
    cx.floor("ways round " + name, n, 2)


def stream_left(fl, q):
    """what is in self.stream when the way ends"""
    try:
        return fl.read(q.state, ("t", A), (("f", "stream"),))
    except Exception:
        return None


def heads(fl):
    color, out, st = {0: 1}, set(), [(0, iter(fl.succ.get(0, ())))]
    while st:
        b, it = st[-1]
        for s in it:
            if color.get(s) == 1:
                out.add(s)
            elif s not in color:
                color[s] = 1
                st.append((s, iter(fl.succ.get(s, ()))))
                break
        else:
            color[b] = 2
            st.pop()
    return out
