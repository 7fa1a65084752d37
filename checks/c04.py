"""Start-up wiring and shutdown order.  The program's main function is analysed as
a whole, with its helpers and macros inlined and the configuration kept symbolic.
Every place that starts a stage, registers a channel, records topology or pops
routes is an obligation: for each configuration section the channel's two halves,
the receiver handed to the stage, the set of upstreams, the downstream senders and
the thread handle must all belong to that same section's path.  Order obligations
are path queries on the control-flow graph: validation before any start, routes
recorded before they are popped, sources signalled and joined before orphans get
their Shutdown, and those before sinks and filters are joined, then return."""
from rules import *

SINKS = {"null": "Null", "console": "Console", "wavefront": "Wavefront", "prometheus": "Prometheus", "influxdb": "InfluxDB",
         "native_sink_config": "Native", "elasticsearch": "Elasticsearch", "kafkas": "Kafka"}
FILTERS = {"programmable_filters": "ProgrammableFilter", "delay_filters": "DelayFilter", "json_encode_filters": "JSONEncodeFilter",
           "flush_boundary_filters": "FlushBoundaryFilter"}
SOURCES = {"native_server_config": "TCP<source::native::NativeStreamHandler>", "internal": "Internal", "statsds": "Statsd", "graphites": "TCP<source::graphite::GraphiteStreamHandler>", "avros": "TCP<source::avro::AvroStreamHandler>", "files": "FileServer"}
ADJ = "matrix::Adjacency::<M>::"
MAP = "std::collections::HashMap::<K, V, S>::"
CONV = ("into", "from", "clone")


def run(cx):
    mains = [b for b in cx.prog.bodies if b == "main"]
    if not mains:
        raise AnchorError("main")
    fl = cx.flow("main", opaque=("^config::", "^matrix::", "^thread::spawn", "^util::send$"))
    fields = set(cx.prog.fields("config::Args"))
    stages = dict(SINKS)
    stages.update(FILTERS)
    stages.update(SOURCES)
    for f in stages:
        cx.ob("section", f, f in fields, "the configuration no longer has this section")
    isargs = lambda t: t[0] == "call" and t[1] == "config::parse_config"

    def sec(t):
        """the configuration section a term comes from"""
        r = {s[2] for s in leaves(fl, t) if s[0] == "fld" and isargs(s[1])}
        r &= set(stages)
        return r.pop() if len(r) == 1 else None

    def body(t):
        """term relative to its section element: ('conf',), ('path',), ('fwds',) or None"""
        x = t
        while x[0] == "call" and x[1].rsplit("::", 1)[-1] in ("into", "from") and len(x[2]) == 1:
            x = x[2][0]
        opt = False
        if x[0] == "fld" and x[2] == "0" and x[1][0] == "var" and x[1][2] == "Some" and x[1][1][0] == "fld" and x[1][1][2] == "config_path":
            x = x[1][1]
            opt = True
        if x[0] == "fld" and x[2] in ("config_path", "forwards") and is_elem(x[1]):
            return "path" if x[2] == "config_path" else "fwds"
        if x[0] == "fld" and x[2] == "0" and x[1][0] == "elem" and is_coll(x[1][1]):
            return "path"
        if x[0] == "elem" and x[1][0] == "call" and x[1][1].endswith("::keys") and is_coll(x[1][2][0]):
            return "path"
        if is_elem(x):
            return "conf"
        return None

    def is_coll(x):
        return x[0] == "fld" and x[2] == "0" and x[1][0] == "var" and x[1][2] == "Some" and x[1][1][0] == "fld" and isargs(x[1][1][1])

    def is_elem(x):
        if x[0] == "fld" and isargs(x[1]) and x[2] == "internal":
            return True
        if is_coll(x):
            return True
        if x[0] == "elem":
            y = x[1]
            if y[0] == "call" and y[1].endswith("::values"):
                y = y[2][0]
            return is_coll(y)
        if x[0] == "fld" and x[2] == "1" and x[1][0] == "elem" and is_coll(x[1][1]):
            return True
        return False

    ispath = lambda t, s: sec(t) == s and body(t) == "path"
    isconf = lambda t, s: sec(t) == s and body(t) == "conf"
    C = lambda p: [c for c in fl.calls if c.path == p]
    ins = C(MAP + "insert")
    chans = [c for c in fl.calls if c.path.startswith("hopper::channel")]
    starts = {}

    # ---- channels
    A0 = None
    for c in chans:
        s = sec(c.args[0])
        inst = s or cat(c)
        cx.ob("channel-identity", inst, s is not None and ispath(c.args[0], s), "the channel is not named by its stage's path", cat(c))
        want = ["data_directory", "max_hopper_in_memory_bytes", "max_hopper_queue_bytes", "max_hopper_queue_files"]
        got = [a[2] if a[0] == "fld" and isargs(a[1]) else fmt(a) for a in c.args[1:]]
        cx.ob("channel-limits", inst, c.path.endswith("channel_with_explicit_capacity") and got == want, "the channel is not bounded by the configured limits: %s" % got, cat(c))
    chan_of = {}
    for c in chans:
        chan_of.setdefault(sec(c.args[0]), []).append(c)

    def half(v):
        """(channel call's section, 0|1) when v is a half of a created channel"""
        r = [s for s in flow.subterms(v) if s and s[0] == "call" and s[1].startswith("hopper::channel")]
        if v[0] == "fld" and len({x for x in r}) == 1:
            return sec(r[0][2][0]), v[2]
        return None
    senders, receivers, topo = set(), set(), set()
    reg = {}
    tot = {}
    for c in ins:
        m, k, v = c.args[0], c.args[1], c.args[2]
        h = half(v)
        if h:
            s = h[0]
            cx.ob("registered-under-own-path", "%s.%s" % (s, h[1]), ispath(k, s), "a channel half is stored under another stage's path", cat(c))
            reg.setdefault((s, h[1]), []).append(c)
            (senders if h[1] == "0" else receivers).add(m)
        elif sec(v) and body(v) == "fwds":
            cx.ob("topology", sec(v), ispath(k, sec(v)), "forwards recorded under another stage's path", cat(c))
            tot.setdefault(sec(v), []).append(c)
            topo.add(m)
        elif v[0] in ("default",) or v[0] == "call" and v[1].endswith(("default", "Vec::<T>::new")):
            s = sec(k)
            if s in SINKS and body(k) == "path":
                tot.setdefault(s, []).append(c)
                topo.add(m)
    one = lambda rule, x, msg: cx.ob(rule, "main", len(x) == 1, msg)
    if not (one("sender-map", senders, "senders are spread over several maps") and one("receiver-map", receivers, "receivers are spread over several maps") and one("topology-map", topo, "the topology is spread over several maps")):
        return
    SEND, RECV, TOPO = senders.pop(), receivers.pop(), topo.pop()
    for s in list(SINKS) + list(FILTERS):
        for h in "01":
            cx.ob("channel-registered", "%s.%s" % (s, h), bool(reg.get((s, h))), "no channel for this section")
    for s in stages:
        cx.ob("in-topology", s, bool(tot.get(s)), "this section does not take part in forward validation")
        if s not in SINKS:
            cx.ob("forwards-in-topology", s, all(body(c.args[2]) == "fwds" for c in tot.get(s, ())), "the forwards of this section are not validated")

    # ---- routes
    ae = [c for c in fl.calls if c.path == ADJ + "add_edges"]
    aa = [c for c in fl.calls if c.path == ADJ + "add_asymmetric_edge"]
    edges_of, fwd_of = {}, {}
    for c in ae:
        s = sec(c.args[1])
        ok = s is not None and ispath(c.args[1], s) and sec(c.args[2]) == s and body(c.args[2]) == "fwds" and fl_none(c.args[3])
        cx.ob("edges", s or cat(c), ok, "route edges do not link a stage with its own forwards", cat(c))
        edges_of.setdefault(s, []).append(c)
    for c in aa:
        s = sec(c.args[1])
        e = c.args[2]
        inner = e[1] if e[0] == "elem" else None
        ok = s is not None and ispath(c.args[1], s) and inner is not None and sec(inner) == s and body(inner) == "fwds"
        v = c.args[3]
        g = v[2][0][1] if v[0] == "agg" and v[1] == "Some" else None
        ok2 = g is not None and g[0] == "fld" and g[1][0] == "var" and g[1][2] == "Some" and g[1][1][0] == "call" and g[1][1][1].rsplit("::", 1)[-1] == "get" and g[1][1][2][0] == SEND and g[1][1][2][1] == e
        cx.ob("route", s or cat(c), ok, "a route is recorded for another stage's forward", cat(c))
        cx.ob("route-sender", s or cat(c), ok2, "a forward is not routed to the sender registered for it", cat(c))
        fwd_of.setdefault(s, []).append(c)
        if ok and ok2:
            some = edge_pairs(fl, lambda t, v: v == ("v", "Some") and t[0] == "call" and t[1].endswith("next") and fl.elem(t[2][0]) == e)
            nx = [x.blk for x in fl.calls if x.path.endswith("next") and fl.elem(x.args[0]) == e]
            bad = must_reach(fl, [t for _, t in some], [c.blk], nx + fl.ret_blocks)
            # another loop may iterate the same forwards (flush set); only loops whose body has the call count
            if bad:
                loops = [b for b, t in some if c.blk in reach(fl, [t], avoid=nx)]
                bad = must_reach(fl, [t for b, t in some if b in loops], [c.blk], nx + fl.ret_blocks)
            cx.ob("every-forward-routed", s, not bad, "a forward can be left without a route", at(fl, bad[0]) if bad else None)
    for s in stages:
        if s in SINKS:
            continue
        cx.ob("edges-recorded", s, bool(edges_of.get(s)), "the forwards of this section are not recorded as edges")
        cx.ob("routes-recorded", s, bool(fwd_of.get(s)), "the forwards of this section get no sender")

    # ---- stages
    spawns = C("thread::spawn")
    pops = {}
    for c in fl.calls:
        if c.path in (ADJ + "pop_nodes", ADJ + "filter_nodes", ADJ + "pop_metadata", ADJ + "pop"):
            pops.setdefault((c.path[len(ADJ):], sec(c.args[1])), []).append(c)

    def recv_ok(t, s):
        return t[0] == "fld" and t[1][0] == "var" and t[1][1][0] == "call" and t[1][1][1].endswith("::remove") and t[1][1][2][0] == RECV and ispath(t[1][1][2][1], s)

    def adj(t, name, s):
        return t[0] == "call" and t[1] == ADJ + name and ispath(t[2][1], s)
    handles = {}
    started = {}
    for c in C("sink::Sink::new"):
        r, u, cf = c.args
        s = sec(cf)
        ty = c.info["targs"][0]
        inst = s or cat(c)
        cx.ob("sink-kind", inst, s in SINKS and ty == "sink::" + SINKS[s] or s in SINKS and ty.endswith("::" + SINKS[s]), "section starts %s" % ty, cat(c))
        cx.ob("sink-receiver", inst, s is not None and recv_ok(r, s), "the sink does not get its own receiver", cat(c))
        cx.ob("sink-upstreams", inst, s is not None and adj(u, "pop_nodes", s), "the sink does not wait for its own upstreams", cat(c))
        cx.ob("sink-config", inst, s is not None and isconf(cf, s), "the sink does not get its own configuration", cat(c))
        started.setdefault(s, []).append((c.blk, c.dest))
    for c in C("source::Source::new"):
        d, cf = c.args
        ty = c.info["targs"][0]
        if ty.endswith("::FlushTimer"):
            started.setdefault("<flush>", []).append((c.blk, c.dest))
            timer = c
            continue
        s = sec(cf)
        inst = s or cat(c)
        cx.ob("source-kind", inst, s in SOURCES and ty.endswith("::" + SOURCES[s]), "section starts %s" % ty, cat(c))
        cx.ob("source-forwards", inst, s is not None and adj(d, "pop_metadata", s), "the source does not get its own forwards' senders", cat(c))
        cx.ob("source-config", inst, s is not None and isconf(cf, s), "the source does not get its own configuration", cat(c))
        started.setdefault(s, []).append((c.blk, c.dest))
    spawned = {}
    ticker = False
    for c in spawns:
        arg = c.args[0]
        ty = c.info["targs"][0] if c.info.get("targs") else ""
        m = [s for s, v in started.items() if any(term_has(arg, lambda x: x == d) for _, d in v)]
        if len(m) == 1:
            spawned.setdefault(m[0], []).append(c)
            continue
        cl = cx.prog.closure_of_type(ty)
        if cl is None:
            continue
        f = cx.flow(cl, opaque=("^filter::", "^time::"))
        if any(x.path == "time::update_time" for x in f.calls):
            ticker = True
            cx.ob("clock", "ticker", c.blk is not None and not always_before(fl, [c.blk], blks([x for x in fl.calls if x.path.endswith("::recv")])), "the clock is not started before waiting for a signal", cat(c))
            continue
        rn = [x for x in f.calls if x.path == "filter::Filter::run"]
        if not rn:
            continue
        rn = rn[0]
        val = lambda t: upvar(t, arg)
        new = rn.args[0]
        s = sec(val(new[2][0])) if new[0] == "call" and new[2] else None
        inst = s or cat(c)
        ty = rn.info["targs"][0]
        cx.ob("filter-kind", inst, s in FILTERS and ty.endswith("::" + FILTERS[s]) and (new[1].startswith(ty + "::")), "section starts %s" % ty, cat(c))
        a = [val(t) for t in rn.args[1:]]
        cx.ob("filter-config", inst, s is not None and isconf(val(new[2][0]), s), "the filter does not get its own configuration", cat(c))
        cx.ob("filter-receiver", inst, s is not None and recv_ok(a[0], s), "the filter does not get its own receiver", cat(c))
        cx.ob("filter-upstreams", inst, s is not None and adj(a[1], "filter_nodes", s), "the filter does not wait for its own upstreams", cat(c))
        cx.ob("filter-forwards", inst, s is not None and adj(a[2], "pop_metadata", s), "the filter does not get its own forwards' senders", cat(c))
        started.setdefault(s, []).append((c.blk, c.dest))
        spawned.setdefault(s, []).append(c)
    cx.ob("clock", "main", ticker, "the cached clock is not kept running")
    for (n, s), cs in pops.items():
        if n == "filter_nodes":
            for c in cs:
                cl = cx.prog.closure_of_type(c.info["targs"][-1]) if c.info.get("targs") else None
                ps = paths(cx.flow(cl)) if cl else None
                ok = bool(ps) and all(v[0] == "c" and any(t[0] == "fld" and t[1] == ("arg", 2) and t[2] == "1" and w == ("v", "None" if v[1] else "Some") for t, w in e.items()) for e, ex, v, _ in ps)
                if ps and not ok:  # direct form
                    ok = all(is_none_term(v) for e, ex, v, _ in ps)
                cx.ob("upstream-predicate", s, ok, "upstreams of a filter are not the edges without a sender", cat(c))
                # routes are recorded first, and the edges popped last
                rb = blks(fwd_of.get(s, []))
                late = never_after(fl, [c.blk], [b for b in rb if c.blk not in reach(fl, succs(fl, [b]))])
                it = [x.blk for x in fl.calls if x.path.endswith("next") and sec(x.args[0]) == s and body(x.args[0]) == "fwds" and any(x.blk in reach(fl, succs(fl, [b])) and b in reach(fl, succs(fl, [x.blk])) for b in rb)]
                bad = always_before(fl, it, [c.blk])
                cx.ob("routes-before-upstreams", s, bool(it) and not bad and not late, "upstreams are taken before this filter's forwards have their senders", cat(c))
                bad = [p for p in pops.get(("pop_metadata", s), []) if always_before(fl, [c.blk], [p.blk])]
                cx.ob("upstreams-before-pop", s, not bad, "the edges are removed before the upstreams are taken", cat(c))
        if n == "pop_metadata":
            for c in cs:
                rb = blks(fwd_of.get(s, []))
                it = [x.blk for x in fl.calls if x.path.endswith("next") and sec(x.args[0]) == s and body(x.args[0]) == "fwds" and any(x.blk in reach(fl, succs(fl, [b])) and b in reach(fl, succs(fl, [x.blk])) for b in rb)]
                bad = always_before(fl, it, [c.blk])
                cx.ob("routes-before-pop", s, bool(it) and not bad, "senders are taken before they are recorded", cat(c))
                cx.ob("pop-target", s, ispath(c.args[1], s), "senders of another stage are taken", cat(c))
    # ---- every configured stage is started, and its handle kept
    nstarted = 0
    coll = {}
    for s in stages:
        sp = spawned.get(s, [])
        if not cx.ob("started", s, bool(sp), "stages of this section are never started"):
            continue
        nstarted += 1
        # reachable whenever the section is present
        sb = blks(sp)
        kept = [c for c in ins if any(term_has(c.args[2], lambda x: x == p.dest) for p in sp) and ispath(c.args[1], s)]
        cx.ob("handle-kept", s, bool(kept) and all(not must_reach(fl, succs(fl, [b]), blks(kept), fl.ret_blocks) for b in sb), "the thread handle is not kept under the stage's path", cat(sp[0]))
        for c in kept:
            coll.setdefault(c.args[0], set()).add(s)
        if s == "internal":
            bad = cut(fl, [], sb) & set(fl.ret_blocks)
            cx.ob("always-started", s, not bad, "the internal source is not always started")
        else:
            OPT = lambda t: t[0] == "fld" and isargs(t[1]) and t[2] == s
            none = edge_pairs(fl, lambda t, v: v == ("v", "None") and OPT(t))
            isn = lambda t: t[0] == "call" and t[1].endswith("next") and sec(t[2][0]) == s and (is_coll(t[2][0]) or t[2][0][0] == "call" and t[2][0][1].rsplit("::", 1)[-1] in ("values", "keys", "iter", "into_iter", "values_mut", "drain") and is_coll(t[2][0][2][0]))
            some = edge_pairs(fl, lambda t, v: v == ("v", "Some") and isn(t))
            mine = [(b, t) for b, t in some if set(sb) & reach(fl, [t], avoid=[x.blk for x in fl.calls if isn(x.dest)])]
            looped = any(term_has(k.args[1], lambda y: y[0] == "elem") for k in kept)
            if mine or looped:
                nb = [x.blk for x in fl.calls if isn(x.dest)]
                bad = must_reach(fl, [t for _, t in mine], sb, nb + fl.ret_blocks)
                cx.ob("each-started", s, bool(mine) and not bad, "a configured stage of this section can be left unstarted", at(fl, bad[0]) if bad else None)
                heads = {b for b, _ in mine}
                bad = cut(fl, none, heads) & set(fl.ret_blocks)
                cx.ob("section-started", s, not bad, "the section can be skipped although configured")
            else:
                bad = cut(fl, none, sb) & set(fl.ret_blocks)
                cx.ob("section-started", s, not bad, "the section can be skipped although configured")
    cx.floor("stages started", nstarted, 18)
    def group(g):
        r = {m for m, ss in coll.items() if ss & set(g)}
        return r
    SRC, SNK, FLT = group(SOURCES), group(SINKS), group(FILTERS)
    cx.ob("source-handles-apart", "main", bool(SRC) and not SRC & (SNK | FLT), "source handles are mixed with sink or filter handles")

    # ---- flush pulses
    fi = [c for c in fl.calls if c.path.endswith("HashSet::<T, S>::insert") or c.path.endswith("BTreeSet::<T>::insert")]
    fsets = {}
    for c in fi:
        e = c.args[1]
        s = sec(e)
        if e[0] == "elem" and sec(e) and body(e[1]) == "fwds":
            fsets.setdefault(c.args[0], {}).setdefault(s, []).append(c)
    timer = [c for c in C("source::Source::new") if c.info["targs"][0].endswith("::FlushTimer")]
    if cx.ob("flush-timer", "main", len(timer) == 1 and bool(spawned.get("<flush>")), "the flush timer is not started"):
        t = timer[0]
        use = {m: d for m, d in fsets.items() if deep_has(fl, t.args[0], lambda x: x == m) or any(x.path.endswith("push") and x.args[0] == t.args[0] and deep_has(fl, x.args[1], lambda y: y == m) for x in fl.calls) or term_has(flushes(fl, t), lambda x: x == m)}
        cx.ob("flush-set", "main", len(use) == 1, "the flush timer's channels do not come from the set of source forwards")
        for m, d in use.items():
            for s in SOURCES:
                cx.ob("flush-fed", s, s in d, "the forwards of this source section get no flush pulses")
                for c in d.get(s, []):
                    # every forward of the loop it sits in
                    nx = [x.blk for x in fl.calls if x.path.endswith("next") and fl.elem(x.args[0]) == c.args[1]]
                    some = edge_pairs(fl, lambda t, v: v == ("v", "Some") and t[0] == "call" and t[1].endswith("next") and fl.elem(t[2][0]) == c.args[1])
                    some = [(b, x) for b, x in some if c.blk in reach(fl, [x], avoid=nx)]
                    bad = must_reach(fl, [x for _, x in some], [c.blk], nx + fl.ret_blocks)
                    cx.ob("flush-every-forward", s, bool(some) and not bad, "a forward can be left out of the flush set", cat(c))
            for s in FILTERS:
                cx.ob("flush-not-duplicated", s, s not in d, "flush pulses must reach what is behind a filter only through it")
            pushes = [x for x in fl.calls if x.path.endswith("push") and term_has(x.args[1], lambda y: y[0] == "call" and y[1].rsplit("::", 1)[-1] == "get" and y[2][0] == SEND and y[2][1] == ("elem", m))]
            if pushes:
                nx = [x.blk for x in fl.calls if x.path.endswith("next") and x.args[0] == m]
                some = edge_pairs(fl, lambda t, v: v == ("v", "Some") and t[0] == "call" and t[1].endswith("next") and t[2][0] == m)
                bad = must_reach(fl, [x for _, x in some], blks(pushes), nx + fl.ret_blocks + [t.blk])
                cx.ob("flush-channels", "main", bool(some) and not bad, "a flush destination can be left out")

    # ---- validation precedes any start
    allstart = blks(spawns)
    exits = C("std::process::exit")
    isforward = lambda e: e[0] == "elem" and e[1][0] == "fld" and e[1][1][0] == "elem" and e[1][1][1] == TOPO or e[0] == "elem" and e[1][0] == "elem" and e[1][1][0] == "call" and e[1][1][1].endswith("values") and e[1][1][2][0] == TOPO

    def unknown(t, v):
        if t[0] == "call" and t[2] and t[2][0] == TOPO and isforward(t[2][1] if len(t[2]) > 1 else ("undef",)):
            n = t[1].rsplit("::", 1)[-1]
            return n == "get" and v == ("v", "None") or n == "contains_key" and v == ("c", False)
        return False
    unk = edge_pairs(fl, unknown)
    cx.ob("validates-forwards", "main", bool(unk), "forwards are not checked against the configured stages")
    bad = must_reach(fl, [s for _, s in unk], [], allstart + fl.ret_blocks)
    cx.ob("unknown-forward-aborts", "main", bool(unk) and not bad, "an unknown forward does not stop start-up")
    ex = [c for c in exits if c.blk in reach(fl, [s for _, s in unk])]
    cx.ob("unknown-forward-status", "main", bool(ex) and all(not is_const(c.args[0], 0) for c in ex), "start-up with an unknown forward must fail with a non-zero status")
    for c in exits:
        cx.ob("exit-status", at(fl, c.blk), not is_const(c.args[0], 0), "start-up that gives up must not report success", cat(c))
    heads = {b for b, _ in edge_pairs(fl, lambda t, v: v == ("v", "None") and t[0] == "call" and t[1].endswith("next") and (t[2][0] == TOPO or t[2][0][0] == "call" and t[2][0][2] and t[2][0][2][0] == TOPO)) if any(b in reach(fl, [s]) or True for _, s in unk)}
    bad = always_before(fl, heads, allstart)
    cx.ob("validation-first", "main", bool(heads) and not bad, "a stage can be started before the topology is validated", at(fl, bad[0]) if bad else None)
    for s, cs in tot.items():
        late = [c for c in cs if any(c.blk in reach(fl, [h]) for h in heads)]
        cx.ob("topology-complete", s, not late, "the topology still changes after it was validated", cat(late[0]) if late else None)
    for s, cs in edges_of.items():
        bad = [c for c in cs if set(allstart) and any(c.blk in reach(fl, succs(fl, [b])) for b in allstart)]
        cx.ob("edges-before-starts", s, not bad, "edges are still added after a stage was started", cat(bad[0]) if bad else None)

    # ---- shutdown
    sig = [c for c in fl.calls if c.path.endswith("::recv") and "chan" in c.path]
    if not cx.ob("waits-for-signal", "main", len(sig) == 1 and term_has(sig[0].args[0], lambda t: t[0] == "call" and t[1].endswith("notify")), "the program does not wait for a signal"):
        return
    sig = sig[0]
    cx.ob("signals", "main", {s[1] for s in flow.subterms(sig.args[0]) if s and s[0] == "agg" and s[1] in ("INT", "TERM", "HUP", "KILL")} >= {"INT", "TERM"}, "INT and TERM must both end the program", cat(sig))
    for s, sp in spawned.items():
        cx.ob("started-before-wait", s, all(sig.blk not in reach(fl, [0], avoid=[]) or not always_after_never(fl, sig.blk, c.blk) for c in sp), "a stage is only started after the signal")
    sd = [c for c in fl.calls if c.path.endswith("set_readiness")]
    jn = [c for c in fl.calls if c.path.endswith("JoinHandle::<T>::join")]
    HND = lambda c, ms: any(term_has(c.args[0], lambda t: t[0] == "elem" and (t[1] == m or t[1][0] == "call" and t[1][2] and t[1][2][0] == m and t[1][1].rsplit("::", 1)[-1] in ("values", "drain", "into_iter"))) for m in ms)
    ssd = [c for c in sd if HND(c, SRC)]
    sj = [c for c in jn if HND(c, SRC)]
    done, some = {}, {}
    for nm, ms in (("sources", SRC), ("sinks", SNK), ("filters", FLT)):
        j = [c for c in jn if HND(c, ms)]
        cx.ob("joined", nm, bool(j), "the threads of the %s are not joined" % nm)
        for m in ms:
            isn = lambda t: t[0] == "call" and t[1].endswith("next") and (t[2][0] == m or t[2][0][0] == "call" and t[2][0][2] and t[2][0][2][0] == m and t[2][0][1].rsplit("::", 1)[-1] in ("values", "drain", "into_iter"))
            sm = edge_pairs(fl, lambda t, v: v == ("v", "Some") and isn(t))
            dn = edge_pairs(fl, lambda t, v: v == ("v", "None") and isn(t))
            nb = [x.blk for x in fl.calls if isn(x.dest)]
            lp = [(b, t) for b, t in sm if set(blks(j)) & reach(fl, [t], avoid=nb)]
            bad = must_reach(fl, [t for _, t in lp], blks(j), nb + fl.ret_blocks)
            cx.ob("each-joined", nm, bool(lp) and not bad, "a thread of the %s can be left unjoined" % nm)
            hb = {b for b, _ in lp}
            ends = [t for b, t in dn if b in hb]
            bad = must_reach(fl, [sig.blk], ends, fl.ret_blocks)
            cx.ob("all-joined-before-exit", nm, bool(ends) and not bad, "the program can exit before all %s are joined" % nm)
            done.setdefault(nm, []).extend(ends)
            some[nm] = lp
            if nm == "sources":
                bad = must_reach(fl, [t for _, t in lp], blks(ssd), blks(j))
                cx.ob("sources-signalled", "main", bool(ssd) and not bad, "a source is joined without having been told to shut down")
    bad = must_reach(fl, [sig.blk], done["sources"], [b for n in ("sinks", "filters") for b in blks([c for c in jn if HND(c, SNK | FLT)])])
    cx.ob("sources-first", "main", not bad, "sinks or filters are joined before all sources are", at(fl, bad[0]) if bad else None)
    bad = reach(fl, [0], avoid=[sig.blk]) & set(blks(jn) + blks(sd))
    cx.ob("runs-until-signal", "main", not bad, "stages are stopped before a signal arrived")
    orph = [c for c in fl.calls if c.path == "util::send" and variants_of(fl, c.args[1]) == {"Shutdown"}]
    okk = [c for c in orph if deep_has(fl, c.args[0], lambda t: t == SEND)]
    cx.ob("orphans-told", "main", bool(okk), "stages nothing forwards to are never told to stop")
    if okk:
        # their Shutdown comes after every source's, and before anything is joined for good
        bad = must_reach(fl, [sig.blk], done["sources"], blks(okk))
        cx.ob("orphans-after-sources", "main", not bad, "stages are told to stop before the sources have stopped")
        for n in ("sinks", "filters"):
            jb = blks([c for c in jn if HND(c, SNK if n == "sinks" else FLT)])
            bad = must_reach(fl, [sig.blk], blks(okk), jb)
            cx.ob("orphans-before-join", n, not bad, "a stage nothing forwards to is joined before it is told to stop")
    # nothing but the registered upstreams keeps channels open / stages see no late writes
    wr = [c for c in fl.calls if c.path in ("util::send",) and c not in orph]
    cx.ob("no-stray-events", "main", not wr, "main sends events of its own", cat(wr[0]) if wr else None)


def upvar(t, agg):
    if t[0] == "fld" and t[1] == ("arg", 1) and agg[0] == "agg":
        for k, v in agg[2]:
            if k == t[2]:
                return v
    return t


def fl_none(t):
    return t[0] == "agg" and t[1] == "None"


def is_none_term(v):
    return v[0] == "call" and v[1].endswith("is_none")


def flushes(fl, t):
    return t.args[0]


def cut(fl, cutp, avoid):
    cutp, seen, st, av = set(cutp), set(), [0], set(avoid)
    while st:
        b = st.pop()
        if b in seen or b in av:
            continue
        seen.add(b)
        st += [s for s in fl.succ.get(b, ()) if (b, s) not in cutp]
    return seen


def always_after_never(fl, a, b):
    return b in reach(fl, succs(fl, [a]))
