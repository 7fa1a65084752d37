"""Sockets and threads: what is bound and registered under which token, what becomes of
every accepted connection, and the life of a thread from spawning over its signals to
being joined, followed path by path and from one turn of each loop to the next."""
from rules import *

T = "thread::"
A = ("arg", 1)


def last(c):
    return (c if isinstance(c, str) else c.path).rsplit("::", 1)[-1]


def is_call(t, *names):
    return isinstance(t, tuple) and len(t) > 2 and t[0] == "call" and last(t[1]) in names


def pay(t, v):
    return ("fld", ("var", t, v), "0")


def heads(fl):
    color, out, st = {0: 1}, set(), [(0, iter(fl.succ.get(0, ())))]
    while st:
        b, it = st[-1]
        for s in it:
            if color.get(s) == 1:
                out.add(s)
            elif s not in color:
                color[s] = 1
                st.append((s, iter(fl.succ.get(s, ()))))
                break
        else:
            color[b] = 2
            st.pop()
    return out


def named(q, *names):
    return [c for c in q.calls if last(c) in names]


def run(cx):
    spawning(cx)
    stopping(cx)
    pool(cx)
    reaping(cx)
    slab(cx)
    listening(cx)
    accepting(cx)
    dispatch(cx)


def closure_of(cx, path):
    """the closure of path that runs what was given"""
    out = []
    for p in cx.prog.bodies:
        if p.startswith(path + "::{{closure}}"):
            fl = cx.flow(p)
            if any(last(c) in ("call_once", "call", "call_mut") for c in fl.calls):
                out.append(fl)
    return out[0] if len(out) == 1 else None


def readable(c):
    """registered for reading, to be told more than once"""
    return is_call(c.args[3], "readable") and is_call(c.args[4], "edge", "level")


SYS = lambda t: t[0] == "c" and t[1] == 2048 or t[0] == "const" and str(t[1]).endswith("constants::SYSTEM") or "constants::SYSTEM" in repr(t)


def captured(agg, term):
    """the captures of a closure that hold term"""
    return [n for n, v in agg[2] if v == term] if agg[0] == "agg" else []


def spawning(cx):
    fl = cx.flow(T + "spawn")
    ps = trace(fl)
    if not cx.ob("followed", "spawn", bool(ps), "spawning a thread could not be followed"):
        return
    cl = closure_of(cx, T + "spawn")
    if not cx.ob("runs-its-work", "spawn", cl is not None, "a thread does not run what it is given"):
        return
    for q in ps:
        sp = [c for c in q.calls if c.path.startswith("std::thread::") and last(c) == "spawn"]
        reg = [c for c in q.calls if last(c) == "new2"]
        d = dict(q.ret[2]) if q.ret and q.ret[0] == "agg" else {}
        if not cx.ob("one-thread", "spawn", len(sp) == 1 and len(reg) == 1 and sp[0].dest in [d.get("handle")] + [d.get("handle", ())[1:2]], "not exactly one thread is started and its handle kept"):
            continue
        R = reg[0].dest
        cx.ob("signal-kept", "spawn", d.get("shutdown_event") == ("fld", R, "1"), "the handle does not hold the signal the thread is registered with")
        cap = sp[0].args[-1]
        work, rg = captured(cap, A), captured(cap, ("fld", R, "0"))
        pl = [n for n, v in (cap[2] if cap[0] == "agg" else ()) if v[0] == "fld" and v[1][0] == "var" and v[1][2] == "Ok" and last(v[1][1][1]) == "new" and "Poll" in v[1][1][1]]
        if not cx.ob("given", "spawn", len(work) == 1 and len(rg) == 1 and len(pl) <= 1, "the thread is not given its work, its signal and its poller"):
            continue
        up = lambda n: ("fld", A, n)
        qs = trace(cl)
        for p in qs or []:
            reg2 = named(p, "register")
            wk = [c for c in p.calls if last(c) in ("call_once", "call", "call_mut") and c.args[0] == up(work[0])]
            cx.ob("runs-its-work", "thread", len(wk) == 1, "a thread does not run its work exactly once")
            if len(wk) != 1:
                continue
            a = wk[0].args[1]
            poll = dict(a[2]).get("0") if a[0] == "agg" else None
            own = poll == up(pl[0]) if pl else poll is not None and any(c.dest and poll == pay(c.dest, "Ok") for c in p.calls if last(c) == "new")
            mine = [c for c in reg2 if c.args[0] == poll and c.args[1] == up(rg[0])]
            cx.ob("wakes", "thread", own and len(mine) == 1 and SYS(mine[0].args[2]) and readable(mine[0]) and p.calls.index(mine[0]) < p.calls.index(wk[0]), "the thread's poller is not woken by its handle's signal under the system token")
        cx.ob("followed", "thread", bool(qs), "the thread's own code could not be followed")


def stopping(cx):
    for n in ("join", "shutdown"):
        fl = cx.flow(cx.method("thread::Stoppable", r"ThreadHandle$", n))
        ps = trace(fl)
        cx.ob("followed", n, bool(ps), "%s could not be followed" % n)
        for q in ps or []:
            j = [c for c in q.calls if c.path.endswith("JoinHandle::<T>::join") and c.args[0] == ("fld", A, "handle")]
            cx.ob("joins", n, len(j) == 1, "the thread is not waited for")
            s = [c for c in named(q, "set_readiness") if c.args[0] == ("fld", A, "shutdown_event") and is_call(c.args[1], "readable")]
            if n == "shutdown":
                cx.ob("signals-first", n, len(s) == 1 and bool(j) and q.calls.index(s[0]) < q.calls.index(j[0]), "the thread is not told to stop before it is waited for")


def pool(cx):
    TP = T + "ThreadPool::"
    for q in trace(cx.flow(TP + "new")) or [None]:
        d = dict(q.ret[2]) if q and q.ret and q.ret[0] == "agg" else {}
        cx.ob("pool-starts", "new", d.get("thread_event_readiness") == A and d.get("thread_id", ("?",))[0] == "c" and "threads" in d, "a pool does not keep the signal its owner is told by")
    fl = cx.flow(TP + "spawn", opaque=("^thread::spawn$",))
    cl = closure_of(cx, TP + "spawn")
    ps = trace(fl)
    if not cx.ob("followed", "pool spawn", bool(ps) and cl is not None, "spawning in a pool could not be followed"):
        return
    ID = ("fld", A, "thread_id")
    for q in ps:
        sp = [c for c in q.calls if c.path == "thread::spawn"]
        if not cx.ob("one-thread", "pool spawn", len(sp) == 1, "a pool does not start exactly one thread"):
            continue
        w = [x for x in q.writes if x.root == A and x.proj == (("f", "thread_id"),)]
        old = [("c", 0)] + [x.val for x in w]
        ins = [c for c in named(q, "insert") if c.args[0] == ("fld", A, "threads")]
        ids = [c.args[1] for c in ins]
        try:
            env = lambda k: lambda t: k if t == ID else None
            new = [evalt(w[-1].val, env(k), "usize") for k in (0, 7)] if w else []
            mine = [evalt(ids[0], env(k), "usize") for k in (0, 7)] if ids else []
            ok = bool(new) and new[0] > 0 and new[1] > 7 and bool(mine) and all(o <= m < n or o < m <= n for o, m, n in zip((0, 7), mine, new))
        except (Unknown, Overflow):
            ok = False
        cx.ob("own-id", "pool spawn", ok, "two threads of a pool can have the same id")
        cx.ob("handle-kept", "pool spawn", len(ins) == 1 and ins[0].args[2] == sp[0].dest and q.ret == ids[0], "a thread's handle is not kept under the id that is told")
        cap = sp[0].args[-1]
        f, jn, rd, idn = (captured(cap, t) for t in (("arg", 2), ("fld", A, "joinable"), ("fld", A, "thread_event_readiness"), ids[0] if ids else ()))
        if not cx.ob("given", "pool thread", len(f) == 1 and len(jn) == 1 and len(rd) == 1 and len(idn) >= 1, "a pool's thread is not given its work, its id, the list of those ready and the owner's signal"):
            continue
        up = lambda n: ("fld", A, n[0])
        qs = trace(cl)
        cx.ob("followed", "pool thread", bool(qs), "a pool's thread could not be followed")
        for p in qs or []:
            wk = [c for c in p.calls if last(c) in ("call_once", "call", "call_mut") and c.args[0] == up(f)]
            ok = len(wk) == 1 and wk[0].args[1] == ("agg", None, (("0", ("arg", 2)),))
            cx.ob("runs-its-work", "pool thread", ok, "a pool's thread does not run its work exactly once, with its own poller")
            lst = [c for c in named(p, "push") if term_has(c.args[0], lambda s: is_call(s, "lock") and s[2][0] == up(jn))]
            ok = ok and len(lst) == 1 and lst[0].args[1] in [("fld", A, n) for n in idn]
            cx.ob("listed", "pool thread", ok and p.calls.index(wk[0]) < p.calls.index(lst[0]), "a thread that has run its work is not listed as ready, once, under its id")
            v = p.facts.get(up(rd))
            sg = [c for c in named(p, "set_readiness") if c.args[0] == pay(up(rd), "Some") and is_call(c.args[1], "readable")]
            cx.ob("owner-told", "pool thread", v == ("v", "None") and not sg or v == ("v", "Some") and len(sg) == 1 and bool(lst) and p.calls.index(lst[0]) < p.calls.index(sg[0]), "the owner is not told of a thread that is ready, after it is listed")
    # nobody else makes or changes ids
    for p in sorted(cx.prog.bodies):
        if p.startswith("thread::ThreadPool::") and not re.search(r"::(new|spawn|next_thread_id)(::|$)", p):
            f2 = cx.flow(p)
            cx.ob("own-id", p, not [w for w in f2.writes if w.root == A and w.proj[:1] == (("f", "thread_id"),)], "ids are given out anew")


def listed(fl, X, ret):
    """what is gone through is a list, kept, of all that were ready"""
    if not is_call(X, "next") or X[2][0] != ret or not is_call(ret, "drain"):
        return False
    src = ret[2][0]
    return is_call(src[1][1] if src[0] == "fld" and src[1][0] == "var" else src, "lock") and whole(fl, ret, src)


def reaping(cx):
    TP = T + "ThreadPool::"
    lk = lambda t: term_has(t, lambda s: is_call(s, "lock") and s[2][0] == ("fld", A, "joinable"))
    drawn = lambda t: is_call(t, "pop", "next", "pop_front") and (lk(t))
    for fn in ("join_ready", "join", "shutdown"):
        fl = cx.flow(TP + fn)
        hs = heads(fl)
        ls = {h: trace(fl, [(h, None)], hs) for h in hs}
        pre = trace(fl, None, hs)
        if not cx.ob("followed", "pool " + fn, bool(pre) and all(ls.values()), "%s could not be followed" % fn):
            continue
        ends = 0
        for h, qs in ls.items():
            if not any(drawn(t) for q in qs for t in q.local):
                continue
            for q in qs:
                X = [t for t, v in q.local.items() if drawn(t) and v in (("v", "Some"), ("v", "None"))]
                if len(X) != 1:
                    cx.ob("ready-reaped", fn, False, "those that are ready are not taken one by one")
                    continue
                X = X[0]
                if q.local[X] == ("v", "None"):
                    ends += 1
                    cx.ob("ready-told", fn, q.ret is not None and (bool([c for p in qs for c in named(p, "push", "insert") if c.args[0] == q.ret]) or listed(fl, X, q.ret)), "who was joined is not told")
                    continue
                i = pay(X, "Some") if not is_call(X, "next") else fl.elem(X[2][0]) if False else pay(X, "Some")
                cx.ob("ready-reaped", fn, q.end == h, "reaping stops before all that are ready are reaped")
                rm = [c for c in named(q, "remove", "remove_entry") if c.args[0] == ("fld", A, "threads")]
                ids = {c.args[1] for c in rm}
                cx.ob("ready-forgotten", fn, len(rm) == 1, "the handle of a thread that is ready is not taken out of the pool")
                if len(rm) != 1:
                    continue
                r = q.facts.get(rm[0].dest)
                js = [c for c in q.calls if c.path.endswith("JoinHandle::<T>::join") and term_has(c.args[0], lambda s: s == rm[0].dest)]
                cx.ob("ready-joined", fn, r == ("v", "None") and not js or r == ("v", "Some") and len(js) == 1, "a thread that is ready is not joined, or another one is")
                pu = named(q, "push")
                if not pu and listed(fl, X, X[2][0]):
                    continue
                cx.ob("ready-told", fn, len(pu) == 1 and pu[0].args[1] == list(ids)[0] and (term_has(pu[0].args[1], lambda s: s == X) or pu[0].args[1][0] == "elem"), "who was joined is not told")
        cx.ob("ready-reaped", fn + " end", ends >= 1, "those that are ready are not taken until there are none")
        cx.ob("ready-reaped", fn + " always", all(q.ret is None for q in pre), "a pool can leave those that are ready")
        if fn == "join_ready":
            continue
        lp = [l for l in loops(fl) if whole(fl, l.it, ("fld", A, "threads"))]
        if not cx.ob("all-joined", fn, len(lp) == 1 and lp[0].complete() and not (reach(fl, [0], avoid=[s for _, s in lp[0].done]) & set(fl.ret_blocks)), "not every thread of the pool is joined"):
            continue
        for q in lp[0].body() or []:
            of = lambda t: term_has(t, lambda s: s == lp[0].elem)
            j = [c for c in q.calls if c.path.endswith("JoinHandle::<T>::join") and of(c.args[0])]
            s = [c for c in named(q, "set_readiness") if of(c.args[0]) and is_call(c.args[1], "readable")]
            cx.ob("all-joined", fn + " each", len(j) == 1 and q.end in lp[0].next, "a thread of the pool is not joined")
            if fn == "shutdown":
                cx.ob("signals-first", fn + " each", len(s) == 1 and bool(j) and q.calls.index(s[0]) < q.calls.index(j[0]), "a thread of the pool is not told to stop before it is joined")


def slab(cx):
    """a token is where what was put in is found again, and as many are counted as were put in"""
    TS = "util::TokenSlab::<E>::"
    for q in trace(cx.flow(TS + "new")) or [None]:
        d = dict(q.ret[2]) if q and q.ret and q.ret[0] == "agg" else {}
        cx.ob("tokens", "new", is_const(d.get("token_count", ("?",)), 0) and is_call(d.get("tokens", ("?",)), "with_capacity", "new"), "a slab of tokens does not start empty")
    for q in trace(cx.flow(TS + "insert")) or [None]:
        i = [c for c in named(q, "insert") if c.args[0] == ("fld", A, "tokens")] if q else []
        w = [x.val for x in q.writes if x.proj == (("f", "token_count"),)] if q else []
        n = w[0] if len(w) == 1 else ("?",)
        one = n[0] == "bin" and n[1] == "Add" and {n[2], n[3]} == {("fld", A, "token_count"), ("c", 1)}
        cx.ob("tokens", "insert", len(i) == 1 and i[0].args[1] == ("arg", 2) and term_has(q.ret, lambda s: s == i[0].dest) and (one or is_len_of(n)), "what is put in is not counted once or not found under its token")
    for q in trace(cx.flow(TS + "count")) or [None]:
        cx.ob("tokens", "count", q is not None and (q.ret == ("fld", A, "token_count") or is_len_of(q.ret)), "the number of tokens told is not the one counted")


def is_len_of(t):
    return is_call(t, "len") and t[2][0] == ("fld", A, "tokens")


def listening(cx):
    for im in cx.prog.impls_for("std::convert::From"):
        if not im["self"].endswith("tcp::TCPConfig"):
            continue
        for q in trace(cx.flow(im["items"]["from"])) or [None]:
            d = dict(q.ret[2]) if q and q.ret and q.ret[0] == "agg" else {}
            src = lambda n: d.get(n, ("?",))
            ok = src("host") in (("fld", A, "host"), ("fld", A, "ip")) and all(src(n) == ("fld", A, n) for n in ("port", "forwards", "config_path"))
            cx.ob("own-settings", im["items"]["from"], ok, "a source does not listen where its configuration says")
    n = 0
    for kind, ty, conf in (("TCP", r"tcp::TCP<", "listeners"), ("statsd", r"Statsd$", "conns")):
        fl = cx.flow(cx.method("source::Source", ty, "init"), opaque=("^thread::",))
        hp = ("agg", None, (("0", ("fld", A, "host")), ("1", ("fld", A, "port"))))
        adr = [c for c in fl.calls if last(c) == "to_socket_addrs"]
        if not cx.ob("listens", kind, len(adr) == 1 and adr[0].args[0] == hp, "the source does not listen on the configured host and port"):
            continue
        D = pay(adr[0].dest, "Ok")
        ls = [l for l in loops(fl) if whole(fl, l.it, D) or l.it == D]
        if not cx.ob("listens", kind + " loop", len(ls) == 1 and ls[0].complete(), "the source does not listen on every address of its host"):
            continue
        l = ls[0]
        hold = None
        for q in l.body() or []:
            b = [c for c in named(q, "bind") if c.args[0] == l.elem]
            i = [c for c in named(q, "insert") if term_has(c.args[1], lambda s: bool(b) and s == b[0].dest)]
            cx.ob("listens", kind + " each", len(b) == 1 and len(i) == 1 and i[0].args[1] == pay(b[0].dest, "Ok"), "an address of the host is not listened on")
            for c in i:
                hold = c.args[0]
            w = [x for x in q.writes if x.proj[-1:] == (("f", "token_count"),)]
            n += 1
        for q in trace(fl, l.done) or []:
            r = dict(q.ret[2]) if q.ret and q.ret[0] == "agg" else {}
            cx.ob("keeps-listeners", kind, hold is not None and term_has(r.get(conf, ("?",)), lambda s: s == hold), "what listens is not kept")
            if kind == "TCP":
                tok = r.get("stream_events_token", ("?",))
                tc = dict(r[conf][2]).get("token_count") if r.get(conf, ("?",))[0] == "agg" else None
                new2 = [c.dest for c in q.calls if last(c) == "new2"]
                tp = [c for c in q.calls if c.path == "thread::ThreadPool::new"]
                same = tok == tc or tok[0] == "agg" and dict(tok[2]).get("0") == tc or is_call(tok, "from") and tok[2][0] == tc or is_len_of(tok)
                cx.ob("own-token", kind, tc is not None and same, "the pool's signal can share a token with a listener")
                cx.ob("pool-signal", kind, len(new2) == 1 and len(tp) == 1 and r.get("stream_events") == ("fld", new2[0], "0") and r.get("handlers") == tp[0].dest
                      and tp[0].args[0] == ("agg", "Some", (("0", ("fld", new2[0], "1")),)), "the source does not hear of handlers that ended")
        # registration
        fr = cx.flow(cx.method("source::Source", ty, "run"), opaque=("^thread::", "accept_loop", "^util::send$", "^protocols::"))
        C = ("fld", ("fld", A, conf), "tokens")
        rl = [x for x in loops(fr) if whole(fr, x.it, C) or is_call(x.it, "iter") and x.it[2][0] == C]
        if not cx.ob("registered", kind, len(rl) == 1 and rl[0].complete(), "not everything that listens is registered"):
            continue
        e = rl[0].elem
        for q in rl[0].body() or []:
            rg = [c for c in named(q, "register") if c.args[1] == ("fld", e, "1")]
            ok = len(rg) == 1 and rg[0].args[0] == ("arg", 3) and (rg[0].args[2] in (("fld", e, "0"),) or is_call(rg[0].args[2], "from") and rg[0].args[2][2][0] == ("fld", e, "0") or rg[0].args[2][0] == "agg" and dict(rg[0].args[2][2]).get("0") == ("fld", e, "0"))
            panic = q.end not in rl[0].next
            cx.ob("registered", kind + " each", ok and readable(rg[0]) and not panic, "something that listens is not registered for reading under its token")
        polls = [c.blk for c in fr.calls if last(c) in ("poll", "accept_loop")]
        cx.ob("registered", kind + " before polling", bool(polls) and not (reach(fr, [0], avoid=[s for _, s in rl[0].done]) & set(polls)), "the source can poll before everything is registered")
        if kind == "TCP":
            sg = [c for c in fr.calls if last(c) == "register" and c.args[1] == ("fld", A, "stream_events")]
            cx.ob("registered", "handlers ended", len(sg) == 1 and sg[0].args[0] == ("arg", 3) and sg[0].args[2] == ("fld", A, "stream_events_token") and readable(sg[0]) and not always_before(fr, blks(sg), polls), "the source does not hear of handlers that ended")
    cx.floor("addresses listened on", n, 2)


def accepting(cx):
    F = "source::tcp::TCP::<H>::spawn_stream_handlers"
    fl = cx.flow(F, opaque=(r"^thread::",))
    hs = heads(fl)
    qs = [q for h in hs for q in trace(fl, [(h, None)], hs) or []]
    pre = trace(fl, None, hs)
    if not cx.ob("followed", "accepting", bool(qs) and bool(pre) and all(q.ret is None for q in pre), "accepting connections could not be followed"):
        return
    L = ("fld", ("fld", A, "listeners"), "tokens")
    n = 0
    for q in qs:
        ac = named(q, "accept")
        if not cx.ob("accepts", "listener", len(ac) == 1 and is_call(ac[0].args[0], "index", "index_mut", "get_unchecked") and ac[0].args[0][2][0] == L and "arg', 3" in repr(ac[0].args[0][2][1]), "connections are not accepted from the listener they arrived at"):
            continue
        R = ac[0].dest
        v = q.facts.get(R)
        sp = [c for c in q.calls if c.path.endswith("ThreadPool::spawn")]
        n += 1
        if v == ("v", "Ok"):
            st = ("fld", pay(R, "Ok"), "0")
            cap = sp[0].args[1] if sp else ("?",)
            s, ch = captured(cap, st), captured(cap, ("arg", 2))
            if not cx.ob("served", "connection", len(sp) == 1 and sp[0].args[0] == ("fld", A, "handlers") and len(s) == 1 and len(ch) == 1 and q.end in hs, "an accepted connection is not served by a thread of its own, or no further one is accepted"):
                continue
            served(cx, F, s[0], ch[0])
        elif v == ("v", "Err"):
            e = pay(R, "Err")
            k = [f for t, f in q.facts.items() if is_call(t, "kind") and t[2][0] == e]
            kind = k[0][1] if k and isinstance(k[0], tuple) else None
            if kind in ("ConnectionAborted", "Interrupted", "TimedOut"):
                cx.ob("presses-on", kind, q.end in hs and not sp, "an attempt that fails ends accepting although more may be waiting")
            elif kind == "WouldBlock":
                cx.ob("until-none", kind, q.ret is not None and q.ret[0] == "agg" and q.ret[1] == "Ok", "that none is waiting is taken for a failure")
            else:
                gone = set().union(*[f for t, f in q.facts.items() if t[0] == "not" and is_call(t[1], "kind") and t[1][2][0] == e]) if kind is None else {"ConnectionAborted", "Interrupted", "WouldBlock"}
                cx.ob("presses-on", "other", q.end in hs or {"ConnectionAborted", "Interrupted"} <= gone, "an attempt that was aborted or interrupted ends accepting although more may be waiting")
                cx.ob("until-none", "none", "WouldBlock" in gone, "that none is waiting is not told from a failure")
                cx.ob("until-none", "other", not sp and (q.end in hs or q.ret is not None), "a failed attempt is served")
        else:
            cx.ob("accepts", "result", False, "what accepting gives is not looked at")
    cx.floor("outcomes of accepting", n, 4)


def served(cx, F, s, ch):
    up = lambda n: ("fld", A, n)
    cs = [cx.flow(p) for p in cx.prog.bodies if p.startswith(F + "::{{closure}}")]
    cs = [f for f in cs if any(last(c) == "handle_stream" for c in f.calls)]
    if not cx.ob("served", "handler", len(cs) == 1, "no handler is given the connection"):
        return
    for q in trace(cs[0]) or [None]:
        h = named(q, "handle_stream") if q else []
        r = named(q, "register") if q else []
        ok = len(h) == 1 and h[0].args[1:4] == [up(ch), ("arg", 2), up(s)] and is_call(h[0].args[0], "new", "default")
        cx.ob("served", "handler called", ok, "the handler is not given the connection, the forwards and its poller")
        cx.ob("served", "registered", ok and len(r) == 1 and r[0].args[:2] == [("arg", 2), up(s)] and readable(r[0]) and not SYS(r[0].args[2]) and q.calls.index(r[0]) < q.calls.index(h[0]), "the connection is not registered with the handler's poller before the handler runs")


def dispatch(cx):
    fl = cx.flow("source::tcp::TCP::<H>::accept_loop", opaque=(r"^thread::", "spawn_stream_handlers", "^util::send$"))
    ls = [l for l in loops(fl) if any(last(c) == "token" and c.args[0] == l.elem for c in fl.calls)]
    if not cx.ob("dispatch", "loop", len(ls) == 1, "what the poller reports is not looked at one by one"):
        return
    l = ls[0]
    tok = [c.dest for c in fl.calls if last(c) == "token"][0]
    mine = ("fld", A, "stream_events_token")
    n = 0
    for q in l.body() or []:
        eq = None
        sys = [f for t, f in q.facts.items() if t in (("fld", tok, "0"), tok)]
        if any(isinstance(f, tuple) for f in sys) or named(q, "shutdown"):
            continue  # told to stop: C01
        for t, f in q.facts.items():
            x = t if t[0] in ("bin", "call") else ("?",)
            ab = x[2:] if x[0] == "bin" else x[2] if x[0] == "call" and last(x[1]) in ("eq", "ne") else ()
            if len(ab) >= 2 and mine in ab and tok in ab and f[0] == "c":
                eq = f[1] if x[1] == "Eq" or last(str(x[1])) == "eq" else not f[1]
        rd = [c for c in q.calls if last(c) == "join_ready"]
        ac = [c for c in q.calls if last(c) == "spawn_stream_handlers"]
        n += 1
        if eq is True:
            cx.ob("dispatch", "handlers ended", len(rd) == 1 and rd[0].args[0] == ("fld", A, "handlers") and not ac and q.end in l.next, "handlers that ended are not reaped")
        else:
            cx.ob("dispatch", "listener", eq is False and len(ac) == 1 and not rd and ac[0].args[1] == ("arg", 2) and ac[0].args[2] in (tok,), "connections that wait are not accepted from the listener they wait at")
            bad = [c for c in named(q, "deregister") if q.facts.get(ac[0].dest) != ("v", "Err")] if ac else []
            cx.ob("dispatch", "keeps listening", not bad and q.end in l.next, "a listener that works is given up")
    cx.floor("things the poller reports", n, 2)
    polls = [c for c in fl.calls if last(c) == "poll"]
    cx.ob("dispatch", "polls", bool(polls) and all(c.args[0] == ("arg", 3) for c in polls), "the source polls something else than what it registered with")
