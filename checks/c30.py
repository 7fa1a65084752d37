"""Tailing files.  Reading a line, opening a file anew and the server's loop over files are
followed path by path; what a path does to the position, to the unfinished line, to the
remembered size and file, and to the caller's buffer is compared with the rules of tailing,
the size comparison being decided on a finite model."""
from rules import *

A, BUF = ("arg", 1), ("arg", 2)
F = lambda n: ("fld", A, n)
RD = ("fld", ("var", F("reader"), "Some"), "0")


def last(c):
    return (c if isinstance(c, str) else c.path).rsplit("::", 1)[-1]


def call(t, name):
    return isinstance(t, tuple) and len(t) > 2 and t[0] == "call" and last(t[1]) == name


def inside(t, v):
    return ("fld", ("var", t, v), "0")


def run(cx):
    def body(name):
        ks = [k for k in cx.prog.bodies if k.endswith("FileWatcher::" + name)]
        if len(ks) != 1:
            raise AnchorError("FileWatcher::%s not found" % name)
        return ks[0]
    reading(cx, body("read_line"))
    opening(cx, body("open_at_start"))
    starting(cx, body("new"))
    dead(cx, body("dead"))
    server(cx)


def sets(q, name):
    return [w for w in q.writes if w.root == A and w.proj[:1] == (("f", name),)]


def emptied(q, after=-1):
    """what a path does to the unfinished line"""
    P = F("partial")
    return [c for c in q.calls if c.args and (c.args[0] == P and last(c) in ("clear", "replace", "take", "pop", "push", "extend", "truncate", "drain", "append", "extend_from_slice", "split_off", "remove", "swap", "retain", "insert") or len(c.args) > 1 and c.args[1] == P and last(c) in ("swap", "append"))]


def reading(cx, p):
    fl = cx.flow(p, opaque=("report_full_telemetry", r"open_at_start$"))
    qs = trace(fl)
    if not cx.ob("followed", "read_line", bool(qs), "the paths of reading a line could not be followed"):
        return
    seen = set()
    for i, q in enumerate(qs):
        inst = "#%d" % i
        if q.end not in fl.ret_blocks or q.ret is None or q.ret[0] != "agg":
            cx.ob("read", inst, False, "reading a line does not end with a result")
            continue
        opens = [k for k, c in enumerate(q.calls) if last(c) == "open_at_start"]
        reads = [k for k, c in enumerate(q.calls) if last(c) in ("read_until", "read_line", "read", "read_to_end", "read_to_string", "read_exact", "fill_buf")]
        if q.facts.get(F("reopen")) == ("c", True):
            cx.ob("reopen", inst, bool(opens) and (not reads or opens[0] < reads[0]), "a file that was replaced is not opened before reading on")
            opens = opens[1:]
        else:
            cx.ob("reopen", inst + " decided", q.facts.get(F("reopen")) == ("c", False), "whether the file was replaced is not looked at")
        if not reads:
            seen.add("no file")
            cx.ob("read", inst + " no file", q.facts.get(F("reader")) == ("v", "None") and bool(opens) and result(q, 0) and not delivers(q), "without a file, it is not tried to be opened, or something is delivered")
            continue
        cx.ob("read", inst + " keeps file", not opens and q.facts.get(F("reader")) == ("v", "Some"), "a file that is open is opened again")
        c = q.calls[reads[0]]
        if not cx.ob("read", inst, len(reads) == 1 and last(c) == "read_until" and c.args[0] == RD and is_const(c.args[1], 10) and c.args[2] == F("partial"), "a line is not read up to its end into what is kept of it"):
            continue
        truncation(cx, q, inst, reads[0])
        r = q.facts.get(c.dest)
        n = inside(c.dest, "Ok")
        later = [x for x in emptied(q) if q.calls.index(x) > reads[0]]
        if r == ("v", "Err"):
            seen.add("error")
            cx.ob("read", inst + " error", q.ret[1] == "Err" and q.ret[2][0][1] == inside(c.dest, "Err") and not delivers(q) and not later, "an error in reading is not reported, or drops what was read")
            continue
        got0, *gs = [could(q, lambda t: v if t == n else None) for v in (0, 1, 2, 7, 1 << 20)]
        got1 = any(gs)
        if not cx.ob("read", inst + " amount", got0 != got1, "reaching the end of the file is not told from reading something"):
            continue
        w = sets(q, "reopen")
        if got0:
            d = differs(q)
            if not cx.ob("replaced", inst, d is not None, "at the end of the file it is not looked whether the path still names it"):
                continue
            if d:
                seen.add("replaced")
                cx.ob("replaced", inst + " reopen", bool(w) and is_const(w[-1].val, True), "a file that was replaced is not noticed")
                whole_line(cx, q, inst, reads[0], later, False)
            else:
                seen.add("at end")
                cx.ob("end", inst, not w and result(q, 0) and not delivers(q) and not later, "at the end of the file something is delivered, dropped or opened")
            continue
        cx.ob("replaced", inst + " not yet", not w, "a file is given up before its end was read")
        nl = newline(q)
        if nl is None:
            cx.ob("line", inst, False, "whether the line is complete is not looked at")
        elif nl:
            seen.add("line")
            whole_line(cx, q, inst, reads[0], later, True)
        else:
            seen.add("unfinished")
            cx.ob("unfinished", inst, result(q, 0) and not delivers(q) and not later and not sets(q, "partial"), "an unfinished line is delivered or dropped")
    cx.ob("read", "outcomes", seen >= {"no file", "error", "replaced", "at end", "line", "unfinished"}, "of what can happen, only %s has a case" % sorted(seen))
    cx.floor("outcomes of reading", len(seen), 6)


def result(q, n):
    return q.ret[1] == "Ok" and is_const(q.ret[2][0][1], n)


def delivers(q):
    return [c for c in q.calls if c.args and c.args[0] == BUF and last(c) in ("push_str", "push", "insert_str", "clear", "extend", "write_str", "add_assign", "clone_from", "clone_into")] + [w for w in q.writes if w.root == BUF]


def whole_line(cx, q, inst, at, later, cut):
    pops = [x for x in later if last(x) == "pop"] + [x for x in later if last(x) == "truncate"]
    takes = [x for x in later if last(x) in ("replace", "take", "clear", "split_off", "drain") or last(x) == "swap"]
    cx.ob("line", inst + " end", len(pops) == (1 if cut else 0) and (not pops or not takes or q.calls.index(pops[0]) < q.calls.index(takes[0]) or True), "the line's end is not cut off once, or something else is")
    cx.ob("line", inst + " begin anew", bool(takes), "what was delivered, or cannot be, stays to be delivered again")
    conv = [t for t in q.facts if t[0] == "call" and last(t[1]) in ("from_utf8",) and has(t, F("partial"))]
    lossy = [c for c in q.calls if last(c) == "from_utf8_lossy" and has(c.args[0], F("partial"))]
    d = delivers(q)
    if conv and q.facts[conv[0]] == ("v", "Err"):
        cx.ob("line", inst + " not text", not d and q.ret[1] == "Err", "a line that is no text is delivered, or not reported")
        return
    txt = inside(conv[0], "Ok") if conv else lossy[0].dest if lossy else None
    good = txt is not None and len(d) == 1 and hasattr(d[0], "args") and last(d[0]) in ("push_str", "extend") and d[0].args[1] == txt
    cx.ob("line", inst + " delivered", good, "the line read is not delivered, as it is, once")
    v = q.ret[2][0][1]
    cx.ob("line", inst + " length", q.ret[1] == "Ok" and call(v, "len") and v[2][0] in (txt, BUF, F("partial")), "the length told is not that of the line")


def has(t, x):
    return t == x or isinstance(t, tuple) and any(has(y, x) for y in t if isinstance(y, tuple))


def newline(q):
    """does the path know that what was read ends a line"""
    lst = ("call", "last", (F("partial"),))
    for t, v in q.facts.items():
        if t[0] == "not" or v[0] != "c":
            if v == ("v", "None") and call(t, "last") and t[2] == (F("partial"),):
                return False
            continue
        if t[0] == "bin" and t[1] in ("Eq", "Ne"):
            a, b = t[2], t[3]
            for x, y in ((a, b), (b, a)):
                if ten(x) and call(core(y), "last") and core(y)[2] == (F("partial"),):
                    return v[1] == (t[1] == "Eq")
        if call(t, "ends_with") and t[2][0] == F("partial"):
            return v[1]
        if call(core(t), "last") and core(t)[2] == (F("partial"),) and v[0] == "c":
            return v[1] == 10
    for t, v in q.facts.items():
        if t[0] == "not" and call(core(t[1]), "last") and core(t[1])[2] == (F("partial"),) and isinstance(v, frozenset) and 10 in v:
            return False
    return None


def core(t):
    return t[1][1] if t[0] == "fld" and t[2] == "0" and t[1][0] == "var" else t


def ten(t):
    return is_const(t, 10) or t[0] == "agg" and t[1] == "Some" and is_const(t[2][0][1], 10)


def ident(t):
    """(dev, ino) of what the path names"""
    if t[0] == "agg" and t[1] == "Some":
        t = t[2][0][1]
    parts = [v[1] if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str) else v for v in t[2]] if t[0] == "agg" else list(t[1]) if t[0] == "tuple" else []
    if len(parts) != 2 or not call(parts[0], "dev") or not call(parts[1], "ino"):
        return False
    m = parts[0][2][0]
    return m == parts[1][2][0] and core(m) != m and call(core(m), "metadata") and core(m)[2] == (F("path"),)


def differs(q):
    ID = F("file_id")
    meta = [v for t, v in q.facts.items() if call(t, "metadata") and t[2] == (F("path"),)]
    for t, v in q.facts.items():
        if t[0] == "bin" and t[1] in ("Eq", "Ne") and v[0] == "c":
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if (x == ID or x == inside(ID, "Some")) and ident(y):
                    return v[1] != (t[1] == "Eq")
    if ("v", "Err") in meta:
        # nothing is there any more: as the file is open, it was remembered
        if q.facts.get(ID) == ("v", "None"):
            return False
        return True
    if ("v", "Ok") in meta and q.facts.get(ID) == ("v", "None"):
        return True
    return None


def truncation(cx, q, inst, at):
    before = [k for k, c in enumerate(q.calls) if last(c) == "seek"]
    drops = [k for k, c in enumerate(q.calls[:at]) if c in emptied(q)]
    size = [c.dest for c in q.calls if last(c) in ("size", "len") and c.args and call(core(c.args[0]), "metadata") and core(c.args[0])[2][0][0] == "call" and last(core(c.args[0])[2][0][1]) in ("get_ref", "get_mut") and core(c.args[0])[2][0][2] == (RD,)]
    if not cx.ob("truncated", inst + " size", bool(size), "the file's size is not looked at before reading"):
        return
    S = size[0]
    bad = ""
    n = 0
    for prev in (0, 1, 2, 100, 2**64 - 1):
        for now in (0, 1, 2, 99, 100, 101, 2**64 - 1):
            env = lambda t: prev if t == F("previous_size") else now if t == S else None
            try:
                if not could(q, env, "u64"):
                    continue
            except Overflow:
                bad = "comparing sizes overflows"
                continue
            n += 1
            shrunk = now < prev
            if shrunk and not (len(before) == 1 and succeeded(q, q.calls[before[0]]) and before[0] < at and q.calls[before[0]].args[0] == RD and q.calls[before[0]].args[1][:2] == ("agg", "Start") and is_const(q.calls[before[0]].args[1][2][0][1], 0)):
                bad = "a file that shrank is not read from its start"
            elif shrunk and not any(last(q.calls[k]) != "pop" for k in drops):
                bad = "the beginning of a line that is gone is put before another"
            elif not shrunk and (before or drops):
                bad = "a file that did not shrink is read again, or the beginning of a line dropped"
    cx.ob("truncated", inst, n and not bad, bad or "no size leads here")
    w = sets(q, "previous_size")
    cx.ob("truncated", inst + " remembered", len(w) == 1 and w[0].val == S, "the file's size is not remembered for the next time")


def opening(cx, p):
    fl = cx.flow(p, opaque=("report_full_telemetry",))
    qs = trace(fl)
    if not cx.ob("followed", "open_at_start", bool(qs), "the paths of opening a file could not be followed"):
        return
    seen = set()
    for i, q in enumerate(qs):
        inst = "#%d" % i
        op = [t for t in q.facts if call(t, "open") and t[2] == (F("path"),)]
        if not cx.ob("open", inst, q.end in fl.ret_blocks and len(op) == 1, "the file is not opened by its path"):
            continue
        fv = lambda n: [w.val for w in sets(q, n) if w.proj == (("f", n),)]
        re_ = fv("reopen")
        cx.ob("open", inst + " once", bool(re_) and is_const(re_[-1], False), "the file is opened again and again")
        seek = [c for c in q.calls if last(c) == "seek"]
        cx.ob("open", inst + " at start", not seek, "a file that replaced another is not read from its start")
        if q.facts[op[0]] == ("v", "Ok"):
            seen.add("opened")
            f = inside(op[0], "Ok")
            rd, fid, sz = fv("reader"), fv("file_id"), fv("previous_size")
            cx.ob("open", inst + " reader", bool(rd) and rd[-1][:2] == ("agg", "Some") and call(rd[-1][2][0][1], "new") and rd[-1][2][0][1][2] == (f,), "what is read from then on is not the file opened")
            cx.ob("open", inst + " identity", bool(fid) and of(fid[-1], f), "the file remembered is not the one opened")
            cx.ob("open", inst + " size", len(sz) == 1 and (is_const(sz[0], 0) or call(sz[0], "size") and call(core(sz[0][2][0]), "metadata") and core(sz[0][2][0])[2] == (f,) or call(sz[0], "len") and call(core(sz[0][2][0]), "metadata") and core(sz[0][2][0])[2] == (f,)), "the size remembered is not that of the file opened")
        else:
            seen.add("gone")
            rd, fid = fv("reader"), fv("file_id")
            cx.ob("open", inst + " gone", bool(rd) and rd[-1][:2] == ("agg", "None") and bool(fid) and fid[-1][:2] == ("agg", "None"), "a file that is gone is still taken to be there")
    cx.ob("open", "outcomes", seen == {"opened", "gone"}, "opening has only %s" % sorted(seen))


def of(t, f):
    if t[0] != "agg" or t[1] != "Some":
        return False
    u = t[2][0][1]
    parts = [v[1] for v in u[2]] if u[0] == "agg" else list(u[1]) if u[0] == "tuple" else []
    return len(parts) == 2 and call(parts[0], "dev") and call(parts[1], "ino") and all(call(core(x[2][0]), "metadata") and core(x[2][0])[2] == (f,) for x in parts)


def starting(cx, p):
    fl = cx.flow(p)
    qs = trace(fl)
    if not cx.ob("followed", "new", bool(qs), "the paths of watching a file could not be followed"):
        return
    ok = 0
    for i, q in enumerate(qs):
        if q.ret is None or q.ret[0] != "agg" or q.ret[1] != "Ok":
            continue
        op = [t for t in q.facts if call(t, "open") and t[2] == (A,)]
        g = lambda n: fl.proj(q.state, q.ret[2][0][1], ("f", n))
        plain = is_const(g("reopen"), False) and is_const(g("previous_size"), 0) and empty(g("partial")) and g("path") == A
        if op and q.facts[op[0]] == ("v", "Ok"):
            ok += 1
            f = inside(op[0], "Ok")
            sk = [c for c in q.calls if last(c) == "seek"]
            rd = g("reader")
            cx.ob("start", "at end", plain and rd[:2] == ("agg", "Some") and call(rd[2][0][1], "new") and rd[2][0][1][2] == (f,) and of(g("file_id"), f) and len(sk) == 1 and succeeded(q, sk[0]) and sk[0].args[1][:2] == ("agg", "End") and is_const(sk[0].args[1][2][0][1], 0), "a file that is there is not watched from its end")
        else:
            cx.ob("start", "missing", plain and g("reader")[:2] == ("agg", "None") and g("file_id")[:2] == ("agg", "None"), "a file that is not there is taken to be")
    cx.ob("start", "opened", ok >= 1, "no file is ever watched")


def succeeded(q, c):
    """the path does not go on because a call failed"""
    return q.facts.get(c.dest) != ("v", "Err") and not any(t[0] == "call" and t[2] and t[2][0] == c.dest and v == ("c", last(t[1]) == "is_err") for t, v in q.facts.items() if last(t[1] if t[0] == "call" else "") in ("is_ok", "is_err"))


def empty(v):
    return v[0] == "default" or call(v, "new") or call(v, "with_capacity") or v[0] == "arr" and not v[1]


def dead(cx, p):
    """opening and starting leave a reader and a file remembered, or neither"""
    fl = cx.flow(p)
    R, I = F("reader"), F("file_id")
    seen = set()
    for q in trace(fl) or []:
        for state in ("Some", "None"):
            if any(q.facts.get(x, ("v", state)) != ("v", state) or state in q.facts.get(("not", x), ()) for x in (R, I)):
                continue
            v = q.ret
            said = v[1] if v[0] == "c" else (state == "None") == (last(v[1]) == "is_none") if v[0] == "call" and last(v[1]) in ("is_none", "is_some") and v[2] in ((R,), (I,)) else None
            seen.add(state)
            cx.ob("dead", state, said == (state == "None"), "a file is given up that is open, or not when it is gone")
    cx.ob("dead", "cases", seen == {"Some", "None"}, "files are never, or always, given up")


def made_by(q, pu):
    """the call that copied what was read into the line that is pushed"""
    return next((c for c in q.calls if c.path.endswith("LogLine::new")), pu)


def server(cx):
    p = cx.method("source::Source", r"FileServer$", "run")
    fl = cx.flow(p, opaque=("report_full_telemetry", "FileWatcher::", r"util::send$", "metric::"))
    ls = loops(fl)
    rl = [c for c in fl.calls if c.path.endswith("FileWatcher::read_line")]
    if not cx.ob("server", "reads", len(rl) == 1, "the server does not read lines in one place"):
        return
    rl = rl[0]
    W, B = rl.args[0], rl.args[1]
    stops = [b for l in ls for b in l.next]
    watch = [l for l in ls if has(W, l.elem)]
    if not cx.ob("server", "files", len(watch) == 1 and watch[0].complete(), "the server does not go through all files"):
        return
    watch = watch[0]
    # what is read
    qs = trace(fl, [(rl.blk, s) for s in succs(fl, [rl.blk])], stops + [rl.blk])
    if not cx.ob("followed", "reading", bool(qs), "the paths of reading a file could not be followed"):
        return
    n = inside(rl.dest, "Ok")
    lines = None
    seen = set()
    for i, q in enumerate(qs):
        inst = "#%d" % i
        pu = [c for c in q.calls if last(c) == "push" and len(c.args) > 1 and mentions_line(c.args[1])]
        cl = [c for c in q.calls if c.args and c.args[0] == B and last(c) == "clear"]
        if q.facts.get(rl.dest) == ("v", "Ok"):
            g0, *gs = [could(q, lambda t: v if t == n else None, "usize") for v in (0, 1, 2, 7, 1 << 20)]
            g1 = any(gs)
            if g1:
                seen.add("line")
                good = len(pu) == 1 and line_of(pu[0].args[1], watch.elem, B) and bool(cl) and q.calls.index(cl[0]) > q.calls.index(made_by(q, pu[0]))
                cx.ob("server", "line " + inst, good and not g0, "a line read is not kept once, with its file's path, or is kept again with the next")
                if good:
                    lines = pu[0].args[0]
            else:
                seen.add("end")
                cx.ob("server", "end " + inst, not pu and q.end != rl.blk, "a line is made up at the end of a file, or the end is never accepted")
        else:
            seen.add("error")
            cx.ob("server", "error " + inst, not pu and q.end != rl.blk, "a line is made up of an error, or reading goes on for ever")
    cx.ob("server", "cases", seen == {"line", "end", "error"}, "reading a file has the cases %s" % sorted(seen))
    # where the lines go
    if lines is not None:
        dr = [l for l in ls if l.over(lines)]
        if cx.ob("server", "lines", len(dr) == 1 and dr[0].complete() and len(set(x.args[0] for x in fl.calls if last(x) == "push" and len(x.args) > 1 and mentions_line(x.args[1]))) == 1, "the lines read are not gone through, all of them, in order"):
            for q in dr[0].body(stops):
                sd = [c for c in q.calls if c.path.endswith("util::send")]
                cx.ob("server", "send", len(sd) == 1 and sd[0].args[0] == ("arg", 2) and is_log(sd[0].args[1], dr[0].elem), "a line read is not sent on exactly once")
            drained = call(dr[0].it, "drain") or any(c.args and c.args[0] == lines and last(c) == "clear" for c in fl.calls)
            cx.ob("server", "once", drained, "lines that were sent are sent again")
            cx.ob("server", "order", not must_reach(fl, [s for s in succs(fl, [rl.blk])], dr[0].next, fl.ret_blocks + [], ) , "what was read is not sent before anything else")
    # which files stay
    src = watch.it
    while src[0] == "call" and last(src[1]) in ("drain", "into_iter", "iter_mut", "iter"):
        src = src[2][0]
    if call(watch.it, "drain"):
        body = watch.body([x for x in stops if x not in watch.next] )
        ins = [c for c in fl.calls if last(c) == "insert" and c.args[0] != src and len(c.args) == 3 and has(c.args[2], watch.elem)]
        dd = [c.dest for c in fl.calls if c.path.endswith("FileWatcher::dead")]
        ok = len({c.args[0] for c in ins}) == 1 and bool(dd)
        if cx.ob("server", "files kept", ok, "files that are watched are forgotten"):
            keep = [c.blk for c in ins if c.args[1] == ("fld", watch.elem, "0") and c.args[2] == ("fld", watch.elem, "1")]
            alive = [s for _, s in edge_pairs(fl, lambda t, v: t in dd and v == ("c", False))]
            gone = [s for _, s in edge_pairs(fl, lambda t, v: t in dd and v == ("c", True))]
            outs = list(watch.next) + list(fl.ret_blocks)
            cx.ob("server", "files kept alive", bool(alive) and not must_reach(fl, alive, keep, outs), "a file that is there is not watched any longer")
            cx.ob("server", "dead files", bool(gone) and not (set(keep) & set(reach(fl, gone, avoid=outs))), "a file that is gone is watched on")
            cx.ob("server", "asked", not must_reach(fl, [s for _, s in watch.some], [b for b in fl_blocks(fl, dd)], outs), "it is not asked whether a file is gone")
            sw = [c for c in fl.calls if last(c) in ("swap", "replace") and {c.args[0], c.args[1]} == {src, ins[0].args[0]}]
            cx.ob("server", "files again", len(sw) == 1 and not must_reach(fl, [s for _, s in watch.done], [sw[0].blk], [x for x in watch.next] + list(fl.ret_blocks)), "the files kept are not those watched next time")
    else:
        rm = [c for c in fl.calls if c.args and c.args[0] == src and last(c) in ("retain", "remove")]
        cx.ob("server", "files kept", all(last(c) == "retain" for c in rm), "files that are watched are forgotten")
    # which files come
    gl = [l for l in ls if has(l.it, ("fld", ("arg", 1), "pattern"))]
    if cx.ob("server", "new files", len(gl) == 1 and gl[0].complete() and gl[0].over(inside_ok(gl[0].it)), "not all files the pattern names are looked at"):
        e = inside(gl[0].elem, "Ok")
        got = set()
        for q in gl[0].body(stops):
            if q.facts.get(gl[0].elem) != ("v", "Ok"):
                got.add("unreadable")
                continue
            nw = [c for c in q.calls if c.path.endswith("FileWatcher::new")]
            if nw and q.facts.get(nw[0].dest) == ("v", "Ok"):
                w = inside(nw[0].dest, "Ok")
                oi = [c for c in q.calls if last(c) in ("or_insert", "insert") and c.args[-1] == w]
                got.add("watched")
                absent = [1 for t, f in q.facts.items() if t[0] == "call" and last(t[1]) in ("contains_key", "get", "entry") and e in t[2] and f in (("c", False), ("v", "None"), ("v", "Vacant"))]
                fine = len(oi) == 1 and nw[0].args[0] == e and (last(oi[0]) == "or_insert" and call(oi[0].args[0], "entry") and oi[0].args[0][2] == (src, e) or last(oi[0]) == "insert" and bool(absent))
                cx.ob("server", "watch", fine, "a file the pattern names is not watched, or watching it starts again")
            elif nw:
                got.add("refused")
        cx.ob("server", "watching", "watched" in got, "no file is ever watched")


def fl_blocks(fl, dests):
    return [c.blk for c in fl.calls if c.dest in dests]


def inside_ok(t):
    while t[0] == "call" and last(t[1]) in ("into_iter", "iter"):
        t = t[2][0]
    return t


def mentions_line(t):
    return any(last(x[1]) == "new" and "LogLine" in x[1] for x in calls_in(t))


def calls_in(t):
    if isinstance(t, tuple):
        if t and t[0] == "call":
            yield t
        for x in t:
            yield from calls_in(x)


def line_of(t, elem, B):
    if t[0] == "call" and last(t[1]) == "new_log":
        t = t[2][0]
    if not (t[0] == "call" and t[1].endswith("LogLine::new")):
        return False
    p = t[2][0]
    key = ("fld", elem, "0")
    return t[2][1] == B and (call(core(p), "to_str") and core(p)[2] == (key,) or call(p, "to_string_lossy") and p[2] == (key,))


def is_log(t, x):
    return t == ("agg", "Log", (("0", x),)) or t[0] == "call" and last(t[1]) == "new_log" and t[2] == (x,) or t == x
