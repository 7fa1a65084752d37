"""Length-prefixed payloads.  One reading of the stream is the unit: from each of the two
reads the paths to the next read or to the return are evaluated on every small state
(bytes of the prefix, bytes of the payload, sizes around the limit), so that the fields
that survive a wake-up always say exactly what has arrived."""
from rules import *

SELF = ("arg", 1)
LIMIT = 10


def last(c):
    return (c if isinstance(c, str) else c.path).rsplit("::", 1)[-1]


def call(t, *names):
    return isinstance(t, tuple) and len(t) > 2 and t[0] == "call" and last(t[1]) in names


def inside(t, v):
    return ("fld", ("var", t, v), "0")


def field(t):
    """the field of self a term is the value of"""
    if t[0] == "fld" and t[1] == SELF:
        return t[2]
    if t[0] == "phi" and t[2] == ("t", SELF) and len(t[3]) == 1 and t[3][0][0] == "f":
        return t[3][0][1]
    return None


def run(cx):
    frames(cx)
    errors(cx)
    for ty, parse in (("NativeStreamHandler", r"protobuf.*parse_from_bytes$"), ("AvroStreamHandler", r"source::avro::Payload as .*From<.*>>::from$|source::avro::Payload::from$")):
        handler(cx, ty, parse)


def frames(cx):
    new = cx.flow("source::nonblocking::BufferedPayload::new")
    made = [t for _, t, _ in new.terms_at_return]
    if not cx.ob("begin", "one", len(made) == 1 and made[0][0] == "agg", "a reader is not made in one way"):
        return
    d = dict(made[0][2])
    inst = "fields"
    MAX = [k for k, v in d.items() if v == ("arg", 2)]
    PRE = [k for k, v in d.items() if v[0] == "repeat" and is_const(v[1], 0) and v[2] == 4]
    POS = [k for k, v in d.items() if is_const(v, 0)]
    SIZE = [k for k, v in d.items() if v[0] == "agg" and v[1] == "None"]
    PAY = [k for k, v in d.items() if call(v, "new", "with_capacity", "default") and "Vec" in v[1] and not any(a == ("arg", 1) for a in v[2])]
    if not cx.ob("begin", inst, len(MAX) == len(PRE) == len(SIZE) == len(PAY) == 1 and len(POS) == 2, "a reader does not begin with nothing read"):
        return
    MAX, PRE, SIZE, PAY = MAX[0], PRE[0], SIZE[0], PAY[0]
    fl = cx.flow("source::nonblocking::BufferedPayload::read")
    rds = [c for c in fl.calls if last(c) in ("read", "read_exact", "read_to_end", "read_vectored", "read_u32", "read_until", "take", "bytes") and "ByteOrder" not in c.path]
    if not cx.ob("reads", "sites", len(rds) == 2 and all(last(c) == "read" and call(c.args[1], "index_mut") for c in rds), "a prefix and a payload are not read each in one place, as far as they have come"):
        return
    by = {c.args[1][2][0][2] if c.args[1][2][0][0] == "fld" and c.args[1][2][0][1] == SELF else None: c for c in rds}
    if not cx.ob("reads", "targets", set(by) == {PRE, PAY} and rds[0].args[0] == rds[1].args[0], "what is read is not kept where it has come so far"):
        return
    rpre, rpay = by[PRE], by[PAY]
    starts = {}
    for k, c in ((PRE, rpre), (PAY, rpay)):
        r = c.args[1][2][1]
        starts[k] = dict(r[2]).get("start") if r[0] == "agg" else None
    ok = all(t is not None and field(t) in POS for t in starts.values()) and len({field(t) for t in starts.values()}) == 2
    if not cx.ob("reads", "from", ok, "what is read next is not put behind what has come"):
        return
    P1, P2 = field(starts[PRE]), field(starts[PAY])
    stops = [rpre.blk, rpay.blk]
    n = 0
    for at0, c in (("call", None), ("prefix", rpre), ("payload", rpay)):
        qs = trace(fl, stops=stops) if c is None else trace(fl, [(c.blk, s) for s in succs(fl, [c.blk])], stops)
        if not cx.ob("steps", at0, qs, "what follows a reading cannot be followed"):
            continue
        got = c and c.dest
        for have in ("Ok", "Err", None):
            if (have is None) != (c is None):
                continue
            sub = [q for q in qs if c is None or q.facts.get(got) == ("v", have)]
            if have == "Err":
                failed(cx, fl, at0, sub, got, stops, c)
                n += len(sub)
                continue
            for size in ((None, 0, 3, 9, 10, 11) if c is None else (0, 3, 9, 10, 11) if c is rpay else (None,)):
                for k in range(0, 5 if c is not None or size is not None else 1):
                    for m in (0, 1, 2, 3, 4) if c is not None else (0,):
                        n += state(cx, fl, at0, sub, got, size, k, m, c, (rpre, rpay), dict(MAX=MAX, PRE=PRE, PAY=PAY, SIZE=SIZE, P1=P1, P2=P2))
        if c is not None:
            cx.ob("steps", at0 + " both", all(q.facts.get(got) in (("v", "Ok"), ("v", "Err")) for q in qs), "whether a reading failed is not looked at")
    cx.floor("steps", n, 60)


def failed(cx, fl, at0, qs, got, stops, c):
    e = inside(got, "Err")
    for i, q in enumerate(qs):
        inst = "%s #%d" % (at0, i)
        again = errkind(q, e, "Interrupted")
        cx.ob("failures", inst + " keeps", not [w for w in q.writes if w.root == SELF] and not mutations(q), "a reading that failed changes what has come")
        if q.end in stops:
            cx.ob("failures", inst + " again", again is True and q.end == c.blk, "a reading that failed is made again")
            continue
        w, f = errkind(q, e, "WouldBlock"), errkind(q, e, "UnexpectedEof")
        cx.ob("failures", inst, (again is False or w is True or f is True) and errval(q, e), "how a reading failed is not passed on, or an interrupted reading is not made again")
    cx.ob("failures", at0, bool(qs), "a failed reading has no case")


def errval(q, e):
    r = q.ret
    if not (r and r[0] == "agg" and r[1] == "Err"):
        return False
    v = r[2][0][1]
    if v == e:
        return True
    if v[0] == "agg":
        w, f = errkind(q, e, "WouldBlock"), errkind(q, e, "UnexpectedEof")
        return {"WouldBlock": w is True, "EOF": f is True, "IO": w is False and f is False and v[2] and v[2][0][1] == e}.get(v[1], False)
    return False


def mutations(q):
    return [c for c in q.calls if c.args and c.args[0][0] == "fld" and c.args[0][1] == SELF and last(c) in ("resize", "clear", "truncate", "push", "extend", "extend_from_slice", "insert", "remove", "drain", "replace", "swap", "append", "split_off", "consume", "set_len", "pop", "reserve_exact", "take", "copy_from_slice", "fill_buf", "into_inner", "resize_with", "dedup", "retain", "swap_remove", "rotate_left", "reverse")]


def state(cx, fl, at0, qs, got, size, k, m, c, rd, f):
    """one state of the fields, and (m) the bytes that came: what happens then"""
    rpre, rpay = rd
    pre = c is rpre
    if c is rpay and k >= (size or 0) or c is rpay and size > LIMIT:
        return 0                     # there is nothing to read then
    if pre and (k >= 4 or m > 4 - k) or c is rpay and m > size - k:
        return 0                     # more than was asked for
    done = 0
    for plen in ((0,) if pre else (size,) if c is rpay or k else sorted({0, size or 0})):
        for told in ((0, 3, 9, 10, 11) if pre and k + m == 4 else (None,)):
            S = told if pre else size
            if c is None and size is not None and k > size:
                continue
            p2 = k if not pre else 0

            def env(t):
                x = field(t)
                if c is not None and t == inside(got, "Ok"):
                    return m
                if x == f["P1"]:
                    return k if pre else 0
                if x == f["P2"]:
                    return p2
                if x == f["MAX"]:
                    return LIMIT
                if t[0] == "fld" and t[1][0] == "var" and t[1][2] == "Some" and field(t[1][1]) == f["SIZE"]:
                    return S
                if prefix(t, f["PRE"]):
                    return S
                if call(t, "len") and field(t[2][0]) == f["PAY"]:
                    return plen
                if call(t, "len") and field(t[2][0]) == f["PRE"]:
                    return 4
                return None
            pos = [q for q in qs if could(q, env, "u64") and known(q, f["SIZE"], c, size)]
            inst = "%s: size %s, has %d, gets %d%s%s" % (at0, size, k, m, "" if told is None else ", told %d" % told, "" if plen == (size or 0) else ", room for %d" % plen)
            done += 1
            if not cx.ob("states", inst, len(pos) == 1, "what happens in a state is not certain (%d ways)" % len(pos)):
                continue
            q = pos[0]
            W = {}
            for w in q.writes:
                if w.root == SELF and w.proj and w.proj[0][0] == "f":
                    W[w.proj[0][1]] = w.val
            val = lambda x, d: num(W[x], env) if x in W else d
            opens = W.get(f["SIZE"])
            if c is not None and m == 0:
                cx.ob("ends", inst, ret_err(q, "EOF") and not W and not mutations(q), "a stream that has ended is not told, or changes what has come")
                continue
            if pre:
                if k + m < 4:
                    cx.ob("prefix", inst, q.end == rpre.blk and val(f["P1"], k) == k + m and where(q, f["PRE"], env) == (k + m, None) and opens is None and f["P2"] not in W and not mutations(q), "a prefix that is not whole is not kept as far as it has come")
                    continue
                sz = opens and opens[0] == "agg" and opens[1] == "Some" and opens[2][0][1]
                if q.end != rpay.blk and q.ret and q.ret[1] == "Ok":
                    cx.ob("prefix", inst, val(f["P1"], k) == 0, "the next prefix does not begin anew")
                else:
                    cx.ob("prefix", inst, bool(sz) and prefix(sz, f["PRE"]) and val(f["P1"], k) == 0, "a whole prefix does not tell the size of the payload, big end first, once")
            elif c is None:
                if size is None:
                    cx.ob("prefix", inst, q.end == rpre.blk and where(q, f["PRE"], env) == (0, None) and not W and not mutations(q), "a payload is read before its prefix, or what came of the prefix is dropped")
                    continue
                cx.ob("prefix", inst, f["P1"] not in W or val(f["P1"], 0) == 0, "a prefix is read in the middle of a payload")
            if c is not rpay and S > LIMIT:
                cx.ob("limit", inst, ret_err(q, "LengthTooLarge") and not mutations(q), "a payload beyond the limit is not refused before there is room made for it")
                continue
            p = p2 + (m if c is rpay else 0)
            room = [x for x in mutations(q) if last(x) != "replace" and last(x) != "swap"]
            fits = all(last(x) == "resize" and num(x.args[1], env) == S for x in room) and (bool(room) or plen == S)
            cx.ob("room", inst, fits and all(x.args[0][2] == f["PAY"] for x in room), "there is not room for just the payload")
            if p < S:
                a, b = where(q, f["PAY"], env)
                cx.ob("payload", inst, q.end == rpay.blk and a == p and b in (None, S) and val(f["P2"], p2) == p and (opens is None or pre) and not [x for x in mutations(q) if last(x) in ("replace", "swap")], "a payload that is not whole is not kept as far as it has come")
                continue
            ok = q.end not in (rpre.blk, rpay.blk) and q.ret and q.ret[0] == "agg" and q.ret[1] == "Ok"
            cx.ob("whole", inst, ok and field(q.ret[2][0][1]) == f["PAY"], "a whole payload is not given out")
            out = [x for x in mutations(q) if last(x) == "replace" and x.args[0][2] == f["PAY"]]
            fresh = W.get(f["PAY"])
            cx.ob("whole", inst + " anew", ok and opens is not None and opens[:2] == ("agg", "None") and val(f["P2"], p) == 0 and fresh is not None and call(fresh, "new", "with_capacity", "default") and len(out) <= 1, "the payload after a whole one does not begin anew")
    return done


def prefix(t, PRE):
    if call(t, "read_u32"):
        return "BigEndian" in t[1] and field(t[2][0]) == PRE
    if call(t, "from_be_bytes"):
        return "u32" in t[1] and field(t[2][0]) == PRE
    return t[0] == "cast" and prefix(t[2], PRE)


def num(t, env):
    try:
        return evalt(t, env, "u64")
    except (Unknown, Overflow):
        return None


def where(q, name, env):
    """the range the next read is asked to fill"""
    ix = [x for x in q.calls if last(x) == "index_mut" and field(x.args[0]) == name]
    if not ix or ix[-1].args[1][0] != "agg":
        return (None, None)
    d = dict(ix[-1].args[1][2])
    return (num(d["start"], env) if "start" in d else None, num(d["end"], env) if "end" in d else None)


def known(q, SIZE, c, size):
    """is the path one for a size that is (not) known"""
    if c is not None:
        return True
    v = [x for t, x in q.facts.items() if t[0] != "not" and field(t) == SIZE]
    return all(x == ("v", "None" if size is None else "Some") for x in v)


def ret_err(q, v):
    r = q.ret
    return bool(r) and r[0] == "agg" and r[1] == "Err" and r[2][0][1][0] == "agg" and r[2][0][1][1] == v


def errors(cx):
    p = cx.method("std::convert::From", r"PayloadErr", "from") if False else None
    ims = [im for im in cx.prog.impls if im["trait"].startswith("std::convert::From") and re.search(r"PayloadErr$", im["self"])]
    fs = [im["items"]["from"] for im in ims]
    seen = set()
    for f in fs:
        fl = cx.flow(f)
        for i, q in enumerate(trace(fl)):
            k = [(t, v) for t, v in q.facts.items() if call(t[1] if t[0] == "not" else t, "kind")]
            if not k:
                continue
            inst = "#%d" % i
            v = q.ret
            cx.ob("kinds", inst, errval2(q, v), "an error of the stream is told as another")
            seen.add(v[1] if v[0] == "agg" else "?")
    cx.ob("kinds", "all", seen == {"WouldBlock", "EOF", "IO"}, "of the ways a reading fails only %s are told" % sorted(seen))


def errval2(q, v):
    e = ("arg", 1)
    w, f = errkind(q, e, "WouldBlock"), errkind(q, e, "UnexpectedEof")
    if v[0] != "agg":
        return False
    return {"WouldBlock": w is True, "EOF": f is True, "IO": w in (False, None) and f in (False, None) and (w is False and f is False) and bool(v[2]) and v[2][0][1] == e}.get(v[1], False)


def handler(cx, ty, parse):
    p = cx.method("source::tcp::TCPStreamHandler", ty, "handle_stream")
    fl = cx.flow(p, opaque=(r"BufferedPayload::(read|new)$", r"^util::send$", r"source::nonblocking::write_all$", parse, r"::harden$", r"SyncAckBag::"), key="c14")
    rd = [c for c in fl.calls if c.path.endswith("BufferedPayload::read")]
    if not cx.ob("handler", ty, len(rd) == 1, "payloads are not read in one place"):
        return
    rd = rd[0]
    mk = [c for c in fl.calls if c.path.endswith("BufferedPayload::new")]
    inner = reach(fl, succs(fl, [rd.blk]))
    cx.ob("handler", ty + " kept", len(mk) == 1 and mk[0].blk not in inner and rd.args[0] == mk[0].dest, "what has come of a payload is dropped between wake-ups")
    polls = [c.blk for c in fl.calls if last(c) == "poll" and "Poll" in c.path]
    parses = [c for c in fl.calls if re.search(parse, c.path) or last(c) == "into" and has(c.args[0], rd.dest)]
    ls = loops(fl)
    evs = [L for L in ls if not has(L.it, rd.dest)]
    stops = [rd.blk] + polls + [b for L in ls if L not in evs for b in L.next]
    inn = {b for L in ls if L not in evs for b in L.next}
    for j, L in enumerate(L for L in ls if L not in evs):
        for q in trace(fl, L.done, stops) or [None]:
            cx.ob("handler", "%s loop %d" % (ty, j), q and (q.end == rd.blk or q.end in inn), "after a payload the next is not read")
    seen = set()
    for i, q in enumerate(trace(fl, [(rd.blk, s) for s in succs(fl, [rd.blk])], stops, cycles=1)):
        inst = "%s #%d" % (ty, i)
        got = q.facts.get(rd.dest)
        done = [c for c in q.calls if has_any(c, parses)]
        if got == ("v", "Ok"):
            pay = inside(rd.dest, "Ok")
            if not cx.ob("handler", inst + " parsed", len(done) == 1 and has(done[0].args[0], pay), "a payload is not parsed once"):
                continue
            v = q.facts.get(done[0].dest)
            good = v in (("v", "Ok"), ("v", "Valid"))
            if not cx.ob("handler", inst + " verdict", good or v in (("v", "Err"), ("v", "Invalid")), "whether a payload is good is not looked at"):
                continue
            seen.add("good" if good else "bad")
            if good:
                # whatever it holds is dealt with, and then the next is read
                gone = any(last(c) == "write_all" and q.facts.get(c.dest) == ("v", "Err") for c in q.calls)
                cx.ob("handler", inst + " next", q.end in fl.ret_blocks if gone else q.end == rd.blk or q.end in inn, "after a payload the next is not read")
            else:
                cx.ob("handler", inst + " bad", q.end in fl.ret_blocks and not sends(q), "a connection goes on after a payload that is none")
            continue
        k = q.facts.get(inside(rd.dest, "Err"))
        ex = q.facts.get(("not", inside(rd.dest, "Err")), frozenset())
        if not cx.ob("handler", inst, got == ("v", "Err") and not sends(q) and not done, "something is sent that was not read"):
            continue
        if k == ("v", "WouldBlock"):
            seen.add("later")
            # the next waking-up, another event of this one, or the end if that is the system's
            woken = any(last(c) == "token" for c in q.calls)
            told = [v for t, v in q.facts.items() if t[0] != "not" and has_call(t, "token") and v[0] == "c"]
            cx.ob("handler", inst + " later", q.end in polls or woken and (q.end == rd.blk or q.end in fl.ret_blocks and bool(told)), "a peer that has sent no more yet is not waited for")
        else:
            seen.add("over" if k is None or k[1] != "EOF" else "end")
            cx.ob("handler", inst + " over", q.end in fl.ret_blocks and (k is not None or "WouldBlock" in ex), "a connection goes on after its stream failed")
    cx.ob("handler", ty + " outcomes", {"good", "bad", "later", "over"} <= seen, "of what can come of a reading, only %s has a case" % sorted(seen))


def has(t, x):
    return t == x or isinstance(t, tuple) and any(has(y, x) for y in t if isinstance(y, tuple))


def has_call(t, name):
    return call(t, name) or isinstance(t, tuple) and any(has_call(y, name) for y in t if isinstance(y, tuple))


def has_any(c, cs):
    return any(c.blk == x.blk for x in cs)


def sends(q):
    return [c for c in q.calls if last(c) == "send" and "util" in c.path]
