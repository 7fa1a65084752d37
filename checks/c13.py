"""The packets of the Avro source, read as a script: on every path the reads made of the
packet, in order, are compared with the format."""
from rules import *

ARG = ("arg", 1)
HEAD = [("version", "read_u32"), ("control", "read_u32"), ("id", "read_u64"), ("order_by", "read_u64")]


def last(c):
    return (c if isinstance(c, str) else c.path).rsplit("::", 1)[-1]


def call(t, *names):
    return isinstance(t, tuple) and len(t) > 2 and t[0] == "call" and last(t[1]) in names


def inside(t, v):
    return ("fld", ("var", t, v), "0")


def has(t, x):
    return t == x or isinstance(t, tuple) and any(has(y, x) for y in t if isinstance(y, tuple))


def big(c):
    return last(c) == "read_u8" or "BigEndian" in str(c.info.get("targs", "")) + c.fn


def run(cx):
    ps = [p for p in cx.prog.bodies if re.search(r"source::avro::Payload as .*From<std::vec::Vec<u8>>>::from$", p)]
    if not cx.ob("packet", "site", len(ps) == 1, "packets are not taken apart in one place"):
        return
    fl = cx.flow(ps[0])
    curs = {c.args[0] for c in fl.calls if last(c).startswith("read_") and c.args}
    if not cx.ob("packet", "once", len(curs) == 1 and call(list(curs)[0], "new") and list(curs)[0][2] == (ARG,) and "Cursor" in list(curs)[0][1], "a packet is not read from its beginning to its end"):
        return
    C = curs.pop()
    moved = [c for c in fl.calls if c.args and c.args[0] == C and last(c) in ("set_position", "seek", "get_mut", "consume", "take", "into_inner", "by_ref", "bytes")]
    cx.ob("packet", "in order", not moved, "a packet is not read in order", at(fl, moved[0].blk) if moved else None)
    ls = [L for L in loops(fl) + counted(fl) if any(c.args and c.args[0] == C for q in L.body() or () for c in q.calls)]
    if not cx.ob("packet", "pairs", len(ls) == 1, "metadata are not read pair by pair"):
        return
    L = ls[0]
    reads = lambda q: [c for c in q.calls if c.args and c.args[0] == C and (last(c).startswith("read") or last(c).startswith("fill"))]
    # up to the pairs
    heads, num, seen = set(), set(), set()
    for i, q in enumerate(trace(fl, stops=L.next)):
        inst = "#%d" % i
        rs = reads(q)
        want = [n for _, n in HEAD]
        got = [last(c) for c in rs]
        k = min(len(got), 4)
        if not cx.ob("header", inst, got[:4] == want[:k] and all(big(c) for c in rs[:4]), "a header is not read as version, control, id and order, big end first: %s" % got):
            continue
        vals = [q.facts.get(c.dest) for c in rs]
        if ("v", "Err") in vals:
            short(cx, inst, q, vals, rs)
            continue
        if not cx.ob("header", inst + " whole", len(rs) >= 4 and vals[:4] == [("v", "Ok")] * 4, "a header is cut short"):
            continue
        ver = inside(rs[0].dest, "Ok")
        may = [could(q, lambda t: v if t == ver else None, "u32") for v in (0, 1, 2, 3, 4000000000)]
        if not cx.ob("metadata", inst + " version", may in ([True, True, False, False, False], [False, False, True, True, True]), "metadata are read of versions that have none, or not of those that have"):
            continue
        H = tuple(sorted((n, inside(rs[j].dest, "Ok")) for j, (n, _) in enumerate(HEAD)))
        heads.add(H)
        rest = rs[4:]
        if may[0]:
            seen.add("plain")
            end(cx, fl, inst, q, rest, {H}, ("none",))
            continue
        if not cx.ob("metadata", inst + " count", rest and last(rest[0]) == "read_u8" and q.facts.get(rest[0].dest) == ("v", "Ok"), "the number of metadata is not read"):
            continue
        n = inside(rest[0].dest, "Ok")
        zero = could(q, lambda t: 0 if t == n else None, "u8")
        some = [could(q, lambda t: v if t == n else None, "u8") for v in (1, 2, 255)]
        if q.end in L.next:
            num.add(n)
            seen.add("pairs")
            cx.ob("metadata", inst + " some", some == [True] * 3 and len(rest) == 1, "of some numbers of metadata none are read")
        else:
            seen.add("no pairs")
            cx.ob("metadata", inst + " none", zero and not any(some), "metadata that are there are not read")
            end(cx, fl, inst, q, rest[1:], {H}, ("none", "empty"))
    cx.ob("packet", "ways", {"plain", "pairs"} <= seen and len(heads) == 1, "packets of a version cannot be read")
    # the pairs
    r = L.it
    rng = r[0] == "agg" and is_const(dict(r[2]).get("start", ("",)), 0) and len(num) == 1 and strip_cast(dict(r[2]).get("end", ("",)), ("i8", "bool")) in num
    cx.ob("metadata", "as many", rng, "there are more or fewer metadata than told")
    maps = set()
    for i, b in enumerate(L.body()):
        inst = "pair #%d" % i
        rs = reads(b)
        vals = [b.facts.get(c.dest) for c in rs]
        want = ["read_u8", "read_exact", "read_u16", "read_exact"]
        got = [last(c) for c in rs]
        if not cx.ob("pair", inst, got == want[:len(got)] and all(big(c) for c in rs if last(c) != "read_exact"), "a pair is not read as key and value, each after its length: %s" % got):
            continue
        for j in (1, 3):
            if j < len(rs):
                room(cx, fl, "%s %d" % (inst, j), rs[j].args[1], inside(rs[j - 1].dest, "Ok"), ("i8", "bool") if j == 1 else ("u8", "i8", "i16", "bool"))
        if ("v", "Err") in vals:
            short(cx, inst, b, vals, rs)
            continue
        ins = [c for c in b.calls if last(c) == "insert"]
        ok = len(rs) == 4 and vals == [("v", "Ok")] * 4 and b.end in L.next and len(ins) == 1 and ins[0].args[1] == rs[1].args[1] and ins[0].args[2] == rs[3].args[1]
        cx.ob("pair", inst + " kept", ok, "a pair that was read is not kept under its key")
        if ins:
            maps.add(ins[0].args[0])
    cx.ob("pair", "map", len(maps) == 1 and (list(maps)[0][0] == "default" or call(list(maps)[0], "new", "default", "with_capacity", "with_hasher", "with_capacity_and_hasher")), "metadata are not kept together")
    inner = reach(fl, succs(fl, L.next))
    m = list(maps)[0] if maps else ("?",)
    site = m[2] if m[0] == "default" and len(m) > 2 else m[3] if len(m) > 3 else None
    fresh = [e for e in L.some if site is not None and site in reach(fl, [e[1]], avoid=L.next)]
    cx.ob("pair", "one map", not fresh, "metadata are forgotten between pairs")
    for i, q in enumerate(trace(fl, L.done, L.next)):
        end(cx, fl, "pairs #%d" % i, q, reads(q), heads, ("some", m))


def strip_cast(t, no=("u8", "i8", "i16", "bool")):
    while t[0] == "cast" and t[1] not in no or call(t, "from", "into"):
        t = t[2] if t[0] == "cast" else t[2][0]
    return t


def room(cx, fl, inst, buf, n, no):
    ok = call(buf, "from_elem") and is_const(buf[2][0], 0) and strip_cast(buf[2][1], no) == n
    cx.ob("pair", inst + " length", ok, "a key or value has not the length told")


def short(cx, inst, q, vals, rs):
    ok = vals[-1] == ("v", "Err") and vals.count(("v", "Err")) == 1 and q.ret and q.ret[0] == "agg" and q.ret[1] == "Invalid"
    cx.ob("short", inst, ok, "a packet that is cut short is taken, or read on")


def end(cx, fl, inst, q, rest, heads, meta):
    """the rest of a packet is Avro; the packet is what was read"""
    if not cx.ob("content", inst, len(rest) == 1 and last(rest[0]) == "read_to_end", "a packet's content is not all that follows"):
        return
    r = rest[0]
    blob = r.args[1]
    fresh = call(blob, "new", "with_capacity")
    cx.ob("content", inst + " fresh", fresh, "a packet's content is put behind something else")
    v = q.facts.get(r.dest)
    chk = [c for c in q.calls if last(c) in ("from_container",)]
    bad = q.ret and q.ret[0] == "agg" and q.ret[1] == "Invalid"
    if v == ("v", "Err"):
        cx.ob("content", inst + " unread", bad, "a packet that cannot be read is taken")
        return
    if not cx.ob("content", inst + " checked", len(chk) == 1 and has(chk[0].args[0], blob) and q.facts.get(chk[0].dest) is not None and whole_slice(chk[0].args[0], blob), "a packet's content is not checked to be Avro"):
        return
    if q.facts[chk[0].dest] == ("v", "Err"):
        cx.ob("content", inst + " no avro", bad, "a packet that is no Avro is taken")
        return
    if not cx.ob("taken", inst, q.ret and q.ret[0] == "agg" and q.ret[1] == "Valid", "a good packet is not taken"):
        return
    d = dict(q.ret[2])
    cx.ob("taken", inst + " content", d.get("avro_blob") == blob, "a packet's content is not what it holds")
    hd = d.get("header")
    cx.ob("taken", inst + " header", any(same(fl, hd, h) for h in heads), "a packet's header is not what it holds")
    mt = d.get("metadata")
    if meta[0] == "none":
        ok = mt and mt[:2] == ("agg", "None") or "empty" in meta and mt and mt[0] == "agg" and mt[1] == "Some"
        cx.ob("taken", inst + " metadata", ok, "a packet without metadata has some")
    else:
        outs = opts(fl, mt)
        hollow = any(call(t, "is_empty") and t[2] and t[2][0] == meta[1] and v == ("c", True) or t[0] == "bin" and t[1] == "Eq" and call(t[2], "len") and t[2][2][0] == meta[1] and is_const(t[3], 0) and v == ("c", True) for t, v in q.facts.items())
        ok = hollow and mt and mt[:2] == ("agg", "None") or outs and all(x[:2] == ("agg", "Some") and x[2][0][1] == meta[1] for x in outs)
        cx.ob("taken", inst + " metadata", ok, "a packet's metadata are not what it holds")


def whole_slice(t, blob):
    if t == blob:
        return True
    if call(t, "index"):
        r = t[2][1]
        return t[2][0] == blob and (r[0] != "agg" or not r[2])
    return call(t, "as_slice", "deref", "as_ref", "borrow") and whole_slice(t[2][0], blob)


def opts(fl, t, d=0):
    if t is None or d > 6:
        return []
    if t[0] == "phi":
        return [z for _, y, _ in phi_ins(fl, t) for z in opts(fl, y, d + 1)]
    if t[0] == "fld" and t[1][0] == "var":
        return [z[2][0][1] if z[0] == "agg" and z[1] == t[1][2] and z[2] else ("?",) for z in opts(fl, t[1][1], d + 1) if not (z[0] == "agg" and z[1] != t[1][2])]
    return [t]


def same(fl, hd, h):
    outs = opts(fl, hd)
    return bool(outs) and all(x[0] == "agg" and tuple(sorted(x[2])) == h for x in outs)
