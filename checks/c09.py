"""The native protocol: messages on the wire agree with native.proto (writing, reading,
sizes, accessors), and the sink's and the source's ways between events and messages are
each other's inverse."""
import os
from rules import *

ARG = ("arg", 1)
OS = ("arg", 2)
NAT = "protocols::native::"
WIRE = {"int64": ("write_int64", "read_int64"), "bool": ("write_bool", "read_bool"), "enum": ("write_enum", "read_enum")}


def last(c):
    return (c if isinstance(c, str) else c.path).rsplit("::", 1)[-1]


def call(t, *names):
    return isinstance(t, tuple) and len(t) > 2 and t[0] == "call" and last(t[1]) in names


def inside(t, v):
    return ("fld", ("var", t, v), "0")


def has(t, x):
    return t == x or isinstance(t, tuple) and any(has(y, x) for y in t if isinstance(y, tuple))


def proto():
    """the messages and numbers of native.proto"""
    src = open(os.path.join(os.environ.get("CERNAN_REPO", "/repo"), "resources/protobufs/native.proto")).read()
    src = re.sub(r"//[^\n]*", "", src)
    ms = {}
    enums = {m.group(1): dict((n, int(v)) for n, v in re.findall(r"(\w+)\s*=\s*(\d+)\s*;", m.group(2))) for m in re.finditer(r"enum\s+(\w+)\s*\{([^}]*)\}", src)}
    for m in re.finditer(r"message\s+(\w+)\s*\{([^}]*)\}", src):
        fs = {}
        for how, ty, name, num, opt in re.findall(r"(optional|repeated|required)?\s*(map\s*<[^>]*>|\w+)\s+(\w+)\s*=\s*(\d+)\s*(\[[^\]]*\])?\s*;", m.group(2)):
            d = re.search(r"default\s*=\s*(\w+)", opt)
            k = "map" if ty.startswith("map") else "enum" if ty in enums else "message" if ty not in ("string", "int64", "bool", "double") else ty
            if how == "repeated":
                k = "packed" if "packed" in opt else "many"
                if ty != "double":
                    k = "messages"
            fs[name] = (int(num), k, ty, d.group(1) if d else None)
        ms[m.group(1)] = fs
    return ms, enums


def draws(fl, q, coll):
    """how often the path draws from coll"""
    es = set()
    for L in loops(fl):
        if whole(fl, L.it, coll):
            es |= set(L.some)
    return sum((q.blocks[i], q.blocks[i + 1]) in es for i in range(len(q.blocks) - 1))


def fact_of(q, f):
    """is the optional field f there on this path"""
    out = set()
    for t, v in q.facts.items():
        x = t[2][0] if call(t, "as_ref", "is_some", "is_none", "as_slice") else t
        if x == f and v[0] == "v":
            out.add(v[1] == "Some")
        elif x == f and call(t, "is_some", "is_none") and v[0] == "c":
            out.add(v[1] == (last(t[1]) == "is_some"))
    return out.pop() if len(out) == 1 else None


def nonempty(q, f):
    for t, v in q.facts.items():
        if call(t, "is_empty") and t[2][0] == f:
            return not v[1]
    return None


def val_of(t, f):
    """t is what the optional field f holds"""
    return t == inside(f, "Some") or t[0] == "fld" and t[2] == "0" and t[1][0] == "var" and t[1][2] == "Some" and call(t[1][1], "as_ref") and t[1][1][2][0] == f \
        or call(t, "deref", "unwrap", "as_str") and (val_of(t[2][0], f) or call(t[2][0], "as_ref") and t[2][0][2][0] == f)


def const(t, n):
    return t[0] == "c" and t[1] == n and type(t[1]) == int


def is_lenbytes(t, f):
    """8 * len(f)"""
    while t[0] == "cast":
        t = t[2]
    if t[0] != "bin" or t[1] != "Mul":
        return False
    a, b = t[2], t[3]
    if const(b, 8):
        a, b = b, a
    while b[0] == "cast":
        b = b[2]
    return const(a, 8) and call(b, "len") and b[2][0] == f


def groups(fl, q, fields):
    """what a path has to write: {field: [matchers]}"""
    need = {}
    for name, (n, k, ty, _) in fields.items():
        f = ("fld", ARG, name)
        num = lambda c, n=n: const(c.args[1], n)
        if k == "string" or k in WIRE:
            there = fact_of(q, f)
            if there is None:
                return None
            if there and k == "string":
                need[name] = [lambda c, f=f, num=num: last(c) == "write_string" and num(c) and val_of(c.args[2], f)]
            elif there:
                need[name] = [lambda c, f=f, num=num, k=k: last(c) == WIRE[k][0] and num(c) and (val_of(c.args[2], f) if k != "enum" else call(c.args[2], "value") and val_of(c.args[2][2][0], f))]
        elif k == "map":
            need[name] = [lambda c, f=f, n=n: last(c) == "write_map_with_cached_sizes" and const(c.args[0], n) and c.args[1] == f and strs_of(c)]
        elif k == "packed":
            there = nonempty(q, f)
            d = draws(fl, q, f)
            if there is None or not there and d:
                return None
            if there:
                need[name] = [lambda c, num=num: last(c) == "write_tag" and num(c) and c.args[2][:2] == ("agg", "WireTypeLengthDelimited"),
                              lambda c, f=f: last(c) == "write_raw_varint32" and is_lenbytes(c.args[1], f)] + [lambda c, f=f: last(c) == "write_double_no_tag" and c.args[1] == fl.elem(f)] * d
        elif k == "many":
            need[name] = [lambda c, f=f, num=num: last(c) == "write_double" and num(c) and c.args[2] == fl.elem(f)] * draws(fl, q, f)
        elif k == "messages":
            e = fl.elem(f)
            need[name] = [lambda c, num=num: last(c) == "write_tag" and num(c) and c.args[2][:2] == ("agg", "WireTypeLengthDelimited"),
                          lambda c, e=e: last(c) == "write_raw_varint32" and call(c.args[1], "get_cached_size") and c.args[1][2][0] == e,
                          lambda c, e=e: last(c) == "write_to_with_cached_sizes" and c.args[0] == e] * draws(fl, q, f)
        else:
            return None
    return {n: g for n, g in need.items() if g}


def strs_of(c):
    ta = str(c.info.get("targs", "")) + c.fn
    return ta.count("ProtobufTypeString") == 2 or "targs" not in c.info


def written(cx, fl, msg, fields):
    n = 0
    for i, q in enumerate(trace(fl, cycles=1) or ()):
        cs = [c for c in q.calls if c.args and OS in c.args]
        res = [q.facts.get(c.dest) for c in cs]
        if q.ret is None or q.ret[0] == "agg" and q.ret[1] == "Err" or ("v", "Err") in res:
            cx.ob("writing", "%s #%d failure told" % (msg, i), q.ret is not None and not (q.ret[0] == "agg" and q.ret[1] == "Ok"), "%s: a failure to write is kept quiet" % msg)
            continue
        need = groups(fl, q, fields)
        if not cx.ob("writing", "%s #%d asked" % (msg, i), need is not None, "%s: a field is written whether it is there or not, or not looked at" % msg):
            continue
        unk = [c for c in cs if last(c) == "write_unknown_fields"]
        rest = [c for c in cs if c not in unk]
        bad = None
        left = dict(need)
        while rest and bad is None:
            for name, g in left.items():
                if len(g) <= len(rest) and all(m(c) for m, c in zip(g, rest)):
                    rest = rest[len(g):]
                    del left[name]
                    break
            else:
                bad = rest[0]
        cx.ob("writing", "%s #%d" % (msg, i), bad is None and not left, "%s is not written as native.proto has it: %s" % (msg, sorted(left)), at(fl, bad.blk) if bad else None)
        ok = all(v == ("v", "Ok") for c, v in zip(cs, res) if c is not cs[-1] or q.ret[0] == "agg")
        cx.ob("writing", "%s #%d checked" % (msg, i), ok, "%s: what becomes of a write is not looked at" % msg)
        n += 1
    cx.floor("%s: ways to write" % msg, n, 4)


def addends(t):
    if t[0] == "bin" and t[1] == "Add":
        return addends(t[2]) + addends(t[3])
    return [] if const(t, 0) else [t]


def sized(cx, fl, msg, fields):
    """compute_size adds up what writing writes"""
    n = 0
    for i, q in enumerate(trace(fl, cycles=1) or ()):
        sets = [c for c in q.calls if c.path.endswith("CachedSize::set")]
        if not cx.ob("size", "%s #%d kept" % (msg, i), len(sets) == 1 and sets[0].args[0] == ("fld", ARG, "cached_size") and sets[0].args[1] == q.ret, "%s: the size told is not the one that is written" % msg):
            continue
        ms, ones, ok = [], 0, True
        for name, (num, k, ty, _) in fields.items():
            f = ("fld", ARG, name)
            n1 = lambda t, num=num: const(t[2][0], num)
            if k in ("string", "int64", "bool", "enum"):
                there = fact_of(q, f)
                ok &= there is not None
                if not there:
                    continue
                if k == "string":
                    ms.append(lambda t, f=f, n1=n1: call(t, "string_size") and n1(t) and val_of(t[2][1], f))
                elif k == "bool":
                    ones += 2
                elif k == "enum":
                    ms.append(lambda t, f=f, n1=n1: call(t, "enum_size") and n1(t) and val_of(t[2][1], f))
                else:
                    ms.append(lambda t, f=f, n1=n1: call(t, "value_size") and n1(t) and val_of(t[2][1], f) and t[2][2][:2] == ("agg", "WireTypeVarint"))
            elif k == "map":
                ms.append(lambda t, f=f, n1=n1: call(t, "compute_map_size") and n1(t) and t[2][1] == f)
            elif k == "packed":
                there = nonempty(q, f)
                ok &= there is not None
                if there:
                    ones += 1
                    ms.append(lambda t, f=f: is_lenbytes(t, f))
                    ms.append(lambda t, f=f: call(t, "compute_raw_varint32_size") and is_lenbytes(t[2][0], f))
            elif k == "many":
                ms.append(lambda t, f=f: times(t, 9, f))
            elif k == "messages":
                e = fl.elem(f)
                for _ in range(draws(fl, q, f)):
                    ones += 1
                    ms.append(lambda t, e=e: call(t, "compute_size") and t[2][0] == e)
                    ms.append(lambda t, e=e: call(t, "compute_raw_varint32_size") and call(t[2][0], "compute_size") and t[2][0][2][0] == e)
        ms.append(lambda t: call(t, "unknown_fields_size") and call(t[2][0], "get_unknown_fields") and t[2][0][2][0] == ARG)
        ts = addends(q.ret)
        k1 = sum(t[1] for t in ts if t[0] == "c")
        ts = [t for t in ts if t[0] != "c"]
        for m in ms:
            hit = [t for t in ts if m(t)]
            if not hit:
                ok = False
                break
            ts.remove(hit[0])
        cx.ob("size", "%s #%d" % (msg, i), ok and not ts and k1 == ones, "%s: the size told is not the number of bytes written" % msg)
        n += 1
    cx.floor("%s: sizes" % msg, n, 4)


def times(t, n, f):
    while t[0] == "cast":
        t = t[2]
    if t[0] != "bin" or t[1] != "Mul":
        return False
    a, b = (t[2], t[3]) if const(t[2], n) else (t[3], t[2])
    while b[0] == "cast":
        b = b[2]
    return const(a, n) and call(b, "len") and b[2][0] == f


def read(cx, fl, msg, fields):
    """merge_from puts each numbered field where native.proto has it"""
    tag = [c for c in fl.calls if last(c) == "read_tag_unpack"]
    if not cx.ob("reading", msg, len(tag) == 1 and tag[0].args[0] == OS, "%s is not read field by field" % msg):
        return
    tag = tag[0]
    NUM, TY = ("fld", inside(tag.dest, "Ok"), "0"), ("fld", inside(tag.dest, "Ok"), "1")
    eof = [c.blk for c in fl.calls if last(c) == "eof"]
    by = {v[0]: (name, v) for name, v in fields.items()}
    seen = set()
    RD = {"string": "read_singular_string_into", "map": "read_map_into", "packed": "read_repeated_double_into", "many": "read_repeated_double_into", "messages": "read_repeated_message_into"}
    for i, q in enumerate(trace(fl, [(tag.blk, None)], eof) or ()):
        cs = [c for c in q.calls if c.args and OS in c.args]
        res = [q.facts.get(c.dest) for c in cs]
        err = q.ret is not None
        v = q.facts.get(NUM)
        n = v[1] if v and v[0] == "c" else None
        ws = [w for w in q.writes if w.root == ARG]
        inst = "%s %s #%d" % (msg, n, i)
        if err and q.ret[0] == "agg" and q.ret[1] == "Ok":
            cx.ob("reading", inst + " on", False, "%s is read in part only" % msg)
            continue
        if not err:
            cx.ob("reading", inst + " failure", all(r == ("v", "Ok") for r in res), "%s: a failure to read is kept quiet" % msg)
        if q.facts.get(tag.dest) == ("v", "Err"):
            continue
        cs = [c for c in cs if c.blk != tag.blk]
        if n not in by:
            ok = len(cs) == 1 and last(cs[0]) == "read_unknown_or_skip_group" and cs[0].args[:2] == [NUM, TY] or err and not cs
            cx.ob("reading", inst + " unknown", ok and not ws, "%s: a field that is not known is not skipped" % msg)
            continue
        name, (_, k, ty, _) = by[n]
        f = ("fld", ARG, name)
        if k in RD:
            ok = len(cs) == 1 and last(cs[0]) == RD[k] and cs[0].args[0] == TY and cs[0].args[2] == f and not ws
            cx.ob("reading", inst, ok, "%s: field %d is not read as native.proto has it" % (msg, n))
        else:
            # varints: of any other wire type the field is refused
            ne = [(t, x) for t, x in q.facts.items() if call(t, "ne", "eq") and TY in t[2] and any(y[:2] == ("agg", "WireTypeVarint") for y in t[2])]
            good = len(ne) == 1 and ne[0][1] == ("c", last(ne[0][0][1]) == "eq") or q.facts.get(TY) == ("v", "WireTypeVarint")
            if not cs:
                cx.ob("reading", inst + " refused", err and not good, "%s: field %d is passed over" % (msg, n))
                continue
            ok = good and len(cs) == 1 and last(cs[0]) == WIRE[k][1]
            if ok and not err:
                w = [w for w in ws if w.proj == (("f", name),)]
                ok = len(w) == 1 and w[0].val[:2] == ("agg", "Some") and dict(w[0].val[2]).get("0") == inside(cs[0].dest, "Ok") and all(x.proj[0] == ("f", name) for x in ws)
            cx.ob("reading", inst, ok, "%s: field %d is not read as native.proto has it" % (msg, n))
        if not err:
            seen.add(n)
    cx.ob("reading", msg + " all", seen == set(by), "%s: a field is not read" % msg)


def accessors(cx, msg, fields):
    P = cx.prog.bodies
    for name, (n, k, ty, dflt) in fields.items():
        f = ("fld", ARG, name)
        p = NAT + msg + "::set_" + name
        if p in P:
            fl = cx.flow(p)
            for i, q in enumerate(trace(fl) or ()):
                ws = [w for w in q.writes if w.root == ARG]
                fin = [w for w in ws if w.proj == (("f", name),)]
                v = fin[-1].val if fin else ("?",)
                good = v == ("arg", 2) if k in ("map", "packed", "many", "messages") else (call(v, "some") or v[:2] == ("agg", "Some")) and (v[2][0] if v[0] == "call" else v[2][0][1]) == ("arg", 2)
                cx.ob("accessor", "%s.set_%s #%d" % (msg, name, i), good and all(w.proj[0] == ("f", name) for w in ws), "set_%s sets something else" % name)
        p = NAT + msg + "::take_" + name
        if p in P:
            fl = cx.flow(p)
            for i, q in enumerate(trace(fl) or ()):
                r = q.ret or ("?",)
                if k == "string":
                    t = [(x, v) for x, v in q.facts.items() if call(x, "take") and x[2][0] == f]
                    good = len(t) == 1 and (t[0][1] == ("v", "Some") and r == inside(t[0][0], "Some") or t[0][1] == ("v", "None") and (call(r, "new", "default") or is_const(r, "")))
                else:
                    good = r == f or call(r, "replace", "take") and r[2][0] == f
                cx.ob("accessor", "%s.take_%s #%d" % (msg, name, i), good, "take_%s gives something else" % name)
        p = NAT + msg + "::get_" + name
        if p in P:
            fl = cx.flow(p)
            for i, q in enumerate(trace(fl) or ()):
                r = q.ret or ("?",)
                if k in ("map", "packed", "many", "messages"):
                    good = r == f or call(r, "deref", "as_slice", "as_ref") and r[2][0] == f
                elif fact_of(q, f) is None:
                    good = call(r, "unwrap_or") and r[2][0] == f and r[2][1] == default(k, dflt)
                elif fact_of(q, f):
                    good = val_of(r, f)
                else:
                    good = r == default(k, dflt)
                cx.ob("accessor", "%s.get_%s #%d" % (msg, name, i), good, "get_%s gives something else" % name)


def default(k, d):
    return ("c", int(d or 0)) if k == "int64" else ("c", d == "true") if k == "bool" else ("c", "") if k == "string" else ("agg", d, ())


def numbers(cx, enums):
    for e, vals in enums.items():
        a = cx.prog.adts.get(NAT + e) or {"variants": []}
        cx.ob("numbers", e, {v["name"]: v["discr"] for v in a["variants"]} == vals, "%s has other numbers than in native.proto" % e)
        fl = cx.flow("<%s%s as protobuf::ProtobufEnum>::value" % (NAT, e))
        qs = trace(fl) or ()
        cx.ob("numbers", e + " value", bool(qs) and all(q.ret and strip(q.ret) == ARG or q.ret and q.ret[0] == "cast" and q.ret[2] == ARG for q in qs), "%s is not written by its number" % e)
        fl = cx.flow("<%s%s as protobuf::ProtobufEnum>::from_i32" % (NAT, e))
        got = {}
        for q in trace(fl) or ():
            v = q.facts.get(ARG)
            if v and v[0] == "c" and q.ret and q.ret[:2] == ("agg", "Some"):
                got[q.ret[2][0][1][1]] = v[1]
            else:
                cx.ob("numbers", e + " unknown", q.ret and q.ret[:2] == ("agg", "None"), "a number that is no %s is taken for one" % e)
        cx.ob("numbers", e + " from", got == vals, "%s is not read by its number" % e)


# ---------------------------------------------------------------- sink

KIND = {"Set": "SET", "Sum": "SUM", "Histogram": "BIN", "Summarize": "SUMMARIZE"}


def base(t):
    while t[0] == "upd":
        t = t[1]
    return t


def field(t, ev, name):
    return t[0] == "fld" and t[2] == name and base(t[1]) == ev


def millis(t, ev, name):
    if call(t, "saturating_mul") or t[0] == "bin" and t[1] == "Mul":
        a, b = t[2][:2] if t[0] == "call" else t[2:4]
        return field(a, ev, name) and const(b, 1000) or field(b, ev, name) and const(a, 1000)
    return False


def sink(cx):
    fl = cx.flow("<sink::native::Native as sink::Sink<sink::native::NativeConfig>>::flush",
                 opaque=(NAT, r"Telemetry::samples$", r"Telemetry::tags$", r"Telemetry::kind$", r"LogLine::tags$", r"TagIter.*::next$", r"^sink::native::connect$", r"^util::", r"^time::"))
    BUF = ("fld", ARG, "buffer")
    ls = [L for L in loops(fl) if whole(fl, L.it, BUF)]
    if not cx.ob("sink", "loop", len(ls) == 1 and ls[0].complete(), "the sink does not go through all it was given"):
        return
    L = ls[0]
    E = L.elem
    lists = {}
    for c in fl.calls:
        if c.path.endswith(("Payload::set_points", "Payload::set_lines")):
            v = c.args[1]
            v = v[2][0] if call(v, "from_vec", "from", "into") else v
            lists.setdefault(last(c)[4:], set()).add((c.args[0], v))
    ok = set(lists) == {"points", "lines"} and all(len(x) == 1 for x in lists.values()) and len({x for s in lists.values() for x, _ in s}) == 1
    if not cx.ob("sink", "payload", ok, "a payload is not made of points and lines"):
        return
    PY = [x for s in lists.values() for x, _ in s][0]
    LST = {k: [y for _, y in s][0] for k, s in lists.items()}
    cx.ob("sink", "lists", LST["points"] != LST["lines"], "points and lines are the same list")
    sent = [c for c in fl.calls if last(c) in ("compute_size", "write_to_with_cached_sizes") and NAT in c.path]
    cx.ob("sink", "written", {last(c) for c in sent} >= {"write_to_with_cached_sizes"} and all(c.args[0] == PY for c in sent), "the payload sent is not the one made")
    pref = [c for c in fl.calls if last(c) == "write_u32"]
    ok = len(pref) == 1 and "BigEndian" in pref[0].path + pref[0].fn + str(pref[0].info.get("targs", "")) and call(pref[0].args[1], "compute_size") and pref[0].args[1][2][0] == PY
    alt = [c for c in fl.calls if last(c) == "write_raw_bytes" and call(c.args[1], "to_be_bytes") and call(c.args[1][2][0], "compute_size")]
    cx.ob("sink", "length", ok or len(alt) == 1, "a payload does not follow its length in four bytes, the big end first")
    for k, v in LST.items():
        # a list may stay out of the payload if nothing is in it
        none = set(edge_pairs(fl, lambda t, x: call(t, "is_empty") and t[2][0] == v and x == ("c", True)))
        sets = set(blks(c for c in fl.calls if c.path.endswith("Payload::set_" + k)))
        seen, st = set(), [0]
        while st:
            b = st.pop()
            if b not in seen and b not in sets:
                seen.add(b)
                st += [x for x in fl.succ.get(b, ()) if (b, x) not in none]
        cx.ob("sink", k + " always sent", not seen & set(blks(c for c in sent if last(c) != "compute_size")), "a payload may leave out its %s" % k)
    order(cx, fl, PY, pref)
    tags = {}
    kinds = {}
    for i, q in enumerate(L.body(cycles=1) or ()):
        v = q.facts.get(E)
        pu = [c for c in q.calls if last(c) == "push" and c.args[0] in LST.values()]
        kind = v[1] if v and v[0] == "v" else None
        inst = "%s #%d" % (kind, i)
        if kind not in ("Telemetry", "Log"):
            cx.ob("sink", inst, not pu, "something is sent that was not given to the sink")
            continue
        ev = inside(E, kind)
        want = "points" if kind == "Telemetry" else "lines"
        if not cx.ob("sink", inst + " kept", q.end in L.next and len(pu) == 1 and pu[0].args[0] == LST[want], "an event does not make one %s" % want[:-1]):
            continue
        M = pu[0].args[1]
        cx.ob("sink", inst + " anew", call(M, "new", "default") and len(M) > 3 and any(c.blk == M[3] for c in q.calls), "an event's message is not a new one")
        st = {}
        for c in q.calls:
            if c.args and c.args[0] == M and last(c).startswith("set_"):
                st.setdefault(last(c)[4:], []).append(c.args[1])
        one = {k: x[0] for k, x in st.items() if len(x) == 1}
        if kind == "Telemetry":
            m = [(t, x) for t, x in q.facts.items() if call(t, "kind") and base(t[2][0]) == ev]
            want = {"name": lambda t: field(t, ev, "name"), "persisted": lambda t: field(t, ev, "persist"), "timestamp_ms": lambda t: millis(t, ev, "timestamp"),
                    "samples": lambda t: call(t, "samples") and base(t[2][0]) == ev,
                    "method": lambda t: len(m) == 1 and m[0][1][0] == "v" and t[:2] == ("agg", KIND.get(m[0][1][1]))}
            if len(m) == 1 and m[0][1][0] == "v":
                kinds.setdefault(m[0][1][1], 0)
        else:
            want = {"path": lambda t: field(t, ev, "path"), "value": lambda t: field(t, ev, "value"), "timestamp_ms": lambda t: millis(t, ev, "time")}
        for f, w in want.items():
            cx.ob("sink", "%s %s" % (inst, f), f in one and w(copyof(one[f])), "a %s is sent with another %s" % (kind, f))
        mt = one.get("metadata")
        if mt is not None and set(st) == set(want) | {"metadata"} and gathered(fl, mt, ev):
            continue
        if cx.ob("sink", inst + " metadata", set(st) == set(want) | {"metadata"} and mt is not None and fresh(mt, q), "a %s is sent without its tags" % kind):
            tagged(cx, fl, q, inst, mt, ev)
    cx.ob("sink", "kinds", set(kinds) == set(KIND), "a kind of telemetry is not sent")


def copyof(t):
    while call(t, "clone", "to_string", "to_owned", "into", "from"):
        t = t[2][0]
    if call(t, "replace", "take"):
        t = t[2][0]
    return t


def fresh(mt, q):
    return call(mt, "new", "default", "with_capacity", "collect") and any(c.blk == mt[3] for c in q.calls if c.dest == mt) if call(mt, "new", "with_capacity") else mt[0] in ("default", "call")


def gathered(fl, mt, ev):
    """mt is what all tags of the event over the sink's were collected into"""
    src = mt[2][0] if call(mt, "collect", "from_iter") else mt
    if src[0] != "iterop" or src[1] != "map" or src[3][0] != "agg":
        return False
    tg = src[2]
    el = [copyof(x) for _, x in src[3][2]]
    return call(tg, "tags") and base(tg[2][0]) == ev and tg[2][1] == ("fld", ARG, "tags") and el == [("fld", fl.elem(tg), "0"), ("fld", fl.elem(tg), "1")]


def tagged(cx, fl, q, inst, mt, ev):
    """all tags of the event over the sink's go into mt, key and value"""
    ins = [c for c in q.calls if last(c) == "insert" and c.args[0] == mt]
    tg = lambda t: call(t, "tags") and base(t[2][0]) == ev and t[2][1] == ("fld", ARG, "tags")
    n, ok = 0, True
    for L in loops(fl):
        if tg(L.it):
            n += sum((q.blocks[i], q.blocks[i + 1]) in set(L.some) for i in range(len(q.blocks) - 1))
            ok &= L.complete()
            for c in ins:
                ok &= pairof(copyof(c.args[1]), "0") == pairof(copyof(c.args[2]), "1") != None
    ext = [c for c in q.calls if last(c) == "extend" and c.args[0] == mt]
    if len(ext) == 1 and not ins and gathered(fl, ext[0].args[1], ev):
        return cx.ob("sink", inst + " tags", True, "")
    ok &= not ext
    looped = any(tg(L.it) and set(L.next) & set(q.blocks) for L in loops(fl))
    cx.ob("sink", inst + " tags", looped and ok and len(ins) == n, "an event is not sent with all of its tags")


def pairof(t, i):
    return t[1] if t[0] == "fld" and t[2] == i else None


def order(cx, fl, PY, pref):
    """the length goes out before the payload, both before the flush"""
    raw = [c for c in fl.calls if last(c) == "write_raw_bytes"]
    wr = [c for c in fl.calls if last(c) == "write_to_with_cached_sizes"]
    szs = [c for c in fl.calls if last(c) == "compute_size" and c.args[0] == PY]
    ok = bool(raw) and bool(wr) and all(c.args[0] == wr[0].args[1] for c in raw)
    if ok and pref:
        ok = all(c.args[1] == pref[0].args[0] for c in raw)
    cx.ob("sink", "prefix", ok and not always_before(fl, blks(raw), blks(wr)) and not always_before(fl, blks(szs), blks(wr)), "a payload is written before its length")
    seen = must_reach(fl, succs(fl, blks(raw)), set(blks(wr)) | {b for b, s in edge_pairs(fl, lambda t, v: v == ("v", "Err"))}, blks(raw))
    cx.ob("sink", "payload after length", not seen, "a length is written without its payload")


# ---------------------------------------------------------------- source

def source(cx):
    ps = [p for p in cx.prog.bodies if p.endswith("NativeStreamHandler::handle_stream_payload")]
    if not cx.ob("source", "site", len(ps) == 1, "payloads are not taken apart in one place"):
        return
    fl = cx.flow(ps[0], opaque=(NAT, r"metric::telemetry::(Soft)?Telemetry::", r"metric::logline::LogLine::", r"metric::event::Event::", "^util::send$"))
    pb = [c for c in fl.calls if last(c) in ("parse_from_bytes", "merge_from_bytes")]
    if not cx.ob("source", "parse", len(pb) == 1 and "Payload" in str(pb[0].info.get("targs", "")) + pb[0].fn and pb[0].args[0] == ("arg", 3), "a payload is not read as the native protocol's"):
        return
    PY = inside(pb[0].dest, "Ok")
    snd = [c for c in fl.calls if c.path == "util::send"]
    L = {}
    for l in loops(fl):
        t = l.it
        while call(t, "into_iter", "into_vec", "drain", "iter"):
            t = t[2][0]
        for k in ("points", "lines"):
            if call(t, "take_" + k, "get_" + k) and base(t[2][0]) == PY and whole(fl, l.it, t):
                L.setdefault(k, []).append(l)
    if not cx.ob("source", "all", set(L) == {"points", "lines"} and all(len(x) == 1 and x[0].complete() for x in L.values()), "points or lines of a payload are left out"):
        return
    L = {k: x[0] for k, x in L.items()}
    for i, q in enumerate(trace(fl) or ()):
        v = q.facts.get(pb[0].dest)
        if v == ("v", "Err"):
            ok = q.ret and q.ret[:2] == ("agg", "Err") and not [c for c in q.calls if c.path == "util::send"]
            cx.ob("source", "refused #%d" % i, ok, "a payload that is none is taken")
        else:
            cx.ob("source", "taken #%d" % i, q.ret and q.ret[:2] == ("agg", "Ok") and all(set(l.next) & set(q.blocks) for l in L.values()), "a payload is not taken whole")
    out = set(blks(snd)) - reach(fl, [s for l in L.values() for _, s in l.some], avoid=[b for l in L.values() for b in l.next])
    cx.ob("source", "nothing else", not out, "something is forwarded that no payload has", at(fl, sorted(out)[0]) if out else None)
    kinds, lens = set(), set()
    for k, l in L.items():
        E = l.elem
        got = lambda t, f, E=E: (call(t, "take_" + f, "get_" + f)) and base(t[2][0]) == E or t == ("fld", E, f)
        for i, q in enumerate(l.body(cycles=1) or ()):
            inst = "%s #%d" % (k, i)
            s = [c for c in q.calls if c.path == "util::send"]
            if k == "points":
                emp = [v[1] for t, v in q.facts.items() if call(t, "is_empty") and got(t[2][0], "samples")]
                emp = emp or [v == ("v", "None") for t, v in q.facts.items() if call(t, "split_first", "first") and got(t[2][0], "samples")]
                if emp == [True]:
                    cx.ob("source", inst + " empty", not s and q.end in l.next, "telemetry without samples is not passed over")
                    lens.add(False)
                    continue
            if not cx.ob("source", inst + " sent", q.end in l.next and len(s) == 1 and s[0].args[0] == ("arg", 2), "a %s does not make one event" % k[:-1]):
                continue
            st = chain(s[0].args[1])
            tag(cx, fl, q, inst, st, got)
            secs = [x for n, x in st if n in ("timestamp", "time")]
            cx.ob("source", inst + " time", len(secs) == 1 and seconds(secs[0][0], got), "an event has another time")
            if k == "lines":
                new = [x for n, x in st if n == "new"]
                ok = len(new) == 1 and got(copyof(new[0][0]), "path") and got(copyof(new[0][1]), "value") and st[-1][0] == "new_log"
                cx.ob("source", inst + " line", ok and {n for n, _ in st} <= {"new", "time", "overlay_tag", "new_log"}, "a line has another path or value")
                continue
            lens.add(True)
            d = {}
            for n, x in st:
                d.setdefault(n, []).append(x)
            one = lambda n: d.get(n, [("?",)])[0][0] if len(d.get(n, ())) == 1 and d[n][0] else ("?",)
            cx.ob("source", inst + " name", got(copyof(one("name")), "name"), "a point has another name")
            cx.ob("source", inst + " persist", got(one("persist"), "persisted"), "a point persists otherwise")
            m = [(t, v) for t, v in q.facts.items() if got(t, "method")]
            kd = one("kind")
            ok = len(m) == 1 and m[0][1][0] == "v" and kd[0] == "agg" and KIND.get(kd[1]) == m[0][1][1]
            cx.ob("source", inst + " kind", ok, "a point is of another kind")
            if ok:
                kinds.add(kd[1])
            v = one("value")
            S = next((y for y in subterms(v) if got(y, "samples")), ("?",))
            first = v == parted(S, "0") or v == ("deref", parted(S, "0")) or call(v, "index") and v[2][0] == S and const(v[2][1], 0) or v[0] == "idx" and v[1] == S and const(v[2], 0) or v[0] == "index" and S in v and ("c", 0) in v
            cx.ob("source", inst + " first", first, "a point's first sample is another")
            rest = [x for n, x in st if n == "insert"]
            its = [r for r in loops(fl) if is_rest(r.it, S)]
            n = sum((q.blocks[j], q.blocks[j + 1]) in set(r.some) for r in its for j in range(len(q.blocks) - 1))
            ok = bool(its) and all(r.complete() for r in its) and any(set(r.next) & set(q.blocks) for r in its) and len(rest) == n and all(any(x[0] == r.elem or x[0] == ("deref", r.elem) for r in its) for x in rest)
            cx.ob("source", inst + " rest", ok, "samples of a point are left out, or come again")
            cx.ob("source", inst + " only", set(d) <= {"new", "name", "value", "kind", "persist", "timestamp", "harden", "overlay_tag", "insert", "new_telemetry", "default"} and st[-1][0] == "new_telemetry", "a point is changed")
    cx.ob("source", "kinds", kinds == set(KIND) and True in lens, "a kind of telemetry is not taken")


def parted(S, k):
    """the first of S ("0"), or the rest ("1"), when S is taken apart"""
    return ("fld", ("fld", ("var", ("call", "core::slice::<impl [T]>::split_first", (S,), None), "Some"), "0"), k)


def is_rest(t, S):
    """an iteration over all of S but the first"""
    if call(t, "iter", "into_iter", "cloned", "copied", "deref"):
        return is_rest(t[2][0], S)
    if t[0] == "fld" and t[2] == "1" and t == parted(S, "1"):
        return True
    if call(t, "skip") and const(t[2][1], 1):
        return whole_of(t[2][0], S)
    if call(t, "index") and t[2][0] == S and t[2][1][0] == "agg":
        d = dict(t[2][1][2])
        return list(d) == ["start"] and const(d["start"], 1)
    return False


def whole_of(t, S):
    return t == S or call(t, "iter", "into_iter", "drain") and whole_of(t[2][0], S)


def subterms(t):
    yield t
    for x in t:
        if isinstance(x, tuple):
            for y in subterms(x):
                yield y


def chain(t):
    """the calls a value went through, first to last"""
    out = []
    while True:
        if call(t, "unwrap", "expect") or call(t, "deref"):
            t = t[2][0]
        elif t[0] == "fld" and t[2] == "0" and t[1][0] == "var" and t[1][2] in ("Ok", "Some"):
            t = t[1][1]
        elif t[0] == "call" and "metric::" in t[1]:
            n = last(t[1])
            if n in ("new", "default"):
                out.append((n, t[2]))
                return out[::-1]
            if n.startswith("new_"):
                out.append((n, ()))
            else:
                out.append((n, t[2][1:]))
            if not t[2]:
                return out[::-1]
            t = t[2][0]
        else:
            return out[::-1]


def seconds(t, got):
    while t[0] == "cast":
        t = t[2]
    if t[0] != "bin" or t[1] not in ("Mul", "Div"):
        return False
    a, b = t[2], t[3]
    if t[1] == "Mul" and a[0] == "c":
        a, b = b, a
    while a[0] == "cast":
        a = a[2]
    while b[0] == "cast":
        b = b[2]
    return got(a, "timestamp_ms") and b[0] == "c" and float(b[1]) == (0.001 if t[1] == "Mul" else 1000.0)


def tag(cx, fl, q, inst, st, got):
    ins = [x for n, x in st if n == "overlay_tag"]
    its = []
    for r in loops(fl):
        t = r.it
        while call(t, "drain", "into_iter", "iter"):
            t = t[2][0]
        if got(t, "metadata") and whole(fl, r.it, t):
            its.append(r)
    n = sum((q.blocks[j], q.blocks[j + 1]) in set(r.some) for r in its for j in range(len(q.blocks) - 1))
    ok = bool(its) and all(r.complete() for r in its) and any(set(r.next) & set(q.blocks) for r in its) and len(ins) == n
    ok &= all(any(copyof(x[0]) == ("fld", r.elem, "0") and copyof(x[1]) == ("fld", r.elem, "1") for r in its) for x in ins)
    cx.ob("source", inst + " tags", ok, "an event does not have the tags it was sent with")


def run(cx):
    ms, enums = proto()
    if not cx.ob("proto", "messages", set(ms) == {"Payload", "LogLine", "Telemetry"} and set(enums) == {"AggregationMethod"} and sum(map(len, ms.values())) == 13, "native.proto has other messages than the checks know"):
        return
    numbers(cx, enums)
    for msg, fields in ms.items():
        p = "<%s%s as protobuf::Message>::" % (NAT, msg)
        written(cx, cx.flow(p + "write_to_with_cached_sizes", opaque=(NAT,)), msg, fields)
        sized(cx, cx.flow(p + "compute_size", opaque=(NAT,)), msg, fields)
        read(cx, cx.flow(p + "merge_from", opaque=(NAT,)), msg, fields)
        accessors(cx, msg, fields)
    sink(cx)
    source(cx)
