"""The JSON encoding filter.  Every path of the filter is followed; on each, the event
put out is taken apart down to what was inserted into which JSON object, and the objects
into the order in which the merge function reads them.  The merge function is decided
separately: complete loops over the objects and their entries, an entry kept exactly when
its key is not there yet."""
from rules import *

E, R, A = ("arg", 2), ("arg", 3), ("arg", 1)
LOG = ("fld", ("var", E, "Log"), "0")
MAP = "serde_json::Map<std::string::String, serde_json::Value>"


def last(c):
    return (c.path if hasattr(c, "path") else c).rsplit("::", 1)[-1]


def fld(n):
    return ("fld", LOG, n)


def ok(t):
    """the contents of a result or option"""
    if t[0] == "fld" and t[2] == "0" and t[1][0] == "var" and t[1][2] in ("Ok", "Some"):
        return t[1][1]
    return None


def is_call(t, name):
    return t is not None and t[0] == "call" and last(t[1]) == name


def run(cx):
    p = cx.method("filter::Filter", r"JSONEncodeFilter$", "process")
    mod = "filter::json_encode_filter::"
    merges = [k for k, b in cx.prog.bodies.items() if k.startswith(mod) and "closure" not in k and b.nargs == 1 and b.locals[0] == MAP and MAP in b.locals[1] and b.locals[1] != MAP]
    if not cx.ob("merge", "function", len(merges) == 1, "there is not one function merging the objects: %s" % merges):
        return
    merge = merges[0]
    fl = cx.flow(p, opaque=(re.escape(merge) + "$", r"time::datetime$", r"LogLine::tags$"))
    qs = trace(fl)
    if not cx.ob("followed", "process", bool(qs), "the paths of the filter could not be followed"):
        return
    ways = set()
    for i, q in enumerate(qs):
        if q.end not in fl.ret_blocks:
            cx.ob("ends", "#%d" % i, False, "the filter does not return")
            continue
        if not (q.ret is not None and q.ret[0] == "agg" and q.ret[1] == "Ok"):
            cx.ob("ends", "#%d" % i, False, "the filter fails where it has nothing to fail for")
            continue
        touched = [c for c in q.calls if R in c.args and last(c) not in ("len", "reserve", "is_empty")]
        pu = [c.args[1] for c in touched if last(c) == "push"]
        one = len(touched) == 1 and len(pu) == 1
        if q.facts.get(E) == ("v", "Log"):
            if cx.ob("one-for-one", "log #%d" % i, one, "a log line is not made into exactly one event"):
                ways.add(encoded(cx, fl, q, i, pu[0], merge))
        else:
            cx.ob("one-for-one", "other #%d" % i, one and pu == [E] and "Log" in q.facts.get(("not", E), ()) or one and pu == [E] and E in q.facts, "an event that is no log line is not passed on exactly once, as it is")
    cx.ob("parse", "ways", {"parsed", "unwanted", "no JSON", "no object"} <= ways, "of the ways a line's value can be taken, only %s are there" % sorted(str(w) for w in ways))
    cx.floor("ways to take the value", len(ways), 4)
    tags_of(cx)
    merged(cx, merge)


def encoded(cx, fl, q, i, ev, merge):
    inst = "#%d" % i
    if not cx.ob("raw", inst, ev[0] == "agg" and ev[1] == "Raw", "what is put out for a log line is not a raw event"):
        return None
    f = dict(ev[2])
    cx.ob("raw", inst + " encoding", f["encoding"][:2] == ("agg", "JSON"), "the event is not marked as JSON")
    cx.ob("raw", inst + " plain", f["connection_id"][:2] == ("agg", "None") and f["metadata"][:2] == ("agg", "None"), "an encoded log line waits for an acknowledgement or carries metadata")
    b = ok(f["bytes"])
    if is_call(b, "into_bytes"):
        b = ok(b[2][0])
    if not cx.ob("raw", inst + " text", b is not None and (is_call(b, "to_string") or is_call(b, "to_vec")) and b[1].startswith("serde_json::"), "the bytes are not the JSON text of an object"):
        return None
    m = b[2][0]
    if m[0] == "agg" and m[1] == "Object":
        m = m[2][0][1]
    if not cx.ob("merge", inst, m[0] == "call" and m[1] == merge, "what is encoded is not the merged object"):
        return None
    src = m[2][0]
    if src[0] != "arr":
        ws = [w.val for w in q.writes if w.root == src and not w.proj]
        ps = [c.args[1] for c in q.calls if c.args and c.args[0] == src and last(c) == "push"]
        src = ws[-1] if len(ws) == 1 and not ps else ("arr", tuple(ps)) if ps and not ws else src
    if not cx.ob("layers", inst, src[0] == "arr" and len(src[1]) == 3, "not exactly three objects are merged"):
        return None
    parts = list(src[1])
    order = {"X": parts[0], "F": parts[1], "D": parts[2]}
    # fields
    t = order["F"]
    cx.ob("fields", inst, is_call(t, "from_iter") and same_pairs(cx, t[2][0], fld("fields")) or is_call(t, "collect") and same_pairs(cx, t[2][0], fld("fields")) or same_pairs(cx, t, fld("fields")) or filled(fl, t, fld("fields")), "the second object is not the line's fields")
    # metadata
    ins = inserts(q, order["D"])
    if cx.ob("metadata", inst, ins is not None and sorted(ins) == ["path", "tags", "time"], "the last object does not hold time, path and tags, once each"):
        tm = unval(ins["time"])
        cx.ob("metadata", inst + " time", is_call(tm, "to_rfc3339") and is_call(tm[2][0], "from_utc") and is_call(tm[2][0][2][0], "datetime") and tm[2][0][2][0][2] == (fld("time"),), "'time' is not the line's time, as text")
        cx.ob("metadata", inst + " path", unval(ins["path"]) == fld("path"), "'path' is not the line's path")
        tg = unval(ins["tags"])
        if is_call(tg, "from_iter") or is_call(tg, "collect"):
            tg = tg[2][0]
        if tg[0] == "iterop" and tg[1] == "map" and same_pairs(cx, tg, tg[2]):
            tg = tg[2]
        cx.ob("metadata", inst + " tags", tg[0] == "call" and tg[1].endswith("LogLine::tags") and tg[2] == (LOG, ("fld", A, "tags")), "'tags' are not the line's tags together with the filter's")
    # the value
    flag = q.facts.get(("fld", A, "parse_line"))
    parse = [t for t in q.facts if t[0] == "call" and last(t[1]) in ("from_str", "from_slice") and t[1].startswith("serde_json::") and t[2] == (fld("value"),)]
    x = order["X"]
    if flag == ("c", True) and parse and q.facts[parse[0]] == ("v", "Ok"):
        v = ("fld", ("var", parse[0], "Ok"), "0")
        if q.facts.get(v) == ("v", "Object"):
            cx.ob("value", inst + " parsed", x == ("fld", ("var", v, "Object"), "0") and not inserts(q, x), "a line that is a JSON object is not taken for what it says")
            return "parsed"
        way = "no object" if "Object" in q.facts.get(("not", v), ()) or v in q.facts else None
    elif flag == ("c", True) and parse and q.facts[parse[0]] == ("v", "Err"):
        way = "no JSON"
    elif flag == ("c", False):
        way = "unwanted"
    else:
        way = None
    cx.ob("value", inst + " way", way is not None, "whether a line is parsed is not decided by the setting and by the line being a JSON object")
    ins = inserts(q, x)
    cx.ob("value", inst + " message", ins is not None and list(ins) == ["message"] and unval(ins["message"]) == fld("value"), "a line that is not taken as JSON is not put, as it is, under 'message'")
    return way


def inserts(q, m):
    """what a path puts into a new map: key -> value; None if a key is put twice or the map is not new"""
    if not (m[0] == "call" and last(m[1]) in ("new", "with_capacity", "default") or m[0] == "default"):
        return None if m[0] != "fld" else {}
    out = {}
    for c in q.calls:
        if c.args and c.args[0] == m and last(c) not in ("len", "is_empty", "get", "contains_key"):
            k = c.args[1] if len(c.args) > 1 else None
            if last(c) != "insert" or k[0] != "c" or k[1] in out:
                return None
            out[str(k[1]).strip('"')] = c.args[2]
    return out


def unval(t):
    """the value a JSON value is made of"""
    o = ok(t)
    if o is not None and is_call(o, "to_value"):
        return o[2][0]
    if t[0] == "agg" and t[1] in ("String", "Object"):
        return t[2][0][1]
    if is_call(t, "from") or is_call(t, "into"):
        return t[2][0]
    return t


def same_pairs(cx, t, src):
    """a walk over the entries of src that keeps keys and values"""
    if t == src:
        return True
    if t[0] == "iterop" and t[1] == "map" and t[2] == src and t[4][0] == "closure":
        f = cx.flow(t[4][1])
        qs = trace(f)
        a = ("arg", 2)
        return bool(qs) and all(q.ret is not None and q.ret[0] in ("tuple", "agg") and pair(q.ret) == [("fld", a, "0"), ("fld", a, "1")] for q in qs)
    return False


def filled(fl, m, src):
    """a new map into which a loop puts every entry of src"""
    mine = [l for l in loops(fl) if l.over(src) and l.complete()]
    if len(mine) != 1 or not (m[0] == "call" and last(m[1]) in ("new", "with_capacity", "default")):
        return False
    l = mine[0]
    qs = l.body()
    for q in qs or []:
        ins = [c for c in q.calls if c.args and c.args[0] == m]
        if len(ins) != 1 or last(ins[0]) != "insert" or ins[0].args[1] != ("fld", l.elem, "0") or unval(ins[0].args[2]) != ("fld", l.elem, "1"):
            return False
    inside = set(reach(fl, [s for _, s in l.some], avoid=[s for _, s in l.done]))
    return bool(qs) and all(c.blk in inside for c in fl.calls if c.args and c.args[0] == m and last(c) not in ("len", "is_empty"))


def pair(t):
    return [unval(v[1] if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str) and v[0].isdigit() else v) for v in (t[2] if t[0] == "agg" else t[1])]


def tags_of(cx):
    """what LogLine::tags hands out is decided by C18's rules on telemetry and log tags"""
    ps = [k for k in cx.prog.bodies if k.endswith("logline::LogLine::tags")]
    cx.ob("metadata", "tags function", len(ps) == 1, "log lines have no way to say their tags")


def merged(cx, merge):
    fl = cx.flow(merge)
    ls = loops(fl)
    src = ("arg", 1)
    outer = [l for l in ls if l.over(src) or l.it[:3] == ("call", "rev", (src,))]
    inner = [l for l in ls if outer and l.over(outer[0].elem)]
    if not cx.ob("merge", "loops", len(outer) == 1 and len(inner) == 1 and len(ls) == 2, "the merge does not go through the objects and through their entries"):
        return
    o, n = outer[0], inner[0]
    cx.ob("merge", "all objects", o.complete(), "the merge leaves objects out")
    cx.ob("merge", "all entries", n.complete(), "the merge leaves entries out")
    back = o.it[:2] == ("call", "rev")
    K, V = ("fld", n.elem, "0"), ("fld", n.elem, "1")
    stops = [b for l in ls for b in l.next]
    seen = set()
    res = None
    for q in n.body(stops):
        ins = [c for c in q.calls if last(c) == "insert"]
        ent = [c for c in q.calls if last(c) in ("or_insert", "or_insert_with")]
        has = [(t, f) for t, f in q.local.items() if t[0] == "call" and last(t[1]) in ("contains_key", "get", "get_mut") and t[2][1:] == (K,)]
        alien = [c for c in q.calls if last(c) in ("remove", "clear", "append", "extend", "retain", "get_mut", "index_mut")]
        there = None
        if has:
            t, f = has[0]
            there = f in (("c", True), ("v", "Some"))
        if ent:
            seen.add("entry")
            cx.ob("merge", "entry", len(ent) == 1 and ent[0].args[1] == V and not ins and not alien, "an entry is not kept unless its key is there already")
        elif there is None and back:
            seen.add("last wins")
            cx.ob("merge", "entry", len(ins) == 1 and tuple(ins[0].args[1:]) == (K, V) and not alien, "an entry of a weightier object does not replace others")
        elif there is None:
            cx.ob("merge", "entry", False, "whether an entry is kept does not depend on its key being there")
        elif there:
            seen.add("there")
            cx.ob("merge", "entry whose key is there", not ins and not alien, "an entry replaces one of a weightier object")
        else:
            seen.add("new")
            cx.ob("merge", "new entry", len(ins) == 1 and tuple(ins[0].args[1:]) == (K, V) and ins[0].args[0] == has[0][0][2][0] and not alien, "an entry with a new key is left out")
            res = ins[0].args[0] if ins else None
    cx.ob("merge", "cases", seen in ({"there", "new"}, {"entry"}, {"last wins"}), "the merge has other cases: %s" % sorted(seen))
    if res is not None:
        out = [q.ret for q in trace(fl, o.done, stops) or [] if q.ret is not None]
        cx.ob("merge", "result", bool(out) and all(r == res for r in out), "the object filled is not the one handed back")
