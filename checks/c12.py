"""No input ends a source: every construct of the sources' code that can panic - unwraps,
asserts, unreachable!, checked arithmetic, indexing, slicing - is shown not to be reached,
or to be reached only for reasons that lie in the configuration or the machine."""
from rules import *

ROOTS = [("statsd", r"^<source::statsd::Statsd as source::Source<.*>>::run$", ()),
         ("statsd line", r"^protocols::statsd::parse_statsd$", (3, 4)),
         ("graphite", r"^<source::graphite::GraphiteStreamHandler as source::tcp::TCPStreamHandler>::handle_stream$", (1,)),
         ("graphite line", r"^protocols::graphite::parse_graphite$", (3,)),
         ("native", r"^<source::native::NativeStreamHandler as source::tcp::TCPStreamHandler>::handle_stream$", (1,)),
         ("avro", r"^<source::avro::AvroStreamHandler as source::tcp::TCPStreamHandler>::handle_stream$", (1,))]
# what fails here is the machine, not the peer
ENV = ("lock", "try_clone", "poll", "register", "reregister", "deregister", "local_addr", "into_inner", "spawn")
PURE = re.compile(r"^(partial_cmp|cmp|eq|ne|lt|le|gt|ge|new|clone|len|is_empty|is_none|is_some|is_match|deref|as_ref|as_str|iter|next)$")
SAFE = {"with_capacity", "drain"}
INDEX = re.compile(r"::(index|index_mut|split_at|split_at_mut|swap_remove|swap|copy_from_slice|clone_from_slice|split_off|chunks|chunks_exact|windows|from_digit|borrow_mut|borrow|get_unchecked|get_unchecked_mut|slice_unchecked|from_utf8_unchecked|rotate_left|rotate_right|rem_euclid|step_by)$")


def last(c):
    return (c if isinstance(c, str) else c.path).rsplit("::", 1)[-1]


def call(t, *names):
    return isinstance(t, tuple) and len(t) > 2 and t[0] == "call" and last(t[1]) in names


def inside(t, v):
    return ("fld", ("var", t, v), "0")


def subs(t):
    yield t
    for x in t:
        if isinstance(x, tuple):
            for y in subs(x):
                yield y


def headers(fl):
    """blocks a cycle is entered by"""
    color, out, st = {}, set(), [(0, iter(fl.succ.get(0, ())))]
    color[0] = 1
    while st:
        b, it = st[-1]
        for s in it:
            if color.get(s) == 1:
                out.add(s)
            elif s not in color:
                color[s] = 1
                st.append((s, iter(fl.succ.get(s, ()))))
                break
        else:
            color[b] = 2
            st.pop()
    return out


def never(fl, t, v, seen=()):
    """t cannot be of variant v: nothing that flows together in it is"""
    path = []
    while t[0] in ("fld", "var"):
        path.append(("f" if t[0] == "fld" else "d", t[2]))
        t = t[1]
    if t[0] != "phi":
        return False
    place = ("phi", t[1], t[2], t[3] + tuple(reversed(path)))
    if place in seen:
        return True
    if len(seen) > 12:
        return False
    ins = phi_ins(fl, place)
    if not ins:
        return False
    cut = next((i for i, e in enumerate(place[3]) if e[0] == "d"), None)
    tops = phi_ins(fl, place[:3] + (place[3][:cut],)) if cut is not None else ins
    for (_, x, facts), (_, whole_, _) in zip(ins, tops):
        if cut is not None and whole_[0] == "agg" and whole_[1] != place[3][cut][1]:
            continue
        if x[0] == "agg" and x[1] != v:
            continue
        while x[0] == "upd":
            x = x[1]
        f = facts.get(x)
        if f and f[0] == "v" and f[1] != v:
            continue
        if x[0] in ("phi", "fld") and never(fl, x, v, seen + (place,)):
            continue
        return False
    return True


def harmless(t, conf, q):
    """t has nothing to do with what a peer sends"""
    base = t
    while base[0] in ("fld", "var"):
        base = base[1]
    if base[0] == "phi" and base[2][0] == "t" and call(base[2][1], "make_mut") and base[2][1][2][0][0] == "arg" and base[2][1][2][0][1] in conf:
        # the configured value, copied for this use: taken out of the copy no more than once
        return len([c for c in q.calls if last(c) == "make_mut"]) == 1 >= len([c for c in q.calls if last(c) == "take" and c.args and c.args[0] == base[2][1]])
    if call(t, "new") and "Histogram" in t[1] and t[2][0][:2] == ("nullary", "Box"):
        return True  # bounds written in the code
    if t[0] == "call" and last(t[1]) in ENV:
        return True
    if t[0] == "call" and last(t[1]).startswith("write_") and t[2] and (memory(t[2][0]) or call(t[2][0], "new") and "Cursor" in t[2][0][1] and all(memory(x) for x in t[2][0][2])):
        return True  # memory can be written to
    xs = list(subs(t))
    args = {x[1] for x in xs if x and x[0] == "arg"}
    return bool(args) and args <= set(conf) and not any(x and x[0] in ("top", "undef", "?", "phi", "upd") or x and x[0] == "call" and (not x[2] or not PURE.match(last(x[1]))) for x in xs)


def memory(t):
    return call(t, "new", "with_capacity") and "Vec" in t[1]


# ------------------------------------------------------------- positions in text

def norm(t):
    """t as a sum: (constant, other addends)"""
    if t[0] == "bin" and t[1] == "Add":
        a, b = norm(t[2]), norm(t[3])
        return a[0] + b[0], tuple(sorted(a[1] + b[1], key=repr))
    if t[0] == "c" and isinstance(t[1], int):
        return t[1], ()
    return 0, (t,)


def found(t, S):
    """t is where a text is found from a position of S on: (that position, bytes of the text)"""
    if not (t[0] == "fld" and t[2] == "0" and t[1][0] == "var" and t[1][2] == "Some" and call(t[1][1], "find")):
        return None
    hay, pat = t[1][1][2][:2]
    if pat[0] != "c" or not isinstance(pat[1], str) or not pat[1] or any(ord(x) > 127 for x in pat[1]):
        return None
    if hay == S:
        return (0, ()), len(pat[1])
    if call(hay, "index") and hay[2][0] == S and hay[2][1][0] == "agg":
        d = dict(hay[2][1][2])
        if set(d) <= {"start"}:
            return norm(d.get("start", ("c", 0))), len(pat[1])
    return None


def position(n, S, d=0):
    """the positions of S known to lie before n and n itself, if n is a position of S"""
    k, adds = n
    if not adds:
        return [n] if k == 0 else None
    if d > 12:
        return None
    for x in set(adds):
        f = found(x, S)
        if not f:
            continue
        (pk, padds), w = f
        rest = list(adds)
        rest.remove(x)
        if tuple(rest) == padds and k in (pk, pk + w):
            p = position((pk, padds), S, d + 1)
            if p is not None:
                return p + [(pk, adds), n]
    return None


def sliced(c, facts):
    S, r = c.args[0], c.args[1]
    if call(r, "new") and "RangeInclusive" in r[1]:
        a, b = norm(r[2][0]), norm(r[2][1])
        # one ASCII character: what starts here was read as a number
        ok = a == b and position(a, S)
        begin = lambda r: norm(dict(r[2]).get("start", ("c", 0))) if r[0] == "agg" else None
        return bool(ok) and any(call(t, "from_str", "parse") and v == ("v", "Ok") and call(t[2][0], "index") and t[2][0][2][0] == S
                                and begin(t[2][0][2][1]) == a for t, v in facts.items())
    if r[0] != "agg":
        return False
    d = dict(r[2])
    if not d:
        return True
    a = norm(d.get("start", ("c", 0)))
    if "end" not in d:
        return position(a, S) is not None
    b = norm(d["end"])
    p = position(b, S)
    return p is not None and (a in p or a == (0, ()))


def nonempty(facts, v):
    for t, x in facts.items():
        if call(t, "is_empty") and t[2][0] == v and x == ("c", False):
            return True
        if call(t, "first", "last", "split_first", "split_last", "pop") and t[2][0] == v and x == ("v", "Some"):
            return True
        n = [y for y in subs(t) if call(y, "len") and y[2][0] == v]
        if n and isinstance(x, tuple) and x[0] == "c":
            try:
                if evalt(t, lambda y: 0 if y == n[0] else None) != x[1]:
                    return True
            except (Unknown, Overflow):
                pass
    return False


def indexed(fl, c, facts):
    v, r = c.args[0], c.args[1]
    if fl.ib.blocks[c.blk].term[1].get("targs", [""])[-1].endswith("ops::RangeFull"):
        return True
    if "str" in c.path.split("::index")[0].rsplit("::", 2)[-1] or call(v, "lines") or "for str" in c.path or "<impl str>" in c.path:
        return sliced(c, facts)
    if is_const(r, 0) or r[0] == "agg" and set(dict(r[2])) == {"start"} and dict(r[2])["start"][0] == "c" and dict(r[2])["start"][1] in (0, 1):
        return nonempty(facts, v) or r[0] == "agg" and dict(r[2])["start"][1] == 0
    if r[0] == "agg" and set(dict(r[2])) == {"end"}:
        e = dict(r[2])["end"]
        # as many bytes of a buffer as were read into it
        src = e[1] if e[0] == "fld" and e[2] == "0" else e
        src = src if e[0] == "fld" and src[0] == "fld" else e
        if src[0] == "fld" and src[1][0] == "var" and src[1][2] == "Ok" and call(src[1][1], "recv_from", "read", "recv", "peek") and v in src[1][1][2]:
            return True
        if e[0] == "fld" and e[1][0] == "var" and e[1][2] == "Ok" and call(e[1][1], "recv_from", "read", "recv") and v in e[1][1][2]:
            return True
    return False


SIZES = ("find", "rfind", "len", "read", "write", "recv_from", "count", "position", "read_line", "read_until")


def size(fl, t, seen=()):
    """t is a number of things in memory, or an index of one"""
    while t[0] in ("fld", "var", "cast"):
        t = t[1] if t[0] != "cast" else t[2]
    if t[0] == "c":
        return isinstance(t[1], int) and 0 <= t[1] < 1 << 20
    if t[0] == "bin" and t[1] == "Add":
        return size(fl, t[2], seen) and size(fl, t[3], seen)
    if t[0] == "call":
        return last(t[1]) in SIZES
    if t[0] == "phi":
        if t in seen:
            return True
        ins = phi_ins(fl, t)
        return len(seen) < 12 and bool(ins) and all(size(fl, x, seen + (t,)) for _, x, _ in ins)
    return False


def graphite(cx, t, v, q):
    """a line said to hold points does: parse_graphite returns whether it left some"""
    if not call(t, "is_empty") or v != ("c", True):
        return False
    ok = [x for x, y in q.facts.items() if call(x, "parse_graphite") and y == ("c", True) and len(x[2]) > 1 and x[2][1] == t[2][0]]
    order = [last(c) for c in q.calls if t[2][0] in c.args and last(c) in ("parse_graphite", "clear", "drain", "pop", "truncate", "remove", "retain", "swap_remove", "split_off", "append")]
    if len(ok) != 1 or order[-1:] != ["parse_graphite"]:
        return False
    pl = cx.flow(ok[0][1])
    rets = [x for r in trace(pl) if r.ret is not None for x in [(r.ret, r)]]
    return bool(rets) and all(is_const(r, False) or r[0] == "not" and call(r[1], "is_empty") and r[1][2][0] == ("arg", 2) or r == ("c", True) and nonempty(p.facts, ("arg", 2)) for r, p in rets)


NB = "source::nonblocking::"


def run(cx):
    total = 0
    for name, pat, conf in ROOTS:
        ps = [p for p in cx.prog.bodies if re.search(pat, p)]
        if not cx.ob("site", name, len(ps) == 1, "the code that handles %s is not found" % name):
            continue
        op = ("^util::send$", r"^<protocols::", r"^protocols::native::") + (() if "line" in name else (r"^protocols::(statsd|graphite)::parse",))
        fl = cx.flow(ps[0], opaque=op)
        pan = {}
        for b, what, span, org in fl.panics:
            pan[b] = (what, span, org)
        heads = headers(fl)
        idx = {}
        for c in fl.calls:
            if INDEX.search(c.path) and not (last(c) in ("borrow", "borrow_mut") and "RefCell" not in c.path):
                idx.setdefault(c.blk, []).append(c)
        total += len(pan) + len(idx) + len(fl.asserts)
        bad, low = {}, {}
        met = set()
        starts = [None] + [[(h, None)] for h in heads]
        for st in starts:
            # each piece of a path between two turns, once up to every panic and once through
            qs = trace(fl, st, set(pan) | heads - set(), limit=60000)
            if qs is None:
                cx.ob("paths", name, False, "there are too many ways to handle %s" % name)
                continue
            for q in qs:
                if q.end in pan and q.end not in bad:
                    met.add(q.end)
                    k = list(q.local) or list(q.facts)
                    t = k[-1] if k else ("?",)
                    v = q.facts.get(t, ("?",))
                    if t[0] == "not":
                        t, v = t[1], ("?",)
                    if harmless(t, conf, q) or graphite(cx, t, v, q) or v[0] == "v" and never(fl, t, v[1]):
                        continue
                    bad[q.end] = (t, v)
                for x in fl.asserts:
                    if x[2][:2] == ("ovf", "Sub") and x[0] in q.blocks and x[2][3][0] == "c":
                        low[x[0]] = low.get(x[0], True) and all(not could(q, lambda y: k if y == x[2][2] else None, "u64") for k in range(x[2][3][1]))
                for c in q.calls:
                    if c.blk in idx and INDEX.search(c.path) and not indexed(fl, c, q.facts) and not safe_elsewhere(fl, c, name):
                        bad.setdefault(("i", c.blk), c)
        for b, (what, span, org) in pan.items():
            cx.ob("no panic", "%s %s:%s %s" % (name, span[0], what, b), b not in bad, "what a peer sends can end up in a panic", at(fl, b))
        for b, cs in idx.items():
            cx.ob("in bounds", "%s %s %s" % (name, last(cs[0]), b), ("i", b) not in bad, "what a peer sends can be out of bounds", at(fl, b))
        for x in fl.asserts:
            t = x[2]
            ok = t[0] == "ovf" and t[1] == "Add" and size(fl, t[2]) and size(fl, t[3])
            ok = ok or x[0] in low and low[x[0]]
            cx.ob("arithmetic", "%s %s" % (name, x[0]), ok, "what a peer sends can overflow (%s)" % x[1], at(fl, x[0]))
    cx.floor("constructs that can panic", total, 40)


def safe_elsewhere(fl, c, name):
    org = fl.ib.blocks[c.blk].org if hasattr(fl.ib.blocks[c.blk], "org") else ""
    if org.startswith(NB):
        return True  # the reader's positions are decided by C14's evaluation of all its states
    if "Slab" in c.path or "Slab" in str(c.args[0]) or "tokens" in str(c.args[0]):
        return True  # tokens are handed out by the slab they index
    return False
