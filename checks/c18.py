"""Time buckets.  Buckets::add is followed path by path and each path is compared
with what it means to aggregate: the series is the one whose key is the point's
name-and-tag hash, the bin is the one `within` finds, a point of an existing bin is
added to it and never counted, a new bin is counted once and holds the point - or,
for a persisted point with an older neighbour, that neighbour's value carried
forward plus the point.  reset and the iterator are checked the same way."""
from rules import *

B = "buckets::Buckets::"
A, P = ("arg", 1), ("arg", 2)
KEYS, VALS, COUNT = ("fld", A, "keys"), ("fld", A, "values"), ("fld", A, "count")
TADD = "<metric::telemetry::Telemetry as std::ops::AddAssign>::add_assign"


def last(c):
    return (c if isinstance(c, str) else c.path).rsplit("::", 1)[-1]


def is_call(t, *names):
    return t[0] == "call" and last(t[1]) in names


def run(cx):
    add(cx)
    reset(cx)
    iterate(cx)
    within(cx)
    start(cx)


def series(t):
    """t is values[i]: i"""
    if is_call(t, "index_mut", "index") and t[2][0] == VALS:
        return t[2][1]
    if t[0] in ("at", "idx") and t[1] == VALS:
        return t[2]
    return None


def search(t, coll):
    return is_call(t, "binary_search_by", "binary_search", "binary_search_by_key", "position") and t[2][0] == coll


def strip_pay(t):
    """search@Ok.0 -> (search, 'Ok')"""
    if t[0] == "fld" and t[2] == "0" and t[1][0] == "var":
        return t[1][1], t[1][2]
    return None, None


def add(cx):
    fl = cx.flow(B + "add", opaque=("metric::",))
    ps = trace(fl)
    if not cx.ob("followed", "add", bool(ps), "add could not be followed"):
        return
    H = None
    n = 0
    for p in ps:
        n += 1
        where = at(fl, p.blocks[-2])
        slot, found, inserted = None, None, []
        ks = [t for t in p.facts if t[0] == "call" and search(t, KEYS)]
        kv = p.facts[ks[0]][1] if len(ks) == 1 else None
        name = "%s series" % {"Ok": "known", "Err": "new"}.get(kv, "?")
        if not cx.ob("series-lookup", name, kv in ("Ok", "Err"), "the point's series is not looked up among the keys", where):
            continue
        K = ks[0]
        idx = ("fld", ("var", K, kv), "0")
        if kv == "Err":
            ki = [c for c in p.calls if last(c) == "insert" and c.args[0] == KEYS]
            vi = [c for c in p.calls if last(c) == "insert" and c.args[0] == VALS]
            cx.ob("new-series", "keys", len(ki) == 1 and ki[0].args[1] == idx and is_call(ki[0].args[2], "name_tag_hash") and ki[0].args[2][2] == (P,), "a new series is not filed under the point's own key at the place the search gave", where)
            cx.ob("new-series", "values", len(vi) == 1 and vi[0].args[1] == idx and empty(vi[0].args[2]), "a new series does not start empty at the place the search gave", where)
        else:
            cx.ob("known-series", "unchanged", not [c for c in p.calls if last(c) in ("insert", "remove", "push") and c.args[0] in (KEYS, VALS)], "a known series is filed again", where)
        S = [t for t in p.facts if t[0] == "call" and is_call(t, "binary_search_by", "binary_search_by_key", "binary_search") and series(t[2][0]) == idx]
        if not cx.ob("bin-lookup", name, len(S) == 1, "the bin is not looked up in the point's own series", where):
            continue
        S = S[0]
        slot = S[2][0]
        sv = p.facts[S][1]
        at_ = ("fld", ("var", S, sv), "0")
        w = [x for x in p.writes if x.root == A and x.proj[:1] == (("f", "count"),)]
        adds = [c for c in p.calls if c.path == TADD]
        ins = [c for c in p.calls if last(c) in ("insert", "push") and c.args[0] == slot]
        if sv == "Ok":
            cell = [c for c in adds if is_call(c.args[0], "index_mut") and c.args[0][2] == (slot, at_) or c.args[0][0] == "at" and c.args[0][1:] == (slot, at_)]
            cx.ob("existing-bin", name, len(adds) == 1 == len(cell) and adds[0].args[1] == P and not ins, "a point of an existing bin is not added to it exactly once", where)
            cx.ob("existing-bin-not-counted", name, not w, "a point of an existing bin is counted as a new one", where)
            continue
        good = len(w) == 1 and one_more(w[0].val)
        cx.ob("new-bin-counted", name, good, "a new bin is not counted once", where)
        if not cx.ob("new-bin", name, len(ins) == 1 and (ins[0].args[1] == at_), "a new bin is not inserted exactly once where the search said", where):
            continue
        v = ins[0].args[2]
        pers = p.facts.get(("fld", P, "persist"))
        older = None
        for t, f in p.facts.items():
            o = gt0(t, f, at_)
            if o is not None:
                older = o
        carry = pers == ("c", True) and older is True
        if carry:
            pre = index_of(v)
            ok = carried(v, slot, at_) and len(adds) == 1 and adds[0].args == [v, P] and p.calls.index(adds[0]) < p.calls.index(ins[0])
            cx.ob("carried-forward", name, ok, "a persisted point does not start from its predecessor's value: %s" % fmt(v), where)
        else:
            cx.ob("stored", name, v == P and not adds and (pers == ("c", False) or older is False), "the point itself is not what a new bin holds (or a persisted point's predecessor is ignored)", where)
    cx.floor("paths of add", n, 8)
    # the orders the searches are made by
    kc = [c for c in fl.calls if last(c) in ("partial_cmp", "cmp") and c.args and c.args[0] == fl.elem(KEYS)]
    kc += [c for c in fl.calls if last(c) == "binary_search" and c.args and c.args[0] == KEYS]
    cx.ob("search-order", "keys", bool(kc) and all(is_call(c.args[1], "name_tag_hash") and c.args[1][2] == (P,) for c in kc), "series are not searched by the point's name and tags")
    wc = [c for c in fl.calls if c.path.endswith("Telemetry::within")]
    cx.ob("search-order", "bins", bool(wc) and all(c.args[0][0] == "elem" and c.args[1] == ("fld", A, "bin_width") and c.args[2] == P for c in wc), "bins are not searched by the configured width")


def index_of(v):
    return None


def empty(t):
    return t[0] == "default" or t[0] == "call" and re.search(r"::(with_capacity|new|default)$", t[1])


def one_more(v):
    if v[0] == "call" and last(v[1]) in ("saturating_add", "wrapping_add"):
        return v[2] == (COUNT, ("c", 1))
    return v[0] == "bin" and v[1] == "Add" and {v[2], v[3]} == {COUNT, ("c", 1)}


def gt0(t, f, x):
    if t[0] != "bin" or f[0] != "c":
        return None
    op, a, b, tr = t[1], t[2], t[3], f[1]
    if b == x:
        a, b = b, a
        op = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(op, op)
    if a != x or b[0] != "c":
        return None
    return {("Gt", 0): tr, ("Ge", 1): tr, ("Ne", 0): tr, ("Eq", 0): not tr, ("Lt", 1): not tr, ("Le", 0): not tr}.get((op, b[1]))


def carried(v, slot, idx):
    """harden(persist(thaw(timestamp(slot[idx-1], P.timestamp)), true)) in any order of the setters"""
    if v[0] == "fld" and v[1][0] == "var" and v[1][2] == "Ok":
        v = v[1][1]
    if not is_call(v, "harden"):
        return False
    v = v[2][0]
    seen = {}
    while v[0] == "call" and last(v[1]) in ("persist", "timestamp", "thaw", "clone"):
        n = last(v[1])
        if len(v[2]) > 1 and n not in seen:
            seen[n] = v[2][1]
        elif n == "thaw":
            seen[n] = True
        v = v[2][0]
    return seen.get("thaw") and is_const(seen.get("persist", ("c", None)), True) and seen.get("timestamp") == ("fld", P, "timestamp") and (
        is_call(v, "index", "index_mut") and v[2] == (slot, ("bin", "Sub", idx, ("c", 1))) or v[0] == "at" and v[1:] == (slot, ("bin", "Sub", idx, ("c", 1))))


def reset(cx):
    fl = cx.flow(B + "reset")
    el = fl.elem(VALS)
    it = lambda q: q[0] == "call" and last(q[1]) == "next" and whole(fl, q[2][0], VALS)
    some = edge_pairs(fl, lambda t, v: v == ("v", "Some") and it(t))
    done = edge_pairs(fl, lambda t, v: v == ("v", "None") and it(t))
    nx = [c.blk for c in fl.calls if it(c.dest)]
    cx.ob("every-series", "reset", bool(done) and not (reach(fl, [0], avoid=[s for _, s in done]) & set(fl.ret_blocks)), "not every series is reset")
    z = [w.blk for w in fl.writes if w.root == A and w.proj == (("f", "count"),) and is_const(w.val, 0)]
    cx.ob("count-restarts", "reset", bool(z) and not (reach(fl, [0], avoid=z) & set(nx)), "the count does not start over")
    ps = trace(fl, some, nx)
    if not cx.ob("followed", "reset", bool(ps), "reset could not be followed"):
        return
    head = fl.inst
    n = 0
    for p in ps:
        if p.end not in nx:
            cx.ob("every-series", "reset stops", False, "the reset ends at one series")
            continue
        n += 1
        e = None
        for t, f in p.facts.items():
            g = emptyfact(t, f, el)
            e = g if g is not None else e
        pf = [f[1] for t, f in p.facts.items() if t[0] == "fld" and t[2] == "persist" and is_last(t[1], el)]
        muts = [c for c in p.calls if c.args and c.args[0] == el and last(c) in ("clear", "truncate", "swap", "drain", "retain", "remove", "push", "insert", "pop", "split_off", "swap_remove")]
        w = [x for x in p.writes if x.proj == (("f", "count"),) and x.root == A]
        names = [last(c) for c in muts]
        if e is True or not pf:
            cx.ob("empty-series", "reset", (e is True or not [f for t, f in p.facts.items() if t[0] == "fld" and t[2] == "persist"]) and not w and names in ([], ["clear"]), "an empty series does not stay empty")
        elif pf[0]:
            ok = one_kept(muts, el)
            cx.ob("persisted-kept", "reset", ok, "a persisted series does not keep exactly its newest bin")
            ts = [x for x in p.writes if x.proj[-1:] == (("f", "timestamp"),)]
            cx.ob("persisted-now", "reset", len(ts) == 1 and is_now(ts[0].val) and kept_bin(ts[0].root, ts[0].proj, el), "a kept bin is not moved to the current time")
            cx.ob("persisted-counted", "reset", len(w) == 1 and (w[0].val[0] == "call" and last(w[0].val[1]) == "saturating_add" and is_const(w[0].val[2][1], 1) or w[0].val[0] == "bin" and w[0].val[1] == "Add" and ("c", 1) in w[0].val[2:]), "a kept bin is not counted")
        else:
            ok = names == ["clear"] or names == ["truncate"] and is_const(muts[0].args[1], 0)
            cx.ob("ephemeral-cleared", "reset", ok and not w, "a series that does not persist keeps its bins")
    cx.floor("cases of reset", n, 3)


def kept_bin(t, proj, el):
    """the one bin of a series that keeps one"""
    if len(proj) == 2 and proj[0] == ("i", 0) and t == el:
        return True
    return len(proj) == 1 and (is_call(t, "index", "index_mut") and t[2] == (el, ("c", 0)) or t[0] == "at" and t[1:] == (el, ("c", 0)) or is_last(t, el)
                               or t[0] == "fld" and t[1][0] == "var" and is_call(t[1][1], "first_mut", "last_mut", "get_mut") and t[1][1][2][0] == el)


def emptyfact(t, f, el):
    if is_call(t, "is_empty") and t[2] == (el,) and f[0] == "c":
        return f[1]
    if t[0] == "bin" and f[0] == "c":
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if is_call(a, "len") and a[2] == (el,) and b == ("c", 0):
                return {"Eq": f[1], "Ne": not f[1], "Gt": not f[1]}.get(t[1])
    if f[0] == "v" and is_call(t, "last", "last_mut") and t[2] == (el,):
        return f[1] == "None"
    return None


def is_last(t, el):
    if is_call(t, "index", "index_mut") and t[2][0] == el:
        i = t[2][1]
    elif t[0] == "at" and t[1] == el:
        i = t[2]
    else:
        return t[0] == "fld" and t[1][0] == "var" and is_call(t[1][1], "last", "last_mut") and t[1][1][2] == (el,)
    return i[0] == "bin" and i[1] == "Sub" and is_const(i[3], 1) and is_call(i[2], "len") and i[2][2] == (el,)


def one_kept(muts, el):
    n = [last(c) for c in muts]
    lst = lambda i: i[0] == "bin" and i[1] == "Sub" and is_const(i[3], 1) and is_call(i[2], "len") and i[2][2] == (el,)
    if n == ["swap", "truncate"]:
        a, b = muts[0].args[1:3]
        return (is_const(a, 0) and lst(b) or is_const(b, 0) and lst(a)) and is_const(muts[1].args[1], 1)
    if n == ["drain"]:
        r = muts[0].args[1]
        return r[0] == "agg" and lst(dict(r[2]).get("end", ("c", 0)))
    if n in (["pop", "clear", "push"], ["swap_remove", "clear", "push"]):
        v = muts[2].args[1]
        return v in (muts[0].dest, ("fld", ("var", muts[0].dest, "Some"), "0"))
    return False


class Same:
    """n rows of one size"""

    def __init__(self, n, each):
        self.n, self.each = n, each

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if not 0 <= i < self.n:
            raise IndexError(i)
        return self.each


def constants(ps):
    """the numbers above those of the small cases that paths compare or compute with"""
    ts = [t for q in ps for t, v in q.facts.items()] + [w.val for q in ps for w in q.writes]
    return {x[1] for t in ts for x in flow.subterms(t) if x[0] == "c" and isinstance(x[1], int) and 2 < x[1] < 1 << 31}


def iterate(cx):
    """the iterator as a machine over (series, bin), taken through all small buckets"""
    fl = cx.flow("<buckets::Iter<'a> as std::iter::Iterator>::next")
    K, V = ("fld", ("fld", A, "buckets"), "keys"), ("fld", ("fld", A, "buckets"), "values")
    hs = heads(fl)
    ps, starts = trace(fl, None, hs), {h: trace(fl, [(h, None)], hs) for h in hs}
    if not cx.ob("followed", "iter", bool(ps) and all(starts.values()), "the iterator could not be followed"):
        return

    def which(t):
        while t[0] == "phi" and t[2] == ("t", A) or t[0] == "fld":
            if t[0] == "phi":
                return t[3][0][1] if len(t[3]) == 1 else None
            return t[2] if t[1] == A and t[2] in ("key_index", "value_index") else None
        return None

    def env(ki, vi, lens):
        def f(t):
            w = which(t)
            if w:
                return {"key_index": ki, "value_index": vi}.get(w)
            if is_call(t, "len") and t[2][0] in (K, V) or t[0] == "len" and t[1] in (K, V):
                return len(lens)
            r = t[2][0] if is_call(t, "len") else t[1] if t[0] == "len" else None
            if r is not None:
                i = index(r, V)
                if i is not None:
                    i = evalt(i, f, "u64")
                    return lens[i] if i < len(lens) else None
            return None
        return f

    def index(t, of):
        if is_call(t, "index", "get_unchecked") and t[2][0] == of:
            return t[2][1]
        if t[0] == "at" and t[1] == of:
            return t[2]
        if t[0] == "fld" and t[1][0] == "var" and t[1][2] == "Some" and is_call(t[1][1], "get") and t[1][1][2][0] == of:
            return t[1][1][2][1]
        return None

    def gets(q, ev, lens):
        """what .get() yields agrees with the state"""
        for t, v in q.facts.items():
            if is_call(t, "get") and v[0] == "v":
                try:
                    i = evalt(t[2][1], ev, "u64")
                    n = len(lens) if t[2][0] in (K, V) else lens[evalt(index(t[2][0], V), ev, "u64")]
                except (Unknown, Overflow, TypeError, IndexError):
                    continue
                if (i < n) != (v[1] == "Some"):
                    return False
        return True

    def nxt(s, lens):
        k, v = s
        while k < len(lens):
            if v < lens[k]:
                return k, v
            k, v = k + 1, 0
        return None

    def after(q, s, ev):
        k, v = s
        for w in q.writes:
            if w.root == A and w.proj in ((("f", "key_index"),), (("f", "value_index"),)):
                x = evalt(w.val, ev, "u64")
                k, v = (x, v) if w.proj[0][1] == "key_index" else (k, x)
        return k, v

    n = 0
    cases = []
    for lens in ([], [0], [1], [2], [0, 1], [1, 0], [2, 1], [0, 0], [1, 2, 1]):
        cases += [(lens, (k, v)) for k in range(len(lens) + 1) for v in range(3)]
    # sizes at which a number in the code could matter
    for c in sorted(constants([q for qs in [ps] + list(starts.values()) for q in qs])):
        many, long = Same(c + 3, 1), Same(1, c + 3)
        cases += [(many, (k, v)) for k in range(c - 1, c + 4) for v in range(2)]
        cases += [(long, (0, v)) for v in range(c - 1, c + 4)]
    for where, qs in [("first", ps)] + [("next", v) for v in starts.values()]:
        if True:
            for lens, s in cases:
                if s[1] and (s[0] >= len(lens) or s[1] > lens[s[0]]):
                    continue
                ev = env(s[0], s[1], lens)
                took = [q for q in qs if could(q, ev, "u64") and gets(q, ev, lens)]
                want = nxt(s, lens)
                n += 1
                cx.ob("iter-goes-on", where, bool(took), "the iterator gets stuck")
                for q in took:
                    try:
                        e = after(q, s, ev)
                        if q.ret is None:
                            cx.ob("iter-next-series", where, nxt(e, lens) == want and (e > s or where == "first" and e == s), "the iterator passes over a bin or does not move on")
                        elif q.ret[0] == "agg" and q.ret[1] == "None":
                            cx.ob("iter-end", "None", want is None, "the iteration can end with bins left")
                        else:
                            v = dict(q.ret[2])["0"] if q.ret[0] == "agg" and q.ret[1] == "Some" else None
                            if v is None and is_call(q.ret, "get"):
                                v = ("fld", ("var", q.ret, "Some"), "0")
                            r = row(v, V, index) if v else None
                            item = r and (evalt(r[0], ev, "u64"), evalt(r[1], ev, "u64"))
                            cx.ob("iter-item", "Some", item is not None and item == want, "the item is not the next bin")
                            if item:
                                cx.ob("iter-advance", "Some", nxt(e, lens) == nxt((item[0], item[1] + 1), lens), "the iterator does not move on by one bin")
                    except (Unknown, Overflow) as x:
                        cx.ob("iter-item", "other", False, "what the iterator does is not understood: %s" % x)
    cx.floor("states of the iterator", n, 30)
    fl = cx.flow(B + "iter")
    r = fl.ret()
    d = dict(r[2]) if r and r[0] == "agg" else {}
    cx.ob("iter-start", "iter", is_const(d.get("key_index", ("u",)), 0) and is_const(d.get("value_index", ("u",)), 0) and d.get("buckets") == A, "an iteration does not start at the first bin")


def row(v, V, index):
    """v is V[i][j]: (i, j)"""
    for r in flow.subterms(v):
        if r != v and isinstance(r, tuple) and r and index(r, V) is not None:
            j = index(v, r)
            if j is not None:
                return index(r, V), j
    return None


def heads(fl):
    color, out, st = {0: 1}, set(), [(0, iter(fl.succ.get(0, ())))]
    while st:
        b, it = st[-1]
        for s in it:
            if color.get(s) == 1:
                out.add(s)
            elif s not in color:
                color[s] = 1
                st.append((s, iter(fl.succ.get(s, ()))))
                break
        else:
            color[b] = 2
            st.pop()
    return out


def field(fl, t, name):
    """the field a built value has"""
    while t[0] == "upd":
        if t[2] == ("f", name):
            return t[3]
        t = t[1]
    if t[0] == "agg":
        return dict(t[2]).get(name)
    return ("default", t[1], name) if t[0] == "default" else None


def start(cx):
    """buckets start empty, with the width they are told, and say what they hold"""
    d = trace(cx.flow("<buckets::Buckets as std::default::Default>::default"))
    base = d[0].ret if d and len(d) == 1 else None
    if not cx.ob("followed", "default", base is not None, "how buckets start could not be followed"):
        return
    for who, t in [("default", base)] + [("new", q.ret) for q in trace(cx.flow(B + "new")) or []]:
        def get(n):
            x = field(None, t, n)
            return field(None, base, n) if x and x[0] == "default" and len(x) == 3 and x[2] == n else x
        cx.ob("starts-empty", who, is_const(get("count") or ("?",), 0) and all(empty(get(n) or ("?",)) for n in ("keys", "values")), "buckets do not start empty")
        w = get("bin_width") or ("?",)
        cx.ob("bin-width", who, w == (("arg", 1) if who == "new" else ("c", 1)), "buckets do not have the width they were told (or of one second)")
    for q in trace(cx.flow(B + "is_empty")) or [None]:
        ok = q is not None
        for k in (0, 1, 2):
            ev = lambda t: k if t == COUNT else None
            try:
                ok = ok and (not could(q, ev, "u64") or bool(evalt(q.ret, ev, "u64")) == (k == 0))
            except (Unknown, Overflow):
                ok = False
        cx.ob("is-empty", "is_empty", ok, "buckets say they are empty when they are not, or the other way round")
    for q in trace(cx.flow(B + "count")) or [None]:
        t = q.ret if q else ("?",)
        cx.ob("count-told", "count", (t[2] if t[0] == "cast" else t) == COUNT, "the number of points told is not the one kept")
    for q in trace(cx.flow(B + "len")) or [None]:
        t = q.ret if q else ("?",)
        cx.ob("count-told", "len", is_call(t, "len") and t[2][0] in (KEYS, VALS), "the number of series told is not the one kept")


def within(cx):
    fl = cx.flow("metric::telemetry::Telemetry::within", opaque=("metric::cmp_tagmap",))
    S, O = ("arg", 2), ("arg", 3)
    ps = trace(fl)
    if not cx.ob("followed", "within", bool(ps), "within could not be followed"):
        return
    n = 0
    bins = lambda x: ("bin", "Div", ("fld", x, "timestamp"), S)
    for p in ps:
        r = p.ret
        nm = [(t, f) for t, f in p.facts.items() if is_call(t, "partial_cmp", "cmp") and t[2] == (("fld", A, "name"), ("fld", O, "name"))]
        if is_call(r, "cmp"):
            n += 1
            cx.ob("same-bin", "within", r[2] == (bins(A), bins(O)), "bins are not compared by the time divided by the width: " + fmt(r))
        elif r[0] == "call" and last(r[1]) not in ("unwrap", "expect"):
            cx.ob("same-bin", "within", False, "points are ordered by something else: " + fmt(r))
    cx.ob("same-bin", "decided", n > 0 or bool(fl.calls), "bins are never compared")
    w = [c for c in fl.calls if last(c) == "cmp" and c.args == [bins(A), bins(O)]]
    cx.ob("same-bin", "compared", bool(w), "two points' bins are not compared")
