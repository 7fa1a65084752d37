"""Identity of telemetry.  Everything drawn from a tag map is followed: it may reach a
hasher or a comparison only through a collection that was sorted first, because a map's
own order says nothing.  What goes into a hash, and the sequence of keys each comparison
goes through, are compared with what makes two points the same."""
from rules import *

TEL = "metric::telemetry::Telemetry"
THROUGH = ("iter", "flatten", "into_iter", "collect", "deref", "deref_mut", "as_ref", "iter_mut", "as_slice", "as_mut_slice", "clone", "next", "unwrap_or_default", "cloned", "to_vec")
SORTS = ("sort", "sort_unstable", "sort_by_key", "sort_unstable_by_key", "sort_by", "sort_unstable_by", "sort_by_cached_key")
PLAIN = ("sort", "sort_unstable")


def last(c):
    return c.path.rsplit("::", 1)[-1]


def name_of(t):
    return t[1].rsplit("::", 1)[-1] if t[0] == "call" else None


def base(t):
    """the map all of whose pairs the collection t holds, or None"""
    while True:
        if t[0] == "call" and name_of(t) in THROUGH and len(t[2]) == 1:
            t = t[2][0]
        elif t[0] == "fld" and t[2] == "0" and t[1][0] == "var" and t[1][2] == "Some":
            t = t[1][1]
        else:
            return t


def fld(x, *ns):
    for n in ns:
        x = ("fld", x, n)
    return x


def sorted_before(fl, coll, blk):
    b = [c.blk for c in fl.calls if last(c) in PLAIN and c.args and same(c.args[0], coll)]
    # or held in a tree from the start
    return bool(b) and not always_before(fl, b, [blk])


def same(a, b):
    while a[0] == "call" and name_of(a) in ("deref", "deref_mut", "as_slice", "iter", "into_iter", "collect", "as_mut_slice") and len(a[2]) == 1 and a != b:
        a = a[2][0]
    while b[0] == "call" and name_of(b) in ("deref", "deref_mut", "as_slice", "iter", "into_iter", "as_mut_slice") and len(b[2]) == 1 and a != b:
        b = b[2][0]
    if a == b:
        return True
    # flatten(iter(x)) with or without the collect
    while a[0] == "call" and name_of(a) in ("collect",) and len(a[2]) == 1:
        a = a[2][0]
    while b[0] == "call" and name_of(b) in ("collect",) and len(b[2]) == 1:
        b = b[2][0]
    return a == b


def run(cx):
    for f, kind in (("hash", True), ("name_tag_hash", False)):
        cx.guard(lambda: hashing(cx, f, kind), "hash", f)
    cx.guard(lambda: tagmaps(cx), "tags", "cmp_tagmap")
    cx.guard(lambda: order(cx), "order", "partial_cmp")
    cx.guard(lambda: within(cx), "order", "within")


def hashing(cx, f, kind):
    fl = cx.flow(TEL + "::" + f)
    S = ("arg", 1)
    H = None
    r = fl.ret()
    if r is not None and r[0] == "call" and name_of(r) == "finish":
        H = r[2][0]
    ok = H is not None and H[0] in ("call", "default") and ("DefaultHasher" in repr(H[1])) and "RandomState" not in repr(H)
    cx.ob("hasher", f, ok, "the hash is not taken from a hasher with fixed keys: %s" % (fmt(r) if r else None))
    if not ok:
        return
    feeds = [c for c in fl.calls if last(c) in ("hash", "write", "hash_slice", "write_u8", "write_u64") and len(c.args) > 1 and H in c.args or last(c).startswith("write") and c.args and c.args[0] == H]
    name, keys, vals, kinds, other = [], [], [], [], []
    for c in feeds:
        x = c.args[0] if c.args[0] != H else c.args[1]
        while x[0] == "call" and name_of(x) in ("as_str", "deref", "as_bytes", "as_ref") and len(x[2]) == 1:
            x = x[2][0]
        if x == fld(S, "name"):
            name.append(c.blk)
        elif x[0] == "fld" and x[1][0] == "elem" and x[2] in ("0", "1"):
            (keys if x[2] == "0" else vals).append((c.blk, x[1][1]))
        elif is_kind(cx, fl, x, S):
            kinds.append(c.blk)
        elif x[0] == "elem":
            keys.append((c.blk, x[1]))
            vals.append((c.blk, x[1]))
        else:
            other.append((c.blk, x))
    cx.ob("components", f, not other, "hashed beyond name%s and tags: %s" % (", kind" if kind else "", [fmt(x) for _, x in other]))
    once = lambda b: bool(b) and not (reach(fl, [0], avoid=b) & set(fl.ret_blocks)) and not (reach(fl, succs(fl, b)) & set(b))
    cx.ob("name", f, once(name), "the name is not hashed exactly once on every path")
    cx.ob("kind", f, once(kinds) if kind else not kinds, "the kind of aggregation is not hashed exactly once" if kind else "the kind of aggregation is hashed")
    colls = {c for _, c in keys} | {c for _, c in vals}
    tags = fld(S, "tags")
    cx.ob("all-tags", f, len(colls) == 1 and all(base(c) == tags for c in colls), "not every tag is hashed: %s" % [fmt(c) for c in colls])
    for coll in colls:
        it = lambda q: q[0] == "call" and name_of(q) == "next" and base(q) == base(coll)
        some = edge_pairs(fl, lambda q, v: v == ("v", "Some") and it(q))
        nx = [c.blk for c in fl.calls if it(c.dest)]
        done = edge_pairs(fl, lambda q, v: v == ("v", "None") and it(q))
        for what, bs in (("key", keys), ("value", vals)):
            b = [x for x, _ in bs]
            cx.ob("every-pair", "%s %s" % (f, what), bool(some) and bool(nx) and bool(b) and not must_reach(fl, [s for _, s in some], b, nx + fl.ret_blocks), "a tag's %s may be left out of the hash" % what)
        cx.ob("every-pair", f + " loop", bool(done) and not must_reach(fl, [s for _, s in some], [s for _, s in done], fl.ret_blocks), "hashing may stop before the last tag")
        cx.ob("order", f, all(sorted_before(fl, coll, n) or tree(fl, coll) for n in nx) and bool(nx), "tags are hashed in the order of the map's buckets: equal points get different hashes")


def tree(fl, coll):
    return "BTree" in repr(coll)


def is_kind(cx, fl, x, S):
    if x[0] == "call" and name_of(x) in ("kind", "discriminant"):
        return x[2][0] in (S, fld(S, "value")) or strip_some(x[2][0]) == fld(S, "value")
    if x[0] == "phi":
        got = {}
        for p, v, f in phi_ins(fl, x):
            k = [w for t, w in f.items() if strip_some(t) == fld(S, "value") and t != fld(S, "value")]
            if v[0] != "agg" or not k:
                return False
            got.setdefault(v[1], set()).add(k[0][1])
        return len(got) == 4 and all(len(v) == 1 for v in got.values()) and len(set.union(*got.values())) == 4
    return False


def strip_some(t):
    return t[1][1] if t[0] == "fld" and t[1][0] == "var" and t[1][2] == "Some" else t


# ---- comparisons: the sequence of keys a path has gone through -------------------------

def cmp_of(t):
    """(a, b) compared by the ordering term t"""
    t0 = t
    if t[0] == "agg" and t[1] == "Some":
        return cmp_of(t[2][0][1])
    if t[0] == "fld" and t[1][0] == "var" and t[1][2] == "Some":
        t = t[1][1]
    if t[0] == "call" and name_of(t) in ("unwrap", "expect") and t[2]:
        t = t[2][0]
    if t[0] == "call" and name_of(t) in ("cmp", "partial_cmp", "cmp_tagmap") and len(t[2]) == 2:
        return t[2][0], t[2][1]
    return None


def outcome(q, a, b):
    """what the path knows of comparing a with b: 'eq', 'ne', 'no' (contradictory) or None"""
    o = {x for x in outcomes(q, a, b)}
    return "no" if len(o) > 1 else o.pop() if o else None


def outcomes(q, a, b):
    for t, v in q.facts.items():
        neg = t[0] == "not" and len(t) == 2 and isinstance(v, frozenset)
        u = t[1] if neg else t
        if cmp_of(u) == (a, b):
            if neg and "Equal" in v:
                yield "ne"
            if not neg and v == ("v", "Equal"):
                yield "eq"
            if not neg and v[0] == "v" and v[1] in ("Less", "Greater", "None"):
                yield "ne"
        if not neg and u[0] == "bin" and u[1] in ("Eq", "Ne") and (u[2], u[3]) in ((a, b), (b, a)):
            yield "eq" if (v == ("c", True)) == (u[1] == "Eq") else "ne"
        if not neg and u[0] == "call" and name_of(u) in ("eq", "ne") and tuple(u[2]) in ((a, b), (b, a)):
            yield "eq" if (v == ("c", True)) == (name_of(u) == "eq") else "ne"


def lex(cx, rule, inst, fl, keys):
    qs = trace(fl)
    cx.ob(rule, inst + " paths", bool(qs), "paths not understood")
    n = 0
    for q in qs or []:
        if any(outcome(q, *k) == "no" for k in keys):
            continue
        n += 1
        r = q.ret
        m = cmp_of(r) if r is not None else None
        j = None
        if m in keys:
            j = keys.index(m)
            ok = all(outcome(q, *keys[i]) == "eq" for i in range(j)) and (j == len(keys) - 1 or outcome(q, *keys[j]) == "ne")
        else:
            # a literal ordering: justified only by a comparison known to have that result
            lit = r[2][0][1] if r is not None and r[0] == "agg" and r[1] == "Some" and r[2] else r
            lit = lit[1] if lit is not None and lit[0] == "agg" else None
            ok = False
            for i, k in enumerate(keys):
                o = outcome(q, *k)
                if o == "eq":
                    ok = lit == "Equal" and i == len(keys) - 1
                    continue
                ok = lit is not None and any(cmp_of(t) == k and v == ("v", lit) for t, v in q.facts.items())
                break
        cx.ob(rule, "%s #%d" % (inst, n), ok, "on some path the result is %s, decided out of turn (keys: %s)" % (fmt(r) if r else None, ", ".join(fmt(a) for a, _ in keys)))
    cx.floor(inst + " paths", n, len(keys))


def order(cx):
    p = cx.method("std::cmp::PartialOrd", r"^metric::telemetry::Telemetry$", "partial_cmp")
    fl = cx.flow(p, opaque=("cmp_tagmap$",))
    a, b = ("arg", 1), ("arg", 2)
    lex(cx, "order", "partial_cmp", fl, [(fld(a, k), fld(b, k)) for k in ("name", "timestamp", "tags")])


def within(cx):
    fl = cx.flow(TEL + "::within", opaque=("cmp_tagmap$",))
    a, b, s = ("arg", 1), ("arg", 3), ("arg", 2)
    div = lambda t: ("bin", "Div", fld(t, "timestamp"), s)
    lex(cx, "order", "within", fl, [(fld(a, "name"), fld(b, "name")), (fld(a, "tags"), fld(b, "tags")), (div(a), div(b))])


def tagmaps(cx):
    fl = cx.flow("metric::cmp_tagmap")
    L, R = ("arg", 1), ("arg", 2)
    qs = trace(fl)
    cx.ob("tags", "paths", bool(qs), "paths not understood")
    side = lambda t: base(t)

    def absent(q, X):
        return q.facts.get(X) == ("v", "None") or ("not", X) in q.facts and "Some" in q.facts[("not", X)]

    def size(q, t, X):
        if t[0] == "call" and name_of(t) == "len":
            return base(t[2][0]) == X
        return absent(q, X) and is_const(t, 0)
    n = 0
    for q in qs or []:
        n += 1
        m = cmp_of(q.ret) if q.ret is not None else None
        ok, why = False, "result %s" % (fmt(q.ret) if q.ret else None)
        if absent(q, L) and absent(q, R) and q.ret[0] == "agg" and "Equal" in repr(q.ret):
            ok = True
        elif m is None and q.ret is not None and q.ret[0] == "agg":
            lit = "Less" if "Less" in repr(q.ret) else "Greater" if "Greater" in repr(q.ret) else "Equal"
            ln = [v for t, v in q.facts.items() if cmp_of(t) and size(q, cmp_of(t)[0], L) and size(q, cmp_of(t)[1], R)]
            ok = ("v", lit) in ln and lit != "Equal"
        elif m is not None:
            x, y = m
            lens = [(t, v) for t, v in q.facts.items() if t[0] == "bin" and t[1] in ("Eq", "Ne") and len(t) > 3]
            eqlen = None
            for t, v in lens:
                if size(q, t[2], L) and size(q, t[3], R) or size(q, t[2], R) and size(q, t[3], L):
                    eqlen = (v == ("c", True)) == (t[1] == "Eq")
            for t, v in q.facts.items():
                neg = t[0] == "not" and isinstance(v, frozenset)
                k = cmp_of(t[1] if neg else t)
                if k and size(q, k[0], L) and size(q, k[1], R):
                    eqlen = False if neg and "Equal" in v else (v == ("v", "Equal")) if not neg and v[1] not in ("Some",) else eqlen
            if size(q, x, L) and size(q, y, R):
                # length decides: always right when the lengths differ, or when one side has no tags
                ok = eqlen is False or absent(q, L) or absent(q, R)
                why = "lengths are compared although they may be equal"
            elif base(x) == L and base(y) == R and name_of(x) != "len":
                blk = [c.blk for c in q.calls if cmp_of(c.dest) == m]
                so = lambda t: any(last(c) in PLAIN and c.args and same(c.args[0], t) for c in q.calls) or "BTree" in repr(t)
                ok = eqlen is True and so(x) and so(y)
                why = "tags are compared in the order of the maps' buckets" if eqlen is True else "tags are compared although their numbers differ"
        cx.ob("tags", "cmp_tagmap #%d" % n, ok, why)
    cx.floor("paths of cmp_tagmap", n, 2)
