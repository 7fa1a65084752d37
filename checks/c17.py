"""Layering of tags.  The iterator behind Telemetry::tags and LogLine::tags is executed
path by path: which of the two maps is drawn from, when the second one is turned to,
what happens to every pair drawn, and that each pair is yielded under its own key with
its own value.  Constructors and the mutating accessors are compared with their meaning."""
from rules import *

TYPES = ("metric::telemetry::Telemetry", "metric::logline::LogLine")
COPIES = ("clone", "to_string", "to_owned", "into", "from", "as_str", "deref", "as_ref", "borrow")


def last(c):
    return c.path.rsplit("::", 1)[-1]


def copyof(t):
    while t[0] == "call" and t[1].rsplit("::", 1)[-1] in COPIES and len(t[2]) == 1:
        t = t[2][0]
    return t


def norm(t, S=("arg", 1)):
    """a loop's view of the object behind S is the object"""
    if not isinstance(t, tuple):
        return t
    if t[:1] == ("phi",) and t[2] == ("t", S) and t[3] == ():
        return S
    return tuple(norm(x, S) for x in t)


def whole_copy(fl, t, M):
    """t runs over all pairs of M (cloned)"""
    e = fl.elem(M)
    while True:
        if t == M:
            return True
        if t[0] == "iterop" and t[1] == "map" and t[3][0] == "agg" and [copyof(x) for _, x in t[3][2]] == [fld(e, "0"), fld(e, "1")]:
            t = t[2]
        elif t[0] == "call" and t[1].rsplit("::", 1)[-1] in ("clone", "iter", "into_iter", "cloned", "drain") and len(t[2]) == 1:
            t = t[2][0]
        else:
            return False


def normed(q):
    q.facts = {norm(k): v for k, v in q.facts.items()}
    q.calls = [c._replace(args=[norm(a) for a in c.args], dest=norm(c.dest)) for c in q.calls]
    q.writes = [w._replace(root=norm(w.root), val=norm(w.val)) for w in q.writes]
    q.ret = norm(q.ret)
    return q


def run(cx):
    layering(cx)
    for ty in TYPES:
        ctor(cx, ty)
        access(cx, ty)


def pair(fl, r):
    """the (key, value) terms of a returned Some((k, v))"""
    if r is None or r[0] != "agg" or r[1] != "Some":
        return None
    p = fl.proj({}, r, ("f", "0"))
    return copyof(fl.proj({}, p, ("f", "0"))), copyof(fl.proj({}, p, ("f", "1")))


def layering(cx):
    p = cx.method("std::iter::Iterator", r"^metric::TagIter", "next")
    S = ("arg", 1)
    n = 0
    # with no tags of its own, a point has exactly the defaults
    fl = cx.flow(p, assume={S: "Single"}, key="Single")
    D = ("fld", ("var", S, "Single"), "defaults")
    nx = [c for c in fl.calls if last(c) == "next" and c.args[0] == D]
    r = fl.ret()
    ok = len(nx) == 1 and (r == nx[0].dest or r is not None and all(v == nx[0].dest or pair(fl, v) == (fld(fl.elem(D), "0"), fld(fl.elem(D), "1")) or v[0] == "agg" and v[1] == "None" and f.get(nx[0].dest) == ("v", "None") for v, f in when_ret(fl)))
    cx.ob("defaults-only", "Single", ok and not [c for c in fl.calls if last(c) not in ("next", "clone", "map")], "without tags of its own a point does not yield exactly the defaults")
    fl = cx.flow(p)
    V = ("var", S, "Double")
    own, dfl, seen, exh = (fld(V, x) for x in ("iters", "defaults", "seen_keys", "iters_exhausted"))
    no = [c for c in fl.calls if last(c) == "next" and norm(c.args[0]) == own]
    nd = [c for c in fl.calls if last(c) == "next" and norm(c.args[0]) == dfl]
    other = [c for c in fl.calls if c.args and norm(c.args[0]) in (own, dfl) and last(c) != "next"]
    cx.floor("draws", len(no) + len(nd), 2)
    cx.ob("draws", "TagIter::next", bool(no) and bool(nd) and not other, "tags are drawn in a way that is not understood: %s" % [last(c) for c in other])
    stops = [c.blk for c in no + nd]
    # where to draw from first
    tr = [normed(q) for q in trace(fl, None, stops) or [] if q.facts.get(S) != ("v", "Single")]
    for q in tr:
        n += 1
        if q.end in stops:
            want = [c.blk for c in (nd if q.facts.get(exh) == ("c", True) else no if q.facts.get(exh) == ("c", False) else [])]
            cx.ob("own-first", "entry", q.end in want, "the defaults are consulted before the point's own tags have been exhausted, or its own tags after")
        else:
            cx.ob("own-first", "entry", False, "a call can return without drawing a tag")
        cx.ob("flag", "entry", not [w for w in writes(q, S) if w.val != exh], "the exhaustion mark changes before anything is drawn")
    cx.ob("own-first", "paths", bool(tr), "no path reaches a draw")
    # what happens to what was drawn
    for c in no + nd:
        mine = c in no
        it = own if mine else dfl
        e = (fld(fl.elem(it), "0"), fld(fl.elem(it), "1"))
        kind = "own" if mine else "default"
        qs = trace(fl, [(c.blk, None)], stops)
        cx.ob("handled", kind, bool(qs), "what follows a draw is not understood")
        got = set()
        for q in map(normed, qs or ()):
            n += 1
            f = q.facts.get(norm(c.dest))
            ins = [x for x in q.calls if x.args and x.args[0] == seen and last(x) in ("insert", "remove", "contains", "clear", "replace", "take", "drain", "retain")]
            wr = [w for w in writes(q, S) if w.val != exh]
            ret = q.end not in stops
            if f == ("v", "Some"):
                got.add("Some")
                rec = [x for x in ins if last(x) == "insert" and copyof(x.args[1]) == e[0]]
                if mine:
                    cx.ob("own-yielded", kind, ret and pair(fl, q.ret) == e, "one of the point's own tags is not yielded as it is")
                    cx.ob("own-recorded", kind, len(rec) == 1 and len(ins) == 1, "the key of an own tag is not recorded as seen")
                    cx.ob("flag", kind, not wr, "the own tags are taken for exhausted while one was drawn")
                else:
                    fresh = [q.facts.get(x.dest) for x in ins if last(x) == "insert" and copyof(x.args[1]) == e[0]] + \
                            [flip(q.facts.get(x.dest)) for x in ins if last(x) == "contains" and copyof(x.args[1]) == e[0]]
                    fresh = [x for x in fresh if x is not None]
                    cx.ob("default-tested", kind, len(set(fresh)) == 1 and not [x for x in ins if last(x) not in ("insert", "contains")], "a default is yielded or dropped without asking whether the point has a tag of that key")
                    if ("c", True) in fresh:
                        cx.ob("default-yielded", kind, ret and pair(fl, q.ret) == e, "a default the point has no tag for is not yielded as it is")
                    else:
                        cx.ob("default-hidden", kind, q.end in [x.blk for x in nd], "a default is yielded over the point's own tag, or ends the iteration")
                    cx.ob("flag", kind, not [w for w in wr if not is_const(w.val, True)], "the own tags are drawn from again after the defaults")
            elif f == ("v", "None"):
                got.add("None")
                if mine:
                    cx.ob("then-defaults", kind, q.end in [x.blk for x in nd], "the iteration does not go on with the defaults when the own tags are exhausted")
                    cx.ob("flag", kind, all(is_const(w.val, True) for w in wr), "exhausted own tags are not marked so")
                else:
                    cx.ob("ends", kind, ret and q.ret is not None and (q.ret[0] == "agg" and q.ret[1] == "None" or q.ret == norm(c.dest)), "the iteration does not end with the defaults")
            else:
                cx.ob("handled", kind, False, "a draw is not examined")
        cx.ob("handled", kind + " both", got == {"Some", "None"}, "a draw's outcomes are not told apart")
    # the mark is kept: once the own tags are exhausted, the next call starts with the defaults
    sets = [w for w in fl.writes if norm(w.root) in (S, V) and w.proj and w.proj[-1] == ("f", "iters_exhausted")]
    cx.ob("flag", "kept", all(is_const(w.val, True) for w in sets), "the exhaustion mark is reset")
    cx.floor("paths", n, 6)


def flip(v):
    return {("c", True): ("c", False), ("c", False): ("c", True)}.get(v)


def writes(q, S):
    return [w for w in q.writes if w.root == S or w.root[0] in ("fld", "var") and term_has(w.root, lambda t: t == S)]


def fld(x, *ns):
    for n in ns:
        x = ("var", x, n[1:]) if n.startswith("@") else ("fld", x, n)
    return x


def whole_iter(t, coll):
    return t == coll or t[0] == "call" and t[1].rsplit("::", 1)[-1] in ("iter", "into_iter") and t[2][0] == coll


def empty(t):
    return t[0] == "default" or t[0] == "call" and t[1].rsplit("::", 1)[-1] in ("new", "default", "with_capacity", "with_hasher") and not [x for x in t[2] if x[0] == "arg"]


def ctor(cx, ty):
    me = ty.rsplit("::", 1)[-1]
    tags = fld(("arg", 1), "tags")
    D = ("arg", 2)
    for k in ("Some", "None"):
        fl = cx.flow(ty + "::tags", assume={tags: k}, key=("tags", k))
        r = fl.ret()
        g = lambda n: fl.proj({}, r, ("f", n))
        mine = fld(tags, "@Some", "0")
        if r is None or r[0] != "agg":
            ok = False
        elif k == "None":
            ok = r[1] == "Single" and whole_iter(g("defaults"), D) or r[1] == "Double" and is_const(g("iters_exhausted"), True) and whole_iter(g("defaults"), D) and empty(g("seen_keys"))
        else:
            ok = r[1] == "Double" and is_const(g("iters_exhausted"), False) and whole_iter(g("defaults"), D) and whole_iter(g("iters"), mine) and empty(g("seen_keys"))
        cx.ob("layers", "%s with %s tags" % (me, "own" if k == "Some" else "no"), ok, "the layers handed out are not the own tags over the defaults: %s" % (fmt(r)[:120] if r else None))


def access(cx, ty):
    me = ty.rsplit("::", 1)[-1]
    S, K, V = ("arg", 1), ("arg", 2), ("arg", 3)
    tags = fld(S, "tags")
    own = fld(tags, "@Some", "0")

    def f(m, **kw):
        fl = cx.flow(ty + "::" + m, key=(me, m) + tuple(sorted((str(a), b) for a, b in kw.get("assume", {}).items())), **kw)
        return fl, fl.ret()
    # lookup
    for k in ("Some", "None"):
        fl, r = f("get_from_tags", assume={tags: k})
        mine = [c for c in fl.calls if last(c) == "get" and c.args[0] == own and copyof(c.args[1]) == K]
        dft = [c for c in fl.calls if last(c) == "get" and c.args[0] == V and copyof(c.args[1]) == K]
        other = [c for c in fl.calls if c not in mine + dft and c.args and c.args[0] in (own, V)]
        if k == "None":
            ok = not mine and bool(dft) and not other and r in [c.dest for c in dft]
        else:
            ok = bool(mine) and bool(dft) and not other
            for q in trace(fl) or ():
                m = [c for c in q.calls if c.path == mine[0].path and c.args[0] == own] if mine else []
                d = [c for c in q.calls if mine and c.path == mine[0].path and c.args[0] == V]
                st = q.facts.get(m[0].dest) if m else None
                if st == ("v", "Some"):
                    ok = ok and (q.ret == m[0].dest or q.ret[0] == "agg" and q.ret[1] == "Some" and copyof(fl.proj({}, q.ret, ("f", "0"))) == fld(m[0].dest, "@Some", "0"))
                elif st == ("v", "None"):
                    ok = ok and bool(d) and q.ret == d[0].dest
                else:
                    ok = False
        cx.ob("lookup", "%s.get_from_tags, %s tags" % (me, "own" if k == "Some" else "no"), ok, "a tag is not looked up among the own tags first and the defaults second")
    # insertion
    for k in ("Some", "None"):
        fl, r = f("insert_tag", assume={tags: k})
        ins = [c for c in fl.calls if last(c) == "insert" and len(c.args) == 3 and copyof(c.args[1]) == K and copyof(c.args[2]) == V]
        ok = len(ins) == 1 and not (reach(fl, [0], avoid=blks(ins)) & set(fl.ret_blocks)) and r == ins[0].dest
        if ok and k == "Some":
            ok = ins[0].args[0] == own and not [w for w in fl.writes if w.root == S]
        elif ok:
            ok = empty(ins[0].args[0]) and stored(fl, S, ins[0].args[0], ins[0].blk)
        cx.ob("insert", "%s.insert_tag, %s tags" % (me, "own" if k == "Some" else "no"), ok, "inserting a tag does not record that value under that key alone")
        fl, r = f("remove_tag", assume={tags: k})
        rm = [c for c in fl.calls if c.args and c.args[0] in (own, tags) and last(c) not in ("as_mut", "as_ref", "map", "and_then")]
        if k == "Some":
            ok = len(rm) == 1 and last(rm[0]) == "remove" and copyof(rm[0].args[1]) == K and r == rm[0].dest and not (reach(fl, [0], avoid=blks(rm)) & set(fl.ret_blocks))
        else:
            ok = not rm and r is not None and r[0] == "agg" and r[1] == "None"
        ok = ok and not [w for w in fl.writes if w.root == S]
        cx.ob("remove", "%s.remove_tag, %s tags" % (me, "own" if k == "Some" else "no"), ok, "removing a tag does not remove exactly the one of that key")
        # overlays
        fl, r = f("overlay_tag", assume={tags: k})
        ins = [c for c in fl.calls if last(c) == "insert" and len(c.args) == 3 and copyof(c.args[1]) == K and copyof(c.args[2]) == V]
        ok = len(ins) == 1 and not (reach(fl, [0], avoid=blks(ins)) & set(fl.ret_blocks)) and unchanged(fl, r, S, "tags")
        if ok and k == "Some":
            ok = ins[0].args[0] == own
        elif ok:
            v = fl.proj({}, r, ("f", "tags"))
            ok = empty(ins[0].args[0]) and v[0] == "agg" and v[1] == "Some" and fl.proj({}, v, ("f", "0")) == ins[0].args[0]
        cx.ob("overlay", "%s.overlay_tag, %s tags" % (me, "own" if k == "Some" else "no"), ok, "overlaying a tag does not record that value under that key alone")
        fl, r = f("overlay_tags_from_map", assume={tags: k})
        M = K
        if k == "Some":
            e = fl.elem(M)
            ins = [c for c in fl.calls if last(c) == "insert" and len(c.args) == 3 and c.args[0] == own]
            ext = [c for c in fl.calls if last(c) == "extend" and c.args[0] == own and whole_copy(fl, c.args[1], M)]
            ok = unchanged(fl, r, S, "tags") and not [c for c in fl.calls if c.args and c.args[0] == own and c not in ins + ext and last(c) not in ("reserve", "len", "is_empty")]
            if not ext:
                ok = ok and each(fl, M, ins)
        elif [c for c in fl.calls if last(c) == "insert"]:
            # pair by pair; the first one makes the map
            ins = [c for c in fl.calls if last(c) == "insert" and len(c.args) == 3]
            rs = {c.args[0] for c in ins}
            ok = unchanged(fl, r, S, "tags") and each(fl, M, ins) and len(rs) == 1 and made(fl, list(rs)[0])
            ok = ok and not [c for c in fl.calls if c.args and c.args[0] in rs and c not in ins and last(c) not in ("reserve", "len", "is_empty")]
        else:
            ok = unchanged(fl, r, S, "tags") and not [c for c in fl.calls if last(c) == "insert"]
            for q in trace(fl) or ():
                v = fl.proj(q.state, q.ret, ("f", "tags"))
                em = [x for t, x in q.facts.items() if t[0] == "call" and t[1].endswith("is_empty") and t[2] == (M,)]
                full = v[0] == "agg" and v[1] == "Some" and copyof(fl.proj({}, v, ("f", "0"))) == M
                ok = ok and (full or em == [("c", True)])
            ok = ok and bool(trace(fl))
        cx.ob("overlay-map", "%s.overlay_tags_from_map, %s tags" % (me, "own" if k == "Some" else "no"), ok, "overlaying a map does not record each of its pairs over the present tags")


def each(fl, M, ins):
    """each pair of M is put in"""
    e = fl.elem(M)
    done, some = iter_edges(fl, lambda t: whole(fl, t, M))
    nx = [c.blk for c in fl.calls if last(c) == "next"]
    return bool(ins) and all((copyof(c.args[1]), copyof(c.args[2])) == (fld(e, "0"), fld(e, "1")) for c in ins) and bool(some) and bool(done) \
        and not must_reach(fl, [s for _, s in some], blks(ins), nx + fl.ret_blocks) \
        and not (reach(fl, [0], avoid=[s for _, s in done] + emptied(fl, M)) & set(fl.ret_blocks))


def made(fl, t):
    """the map there, or an empty one where there was none"""
    if not (t[0] == "fld" and t[1][0] == "var" and t[1][2] == "Some" and t[1][1][0] == "phi" and t[1][1][3] == (("f", "tags"),)):
        return False
    ins = phi_ins(fl, t[1][1])
    new = [(v, fs) for _, v, fs in ins if v[0] == "agg"]
    old = [(v, fs) for _, v, fs in ins if v[0] != "agg"]
    return len(new) == 1 and new[0][0][1] == "Some" and empty(fl.proj({}, new[0][0], ("f", "0"))) and len(old) == 1 \
        and new[0][1].get(old[0][0]) == ("v", "None") and old[0][1].get(old[0][0]) == ("v", "Some") \
        and old[0][0][0] == "phi" and old[0][0][2:] == t[1][1][2:]


def emptied(fl, M):
    return [s for _, s in edge_pairs(fl, lambda t, v: t[0] == "call" and t[1].endswith("is_empty") and t[2] == (M,) and v == ("c", True))]


def stored(fl, S, m, blk):
    """m becomes Some(tags) of S on every path after blk"""
    ws = [w for w in fl.writes if w.root == S and w.proj and w.proj[0] == ("f", "tags")]
    if len(ws) != 1 or len(ws[0].proj) != 1:
        return False
    v = ws[0].val
    return v[0] == "agg" and v[1] == "Some" and fl.proj({}, v, ("f", "0")) == m and not (reach(fl, [0], avoid=[ws[0].blk]) & set(fl.ret_blocks))


def unchanged(fl, r, S, but):
    """every field of the returned object but one is that of S"""
    if r is None:
        return False
    if r == S:
        return True
    while r[0] == "upd" and r[2] == ("f", but):
        r = r[1]
    if r[0] == "agg":
        return all(x == fld(S, n) for n, x in r[2] if n != but)
    return r == S
