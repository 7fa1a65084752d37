"""Routing matrix.  Each operation of the adjacency matrix that main relies on is
compared with its specification over the source's own terms: an edge is recorded
under its own ends with its own metadata, edges are symmetric for every forward,
the neighbours of a node are all of the keys recorded for it, senders are all of
the recorded ones, and popping removes exactly the node asked for."""
from rules import *

A = "matrix::Adjacency::<M>::"
EDGES = ("fld", ("arg", 1), "edges")
NAME = ("from_str", "from", "to_string", "to_owned", "into", "clone")


def nm(t):
    """the string a term was copied from"""
    while True:
        if t[0] == "fld" and t[2] == "0" and t[1][0] == "var" and t[1][2] == "Ok":
            t = t[1][1]
        elif t[0] == "call" and t[1].rsplit("::", 1)[-1] in NAME and len(t[2]) == 1:
            t = t[2][0]
        else:
            return t


def rows(fl):
    """[(from, to, metadata, block)] recorded edges"""
    out = []
    for c in fl.calls:
        if c.path.endswith("HashMap::<K, V, S>::insert"):
            m = c.args[0]
            if m[0] == "call" and m[1].rsplit("::", 1)[-1] in ("or_insert_with", "or_default", "or_insert") and m[2][0][0] == "call" and m[2][0][1].endswith("entry") and m[2][0][2][0] == EDGES:
                out.append((nm(m[2][0][2][1]), nm(c.args[1]), c.args[2], c.blk))
    return out


def run(cx):
    # one directed edge
    fl = cx.flow(A + "add_asymmetric_edge")
    r = rows(fl)
    cx.ob("edge", "add_asymmetric_edge", len(r) >= 1 and all(x[:3] == (("arg", 2), ("arg", 3), ("arg", 4)) for x in r), "the edge is not recorded as from -> to with its metadata")
    bad = reach(fl, [0], avoid=[x[3] for x in r]) & set(fl.ret_blocks)
    cx.ob("edge-always", "add_asymmetric_edge", not bad, "an edge may not be recorded")
    # symmetric edges
    fl = cx.flow(A + "add_edges")
    r = rows(fl)
    e = ("elem", ("arg", 3))
    fw = [x[3] for x in r if x[:3] == (("arg", 2), e, ("arg", 4))]
    bw = [x[3] for x in r if x[:3] == (e, ("arg", 2), ("arg", 4))]
    cx.ob("symmetric", "add_edges", bool(fw) and bool(bw) and len(fw) + len(bw) == len(r), "the edges are not recorded in both directions with the given metadata")
    done, some = iter_edges(fl, lambda t: whole(fl, t, ("arg", 3)))
    nx = [c.blk for c in fl.calls if c.path.endswith("next")]
    for k, b in (("forward", fw), ("backward", bw)):
        bad = must_reach(fl, [s for _, s in some], b, nx + fl.ret_blocks)
        cx.ob("each-edge", "add_edges." + k, bool(some) and not bad, "a %s edge may not be recorded" % k)
    bad = reach(fl, [0], avoid=[s for _, s in done]) & set(fl.ret_blocks)
    cx.ob("all-edges", "add_edges", bool(done) and not bad, "not every forward is visited")
    # removal
    def removed(fl):
        rm = [c for c in fl.calls if c.path.endswith("::remove")]
        return rm, [c for c in rm if c.args[0] == EDGES and nm(c.args[1]) == ("arg", 2)]
    for m in ("pop", "pop_nodes", "pop_metadata"):
        fl = cx.flow(A + m)
        rm, ok = removed(fl)
        cx.ob("removes-node", m, len(rm) == len(ok) == 1 and not (reach(fl, [0], avoid=blks(ok)) & set(fl.ret_blocks)), "the node asked for is not what is removed")
        if not ok:
            continue
        row = ok[0].dest
        SOME, NONE = ("v", "Some"), ("v", "None")
        got = ("fld", ("var", row, "Some"), "0")
        if m == "pop":
            v = fl.ret()
            cx.ob("returns-node", m, v == row, "the removed edges are not returned")
            continue
        vals = when_ret(fl)
        okk = bool(vals)
        full = False
        for v, f in vals:
            if f.get(row) == NONE and emptyv(fl, v):
                continue
            if row_default(v):
                full = True
                continue
            if m == "pop_nodes":
                g = collects(fl, v, got, lambda el: ("fld", el, "0")) or collects(fl, v, ("call", "keys", (got,), None), lambda el: el)
            else:
                md = lambda el: ("fld", el, "1")
                E1 = md(fl.elem(got))
                g = collects(fl, v, got, lambda el: ("fld", ("var", md(el), "Some"), "0"), lambda f: f.get(E1) == SOME, lambda f: f.get(E1) == NONE)
            okk = okk and g
            full = full or g
        what = "neighbours" if m == "pop_nodes" else "senders"
        cx.ob("returns-all", m, okk and full, "the result is not exactly the recorded %s of the node" % what)
    # filtered view
    fl = cx.flow(A + "filter_nodes")
    v = fl.ret()
    row = [x for x in leaves(fl, v) if x[0] == "call" and x[1].rsplit("::", 1)[-1] in ("index", "get") and x[2][0] == EDGES and nm(x[2][1]) == ("arg", 2)] if v else []
    cx.ob("filters-node", "filter_nodes", bool(row), "the edges of another node are looked at")
    pred = [c for c in fl.calls if c.path.endswith("Iterator::filter") and c.args[1] == ("arg", 3)]
    asked = [c for c in fl.calls if re.search(r"ops::Fn(Mut|Once)?::call", c.path) and c.args[0] == ("arg", 3)]
    edges_ = [y for x in row for y in (x, ("fld", ("var", x, "Some"), "0"))]
    key = lambda el: ("fld", el, "0")
    full, ok = False, bool(row)
    for v, f in when_ret(fl):
        if any(f.get(x) == ("v", "None") for x in row) and emptyv(fl, v):
            continue
        g = False
        if pred:
            g = v[0] == "iterop" and v[1] == "map" and v[2] == pred[0].dest and v[3] == key(fl.elem(pred[0].dest)) and any(whole(fl, pred[0].args[0], x) for x in edges_)
        elif asked:
            T, U = ("c", True), ("c", False)
            g = any(collects(fl, v, e, key, lambda f: any(f.get(c.dest) == T for c in asked), lambda f: any(f.get(c.dest) == U for c in asked)) for e in edges_)
        ok, full = ok and g, full or g
    ok = ok and full
    cx.ob("filters-by-predicate", "filter_nodes", ok, "the result is not the neighbours chosen by the predicate")


def emptyv(fl, v):
    return v[0] == "call" and v[1].endswith("::new") and not any(c.args and c.args[0] == v and c.path.endswith("push") for c in fl.calls) or v[0] == "default" or v[0] == "call" and v[1].endswith("default")


def row_default(v):
    return False
