"""Rule helpers shared by the property checks."""
import json, os, re, sys, time
import mir, flow
from mir import AnchorError

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, prop, prog):
        self.prop, self.prog = prop, prog
        self.obs = []          # (rule, instance, ok, message, where)
        self.counts = {}
        self.functions = set()
        self.blocks = 0
        self.callsites = 0
        self._flows = prog.__dict__.setdefault("_flows", {})
        self.notes = []

    # -- analysis --------------------------------------------------------
    def flow(self, path, opaque=(), assume=None, args=None, self_ty=None, only=None, models=None, key=None, keep_logs=False, maxdepth=40):
        k = (path, tuple(opaque) if not callable(opaque) else id(opaque),
             repr(sorted((assume or {}).items(), key=repr)), repr(args), self_ty, id(only) if only else None, key)
        fl = self._flows.get(k)
        if fl is None:
            ib = mir.Inliner(self.prog, opaque=opaque, self_ty=self_ty, only=only, keep_logs=keep_logs).run(path)
            fl = flow.Flow(ib, assume=assume, args=args, models=models, maxdepth=maxdepth)
            fl.path = path
            self._flows[k] = fl
        self.functions.add(path)
        self.functions |= fl.ib.inlined
        self.blocks += len(fl.inst)
        self.callsites += len(fl.calls)
        return fl

    def method(self, trait, ty_regex, name):
        """path of a trait method implementation, found through the impl table"""
        out = []
        for im in self.prog.impls:
            if im["trait"] == trait and re.search(ty_regex, im["self"]):
                if name in im["items"]:
                    out.append(im["items"][name])
        if len(out) != 1:
            raise AnchorError("expected one implementation of %s::%s for /%s/, found %d" % (trait, name, ty_regex, len(out)))
        return out[0]

    # -- obligations -----------------------------------------------------
    def ob(self, rule, inst, ok, msg="", where=None):
        self.obs.append((rule, str(inst), bool(ok), msg, where))
        return ok

    def floor(self, name, n, least):
        self.counts[name] = n
        if n < least:
            self.ob("floor", name, False, "only %d instance(s) of '%s' found, expected at least %d" % (n, name, least))

    def guard(self, fn, rule, inst):
        """run fn; a missing anchor is a failed obligation"""
        try:
            return fn()
        except AnchorError as e:
            self.ob(rule, inst, False, "anchor: %s" % e)


def at(fl, blk):
    t = fl.ib.blocks[blk].term
    sp = None
    if t[0] == "call":
        sp = t[5]
    elif t[0] in ("panic",):
        sp = t[2]
    elif t[0] == "switch":
        sp = t[5]
    if sp is None:
        for s in fl.ib.blocks[blk].stmts:
            sp = s[3]
    return "%s:%s (%s)" % (sp[0], sp[1], fl.ib.blocks[blk].org) if sp else fl.ib.blocks[blk].org


def cat(c):
    return "%s:%s (%s)" % (c.span[0], c.span[1], c.org)


# ---- CFG queries (on the feasible graph of a Flow) -------------------------
def reach(fl, starts, avoid=()):
    seen, av = set(), set(avoid)
    st = [b for b in starts]
    while st:
        b = st.pop()
        if b in seen or b in av:
            continue
        seen.add(b)
        st.extend(fl.succ.get(b, ()))
    return seen


def succs(fl, blocks):
    return [s for b in blocks for s in fl.succ.get(b, ())]


def always_before(fl, first, then, start=0):
    """every path from start to a block of `then` goes through a block of `first`;
    returns offending `then` blocks"""
    return sorted(reach(fl, [start], avoid=first) & set(then))


def always_after(fl, a, b, ends=None):
    """every path from (after) a block of `a` to an end goes through `b`;
    returns offending ends reached"""
    ends = set(fl.ret_blocks if ends is None else ends)
    return sorted(reach(fl, succs(fl, a), avoid=b) & ends)


def never_after(fl, a, b):
    """no block of b is reachable after a block of a; returns offenders"""
    return sorted(reach(fl, succs(fl, a)) & set(b))


def blks(cs):
    return [c.blk for c in cs]


def edge_targets(fl, cond):
    """switch edges (block, successor) whose successor state has facts
    satisfying cond(facts)"""
    out = []
    for b, ss in fl.succ.items():
        for s in ss:
            pass
    return out


# ---- terms -----------------------------------------------------------------
def alts(fl, t):
    return fl.alts(t)


def variants_of(fl, t, depth=0):
    """variant names an enum-valued term can have; None element = unknown"""
    out = set()
    for a in fl.alts(t):
        if a[0] == "agg":
            out.add(a[1])
        elif a[0] == "undef":
            continue
        else:
            out.add(None)
    return out


def is_const(t, v):
    return t[0] == "c" and t[1] == v and type(t[1]) == type(v)


def strip(t, *heads):
    while t[0] in heads:
        t = t[-1] if t[0] == "cast" else t[1]
    return t


def is_now(t):
    """cernan's current time, possibly converted"""
    while t[0] == "cast":
        t = t[2]
    return t[0] == "call" and (t[1] == "time::now" or t[1].endswith("::load") and t[2][0] == ("static", "time::NOW"))


def term_has(t, pred):
    return any(pred(s) for s in flow.subterms(t) if s)


def deep_has(fl, t, pred, seen=None):
    """some value feeding t (through joins) satisfies pred"""
    seen = seen if seen is not None else set()
    for s in flow.subterms(t):
        if not s:
            continue
        if pred(s):
            return True
        if s[0] == "phi" and s not in seen:
            seen.add(s)
            if any(deep_has(fl, x, pred, seen) for x in fl.phis.get(s[1:], ())):
                return True
    return False


def leaves(fl, t, seen=None):
    """all non-phi subterms feeding t"""
    seen = seen if seen is not None else set()
    for s in flow.subterms(t):
        if not s:
            continue
        yield s
        if s[0] == "phi" and s not in seen:
            seen.add(s)
            for x in fl.phis.get(s[1:], ()):
                for y in leaves(fl, x, seen):
                    yield y


def fmt(t, d=0):
    if not isinstance(t, tuple):
        return repr(t)
    if not t:
        return "()"
    h = t[0]
    f = lambda x: fmt(x, d + 1)
    if isinstance(h, tuple):
        return "[" + ", ".join(f(x) for x in t) + "]"
    if d > 8:
        return "…"
    if h == "arg":
        return "arg%d" % t[1]
    if h == "c":
        return repr(t[1])
    if h == "fld":
        return f(t[1]) + "." + t[2]
    if h == "var":
        return f(t[1]) + "@" + t[2]
    if h == "call":
        return "%s(%s)" % (t[1].rsplit("::", 1)[-1], ", ".join(map(f, t[2])))
    if h == "agg":
        return "%s{%s}" % (t[1] or "", ", ".join(a + ":" + f(b) for a, b in t[2]))
    if h == "bin":
        return "(%s %s %s)" % (f(t[2]), t[1], f(t[3]))
    if h == "phi":
        return "φ"
    return h + "(" + ", ".join(f(x) for x in t[1:]) + ")"


def new_facts(fl):
    """[(block, successor, {term: fact})] facts added by each branch edge"""
    out = []
    for s, ins in fl.edge_in.items():
        for (b, k), ost in ins.items():
            base = fl.inst.get(b, {})
            nf = {}
            for key, v in ost.items():
                if key[0] == "F" and base.get(key) != v:
                    nf[key[1]] = v
                elif key[0] == "FX" and base.get(key) != v:
                    nf[("not-variants", key[1])] = v
            if fl.ib.blocks[b].term[0] == "switch":
                for t, v in list(nf.items()):  # integer switches also as equalities
                    if t[0] == "not-variants":
                        if not all(isinstance(x, int) for x in v):
                            continue
                        for x in v:
                            nf[("bin", "Eq", t[1], ("c", x))] = ("c", False)
                    elif v[0] == "c" and isinstance(v[1], int) and not isinstance(v[1], bool):
                        nf[("bin", "Eq", t, ("c", v[1]))] = ("c", True)
                out.append((b, s, nf))
    return out


def edges(fl, pred):
    """successor blocks of branch edges on which pred(term, fact) holds for a new fact"""
    return sorted({s for b, s, nf in new_facts(fl) if any(pred(t, v) for t, v in nf.items())})


def edge_pairs(fl, pred):
    return sorted({(b, s) for b, s, nf in new_facts(fl) if any(pred(t, v) for t, v in nf.items())})


def reach_edges(fl, pairs, avoid=()):
    return reach(fl, [s for _, s in pairs], avoid)


def panic_facts(fl, q):
    """conditions on path q that hold only because the code panics otherwise"""
    live = getattr(fl, "_live", None)
    if live is None:
        pred = {}
        for b, ss in fl.succ.items():
            for x in ss:
                pred.setdefault(x, []).append(b)
        live, st = set(), list(fl.ret_blocks)
        while st:
            b = st.pop()
            if b not in live:
                live.add(b)
                st += pred.get(b, ())
        fl._live = live
        fl._new = {}
        for b, s, nf in new_facts(fl):
            fl._new[(b, s)] = set(nf)
    out = set()
    for b, s in zip(q.blocks, q.blocks[1:]):
        if s in live and any(x not in live for x in fl.succ.get(b, ())):
            out |= {t for t in q.facts if any(like(n, t) for n in fl._new.get((b, s), ()))}
    return out


def like(n, t):
    """t is n, with values of some path for what paths were joined to"""
    if n == t or isinstance(n, tuple) and n and n[0] == "phi":
        return True
    return isinstance(n, tuple) and isinstance(t, tuple) and len(n) == len(t) and all(like(x, y) for x, y in zip(n, t))


def must_reach(fl, starts, through, bad):
    """from starts, no block of `bad` is reachable without passing `through`"""
    return sorted(reach(fl, starts, avoid=through) & set(bad))


def phi_family(fl, t):
    """(phis, other leaf alternatives) that can flow into t at top level"""
    ph, rest, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x[0] == "phi":
            if x in ph:
                continue
            ph.add(x)
            st.extend(fl.phis.get(x[1:], ()))
        elif x[0] == "any":
            st.extend(x[1])
        else:
            rest.add(x)
    return ph, rest


def counter(fl, t, step=1):
    """t is a counter: starts at 0 and only ever changes by +step.  Returns the
    set of blocks that increment it, or None."""
    fam, todo = set(), [t]
    incs = set()
    while todo:
        x = todo.pop()
        if x in fam:
            continue
        fam.add(x)
        if x[0] == "phi":
            todo.extend(fl.phis.get(x[1:], ()))
        elif x[0] == "bin" and x[1] == "Add" and (is_const(x[2], step) or is_const(x[3], step)):
            todo.append(x[3] if is_const(x[2], step) else x[2])
        elif is_const(x, 0) and not isinstance(x[1], bool):
            pass
        else:
            return None
    for b, o in fl.ops:
        if o in fam and o[0] != "phi" and (o[0] == "bin" or o[0] == "c"):
            incs.add(b)
    return incs


def iter_edges(fl, pred):
    """(exhausted edges, element edges) of iterations whose iterator term satisfies pred"""
    def it(t):
        return t[0] == "call" and t[1].rsplit("::", 1)[-1] in ("next", "pop", "pop_front") and pred(t[2][0])
    done = edge_pairs(fl, lambda t, v: v == ("v", "None") and it(t))
    some = edge_pairs(fl, lambda t, v: v == ("v", "Some") and it(t))
    return done, some


def at_most_once(fl, a, reset):
    """no block of a reachable from after a block of a without passing reset"""
    return must_reach(fl, succs(fl, a), reset, a)


# ---- path-sensitive reachability (property simulation over branch facts) ----
class PS:
    """Reachability that keeps, along each path, the branch facts about tracked
    terms.  Facts are invalidated exactly where the dataflow invalidates them."""

    def __init__(self, fl, track):
        self.fl, self.track = fl, track
        self.memo = {}
        self.nf = {}
        for b, s, nf in new_facts(fl):
            self.nf.setdefault((b, s), {}).update(nf)

    def _step(self, b, env):
        k = (b, env)
        r = self.memo.get(k)
        if r is not None:
            return r
        fl = self.fl
        st = dict(fl.inst[b])
        for t, v in env:
            st[t] = v
        outs = []
        for s, ost in fl.transfer(b, st, None):
            ne = {}
            for kk, v in ost.items():
                if kk[0] in ("F", "FX") and self.track(kk[1]):
                    ne[kk] = v
            outs.append((s, frozenset(ne.items())))
        self.memo[k] = outs
        return outs

    def facts_at(self, b):
        return frozenset((k, v) for k, v in self.fl.inst[b].items() if k[0] in ("F", "FX") and self.track(k[1]))

    def _explore(self, st, avoid, cut):
        av, cut = set(avoid), set(cut)
        seen = set()
        hit = set()
        while st:
            b, e = st.pop()
            if (b, e) in seen:
                continue
            if b in av:
                hit.add((b, e))
                continue
            # a loop variable defined here gets a new value: forget facts about it
            e2 = frozenset((k, v) for k, v in e if not any(x and x[0] == "phi" and x[1] == b for x in flow.subterms(k[1])))
            if e2 != e:
                st.append((b, e2))
                continue
            seen.add((b, e))
            if len(seen) > 200000:
                raise RuntimeError("path-sensitive exploration too large")
            for s, ne in self._step(b, e):
                if (b, s) not in cut:
                    st.append((s, ne))
        self.stopped = hit
        return seen

    def from_edges(self, edges_, avoid=(), cut=()):
        """(block, facts) pairs reachable from the given edges"""
        st = []
        for b, x in edges_:
            for s, e in self._step(b, self.facts_at(b)):
                if s == x:
                    st.append((s, e))
        return self._explore(st, avoid, cut)

    def after(self, blocks, avoid=(), cut=()):
        """(block, facts) pairs reachable after executing the given blocks"""
        st = [x for b in blocks for x in self._step(b, self.facts_at(b))]
        return self._explore(st, avoid, cut)

    def missing(self, start, through, ends, holds):
        """a path from after `start` to one of `ends` that avoids `through` and on
        which, at the end, holds(facts) is true: offending end blocks.  `ends`
        also stop the exploration."""
        self.after(start, avoid=list(through) + list(ends))
        th, en = set(through), set(ends)
        return sorted({b for b, e in self.stopped if b in en and b not in th and holds(dict(e))})


def F(t, v):
    return lambda e: e.get(("F", t)) == ("v", v)


def PSim(fl, *terms, pred=None):
    ts = set(terms)
    return PS(fl, lambda t: t in ts or (pred is not None and pred(t)))


def whole(fl, it, coll):
    """iterating `it` visits every element of coll, in order"""
    while True:
        if it == coll:
            return True
        if it[0] == "call":
            n = it[1].rsplit("::", 1)[-1]
            if n == "drain" and len(it[2]) > 1 and it[2][1][0] not in ("undef",) and "RangeFull" not in repr(it[2][1]):
                return False
            if n in ("drain", "enumerate", "iter", "iter_mut", "into_iter", "next", "pop_front", "as_slice"):
                it = it[2][0]
                continue
        if it[0] == "phi" and coll[0] == "fld" and coll[1][0] == "var" and coll[1][2] == "Some":
            # what is there, or nothing where there is nothing
            ins = phi_ins(fl, it)
            return bool(ins) and all(whole(fl, v, coll) or void(v) and fs.get(coll[1][1]) == ("v", "None") for _, v, fs in ins if v != it)
        return False


def void(t):
    """nothing is in this collection"""
    return t[0] == "default" or t[0] == "call" and re.search(r"::(with_capacity|new|default)$", t[1]) is not None


def phi_ins(fl, phi):
    """[(predecessor block, incoming value, branch facts)] of a join value"""
    _, b, root, path = phi
    out = []
    for (p, k), ost in fl.edge_in[b].items():
        out.append((p, fl.read(ost, root, path), {kk[1]: v for kk, v in ost.items() if kk[0] == "F"}))
    return out


def paths(fl, limit=4000, root=("l", 0), start=None):
    """Path-sensitive dataflow of a loop-free body: [(branch facts, return value,
    blocks)], one entry per path to a return (None when there are too many or a loop)."""
    out = []
    st = [(0, dict(fl.inst[0]), ())]
    while st:
        b, s, tr = st.pop()
        if b in tr:
            return None
        if b in fl.ret_blocks:
            s = dict(s)
            fl.transfer(b, s, None)  # execute the statements of the returning block
            e = {k[1]: v for k, v in s.items() if k[0] == "F"}
            ex = {k[1]: v for k, v in s.items() if k[0] == "FX"}
            out.append((e, ex, fl.read(s, root, ()), tr + (b,)))
            if len(out) > limit:
                return None
            continue
        for n, o in fl.transfer(b, s, None):
            st.append((n, o, tr + (b,)))
    return out


def truth(fl, t):
    """[(truth value or None, facts)] of a boolean term: what holds when it is true / false"""
    if t[0] == "c":
        return [(t[1], {})]
    if t[0] == "not":
        return [(None if v is None else not v, f) for v, f in truth(fl, t[1])]
    if t[0] == "phi":
        out = []
        for p, v, f in phi_ins(fl, t):
            for w, g in truth(fl, v) if v[0] != "phi" else [(None, {})]:
                h = dict(f)
                h.update(g)
                out.append((w, h))
        return out
    if t[0] == "call" and len(t[2]) == 1:
        n = t[1].rsplit("::", 1)[-1]
        x = t[2][0]
        pair = {"is_some": ("Some", "None"), "is_none": ("None", "Some"), "is_ok": ("Ok", "Err"), "is_err": ("Err", "Ok")}.get(n)
        if pair:
            return [(True, {x: ("v", pair[0])}), (False, {x: ("v", pair[1])})]
    return [(True, {t: ("c", True)}), (False, {t: ("c", False)})]


def iff(fl, t, pos, neg):
    tr = truth(fl, t)
    return bool(tr) and all(v is not None and (pos(f) if v else neg(f)) for v, f in tr)


def collects(fl, t, src, expr, pos=None, neg=None):
    """t is the collection of expr(e) for every element e of src for which pos
    holds (neg on the others); no filter when pos is None."""
    filt = pos is None
    x, el = t, None
    while True:
        if x[0] == "iterop" and x[1] == "map" and el is None:
            el, x = x[3], x[2]
        elif x[0] == "iterop" and x[1] == "filter" and not filt:
            if not iff(fl, x[3], pos, neg):
                return False
            filt, x = True, x[2]
        elif x[0] == "iterop" and x[1] == "filter_map" and el is None and not filt and x[3][0] == "phi":
            for p, v, f in phi_ins(fl, x[3]):
                if v[0] == "agg" and v[1] == "Some":
                    if not pos(f) or el not in (None, v[2][0][1]):
                        return False
                    el = v[2][0][1]
                elif v[0] == "agg" and v[1] == "None":
                    if not neg(f):
                        return False
                else:
                    return False
            filt, x = True, x[2]
        elif x[0] == "iterop" and x[1] == "filter_map" and el is None and not filt and pos({x[3]: ("v", "Some")}):
            el, filt, x = ("fld", ("var", x[3], "Some"), "0"), True, x[2]
        elif x[0] == "call" and x[1].rsplit("::", 1)[-1] in ("collect", "into_iter", "iter", "drain", "cloned", "to_vec", "values", "keys", "into_values") and len(x[2]) >= 1 and x != src:
            x = x[2][0]
        else:
            break
    if x == src:
        e = fl.elem(src)
        return filt and (el if el is not None else e) == expr(e)
    if el is None and t[0] == "call" and re.search(r"::(new|with_capacity|default)$", t[1]) or t[0] == "default":
        pushes = [c for c in fl.calls if c.args and c.args[0] == t and c.path.rsplit("::", 1)[-1] in ("push", "push_back", "insert")]
        nx = [c for c in fl.calls if c.path.endswith("next") and whole(fl, c.args[0], src)]
        if not pushes or not nx:
            return False
        e = fl.elem(nx[0].args[0])
        if any(c.args[1] != expr(e) for c in pushes):
            return False
        if pos is not None and not all(pos(fl.guards(c.blk)) for c in pushes):
            return False
        some = edge_pairs(fl, lambda q, v: v == ("v", "Some") and q[0] == "call" and q[1].endswith("next") and whole(fl, q[2][0], src))
        ps = PS(fl, lambda q: True)
        ps.from_edges(some, avoid=blks(pushes) + blks(nx) + list(fl.ret_blocks))
        pb = set(blks(pushes))
        for b, env in ps.stopped:
            if b not in pb and not (neg is not None and neg({k[1]: v for k, v in env if k[0] == "F"})):
                return False
        done = edge_pairs(fl, lambda q, v: v == ("v", "None") and q[0] == "call" and q[1].endswith("next") and whole(fl, q[2][0], src))
        return not must_reach(fl, [s for _, s in some], [s for _, s in done], fl.ret_blocks)
    return False


def when_ret(fl):
    """[(return value, facts)] by incoming edge when the return value is a join"""
    r = fl.ret()
    out = []
    if r is None:
        return out
    rs = list(r[1]) if r[0] == "any" else [r]
    for x in rs:
        if x[0] == "phi":
            out += [(v, f) for _, v, f in phi_ins(fl, x)]
        else:
            out.append((x, {}))
    return out


def walk(fl, edges_, stops, limit=3000):
    """Path-sensitive execution from branch edges (block, successor) - or from after a
    block, given as (block, None) - up to the first stop block or return: yields
    (end block, state on entry, blocks).  A path that closes a cycle without meeting a
    stop is dropped.  None when there are too many paths."""
    stops, out, st, n = set(stops), [], [], 0
    for b, s in edges_:
        for x, o in fl.transfer(b, dict(fl.inst[b]), None):
            if s is None or x == s:
                st.append((x, o, (b,)))
    while st:
        b, s, tr = st.pop()
        n += 1
        if n > limit * 40 or len(out) > limit:
            return None
        if b in stops or b in fl.ret_blocks:
            out.append((b, s, tr + (b,)))
            continue
        if b in tr[1:]:
            continue
        for x, o in fl.transfer(b, dict(s), None):
            st.append((x, o, tr + (b,)))
    return out


def facts_of(st):
    return {k[1]: v for k, v in st.items() if k[0] == "F"}


class Path:
    __slots__ = ("end", "state", "facts", "calls", "writes", "blocks", "ret", "local")

    def has(self, t, v):
        return self.facts.get(t) == v


def trace(fl, edges_=None, stops=(), limit=2000, cycles=0):
    """Path-sensitive execution like walk, but every path carries the calls and writes
    it performs (with the terms they have on that path) and all branch facts it
    crossed.  Starts at the entry by default.  Paths that close a cycle are cut."""
    stops, out, st, n = set(stops), [], [], 0
    keep = (fl.calls, fl.writes, fl.panics, fl.asserts, fl.drops, fl.ops, fl.ret_blocks, fl.terms_at_return, fl.cond)

    def step(b, s):
        fl.calls, fl.writes, fl.panics, fl.asserts, fl.drops, fl.ops, fl.ret_blocks, fl.terms_at_return, fl.cond = [], [], [], [], [], [], [], [], {}
        o = fl.transfer(b, s, True)
        return o, fl.calls, fl.writes

    def facts(old, state):
        new = dict(old)
        for k, v in state.items():
            if k[0] == "F":
                new[k[1]] = v
            elif k[0] == "FX":
                new[("not", k[1])] = v
        return new
    fl_base = {}
    if edges_:
        fl_base = {k[1]: v for k, v in fl.inst[edges_[0][0]].items() if k[0] == "F"}
    try:
        if edges_ is None:
            st.append((0, dict(fl.inst[0]), (), {}, (), ()))
        else:
            for b, s in edges_:
                base = {k[1]: v for k, v in fl.inst[b].items() if k[0] == "F"}
                o, cs, ws = step(b, dict(fl.inst[b]))
                for x, os in o:
                    if s is None or x == s:
                        st.append((x, os, (b,), facts(base, os), tuple(cs) if s is None else (), tuple(ws) if s is None else ()))
        rets = set(keep[6])
        while st:
            b, s, tr, fc, cs, ws = st.pop()
            n += 1
            if n > limit * 60 or len(out) > limit:
                return None
            if b in stops or b in rets:
                p = Path()
                p.ret = None
                if b in rets and b not in stops:
                    s = dict(s)
                    _, c2, w2 = step(b, s)
                    cs, ws = cs + tuple(c2), ws + tuple(w2)
                    p.ret = fl.val(s, fl.read(s, ("l", 0), ()))
                p.end, p.state, p.facts, p.calls, p.writes, p.blocks = b, s, fc, list(cs), list(ws), tr + (b,)
                p.local = {k: v for k, v in fc.items() if not edges_ or fl_base.get(k) != v}
                out.append(p)
                continue
            if tr.count(b) > cycles and b in tr[(1 if edges_ is not None else 0):]:
                continue
            o, c2, w2 = step(b, dict(s))
            for x, os in o:
                st.append((x, os, tr + (b,), facts(fc, os), cs + tuple(c2), ws + tuple(w2)))
    finally:
        fl.calls, fl.writes, fl.panics, fl.asserts, fl.drops, fl.ops, fl.ret_blocks, fl.terms_at_return, fl.cond = keep
    return out


class Loop:
    """an iteration: the iterator term drawn from, blocks drawing from it, edges on which
    an element was drawn / the iterator was exhausted, and the element term"""

    def __init__(self, fl, it, nx, others):
        self.it, self.next = it, nx
        draws = {c.dest for c in fl.calls if c.blk in nx}
        mine = reach(fl, succs(fl, nx), avoid=others)
        self.some = [e for e in edge_pairs(fl, lambda t, v: v == ("v", "Some") and t in draws) if e[0] in mine]
        self.done = [e for e in edge_pairs(fl, lambda t, v: v == ("v", "None") and t in draws) if e[0] in mine]
        self.elem = fl.elem(it)
        self.fl = fl

    def body(self, stops=(), **k):
        """paths of one iteration"""
        return trace(self.fl, self.some, list(self.next) + list(stops), **k)

    def over(self, coll):
        return whole(self.fl, self.it, coll)

    def complete(self):
        """once an element was drawn the loop is left over exhaustion only"""
        cut, seen, st = set(self.done), set(), [s for _, s in self.some]
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            st += [s for s in self.fl.succ.get(b, ()) if (b, s) not in cut]
        return bool(self.done) and not seen & set(self.fl.ret_blocks)


def counted(fl):
    """loops that count by hand - a variable goes by ones to a bound tested at the head -
    as iterations over the range counted through"""
    def one(t, op, phi):
        return t == ("bin", op, phi, ("c", 1)) or op == "Add" and t == ("bin", op, ("c", 1), phi)
    res = {}
    for b, s, nf in new_facts(fl):
        for t, v in nf.items():
            if t[0] != "bin" or v[0] != "c" or not isinstance(v[1], bool) or t[1] not in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                continue
            for phi, op, bound in ((t[2], t[1], t[3]), (t[3], {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(t[1], t[1]), t[2])):
                if phi[0] != "phi" or phi[1] != b or term_has(bound, lambda x: x[0] == "phi" and x[1] == b):
                    continue
                if not v[1]:
                    op = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt", "Eq": "Ne", "Ne": "Eq"}[op]
                ins = [x for _, x, _ in phi_ins(fl, phi)]
                for step, go, end in (("Sub", ("Gt", "Ne"), ("Le", "Eq")), ("Add", ("Lt", "Ne"), ("Ge", "Eq"))):
                    init = {x for x in ins if not one(x, step, phi)}
                    if len(init) != 1 or len(ins) < 2 or op not in go + end or step == "Sub" and not is_const(bound, 0):
                        continue
                    k = (b, phi, step)
                    lo, hi = (init.copy().pop(), bound) if step == "Add" else (("c", 0), init.copy().pop())
                    r = res.setdefault(k, ([], [], ("agg", "Range", (("start", lo), ("end", hi)))))
                    r[0 if op in go else 1].append((b, s))
    out = []
    for (b, phi, step), (some, done, it) in res.items():
        if some and done:
            L = Loop.__new__(Loop)
            L.it, L.next, L.some, L.done, L.fl = it, [b], some, done, fl
            L.elem = phi if step == "Add" else ("?",)
            out.append(L)
    return out


def loops(fl):
    out = {}
    for c in fl.calls:
        if c.path.rsplit("::", 1)[-1] in ("next", "pop_front") and c.args and c.args[0][0] != "undef":
            out.setdefault(c.args[0], []).append(c.blk)
    res = []
    for it, nx in out.items():
        groups = []
        for b in nx:
            r = reach(fl, succs(fl, [b]))
            for g in groups:
                if g[0] in r and b in reach(fl, succs(fl, [g[0]])):
                    g.append(b)
                    break
            else:
                groups.append([b])
        for g in groups:
            res.append(Loop(fl, it, g, [b for b in nx if b not in g]))
    return res


class Unknown(Exception):
    pass


class Overflow(Exception):
    pass


RANGE = {"i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1), "i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1), "usize": (0, 2**64 - 1),
         "isize": (-2**63, 2**63 - 1), "u8": (0, 255), "i8": (-128, 127), "u16": (0, 65535), "i16": (-32768, 32767)}


def evalt(t, env, ty="i64"):
    """value of an arithmetic term under env (a function: leaf term -> value or None).
    The small models the rules evaluate on decide comparisons between differences."""
    v = env(t)
    if v is not None:
        return v
    lo, hi = RANGE[ty]

    def chk(x):
        if isinstance(x, bool) or isinstance(x, float) or lo <= x <= hi:
            return x
        raise Overflow()
    ev = lambda x: evalt(x, env, ty)
    if t[0] == "c":
        return t[1]
    if t[0] == "not":
        return not ev(t[1])
    if t[0] == "cast":
        x = ev(t[2])
        r = RANGE.get(t[1])
        if r and not r[0] <= x <= r[1]:
            w = r[1] - r[0] + 1
            x = (x - r[0]) % w + r[0]
        return x
    if t[0] in ("un", "neg"):
        x = ev(t[-1])
        return chk(-x) if t[0] == "neg" or t[1] == "Neg" else not x
    if t[0] == "bin":
        a, b = ev(t[2]), ev(t[3])
        op = t[1]
        if op in ("Add", "Sub", "Mul"):
            return chk(a + b if op == "Add" else a - b if op == "Sub" else a * b)
        if op == "Div":
            if b == 0:
                raise Overflow()
            q = abs(a) // abs(b)
            return q if (a < 0) == (b < 0) else -q
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            return {"Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b, "Eq": a == b, "Ne": a != b}[op]
        if op in ("BitAnd", "BitOr") and isinstance(a, bool):
            return a and b if op == "BitAnd" else a or b
        if op in ("BitAnd", "BitOr", "BitXor") and all(isinstance(x, int) and not isinstance(x, bool) for x in (a, b)):
            return a & b if op == "BitAnd" else a | b if op == "BitOr" else a ^ b
        if op in ("Shl", "Shr") and 0 <= b < 64:
            return (a << b) & ((1 << (hi - lo + 1).bit_length() - 1) - 1) if op == "Shl" else a >> b
        if op == "Rem" and b:
            return a - b * (abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1))
    if t[0] == "call":
        n = t[1].rsplit("::", 1)[-1]
        if n in ("min_value", "max_value") and not t[2]:
            m = re.search(r"impl (\w+)>", t[1])
            r = RANGE[m.group(1) if m else ty]
            return r[n == "max_value"]
        a = [ev(x) for x in t[2]] if n in ("saturating_sub", "saturating_add", "saturating_mul", "wrapping_sub", "wrapping_add", "wrapping_abs", "saturating_neg", "abs", "min", "max", "neg", "pow", "cmp", "eq", "lt", "le", "gt", "ge", "ne", "clone", "into", "from", "saturating_abs", "contains") else None
        if a is not None and all(isinstance(x, (int, bool)) for x in a):
            sat = lambda x: min(max(x, lo), hi)
            wrap = lambda x: (x - lo) % (hi - lo + 1) + lo
            f = {"saturating_sub": lambda x, y: sat(x - y), "saturating_add": lambda x, y: sat(x + y), "saturating_mul": lambda x, y: sat(x * y),
                 "wrapping_sub": lambda x, y: wrap(x - y), "wrapping_add": lambda x, y: wrap(x + y), "wrapping_abs": lambda x: wrap(abs(x)),
                 "saturating_neg": lambda x: sat(-x), "saturating_abs": lambda x: sat(abs(x)), "abs": lambda x: chk(abs(x)), "min": min, "max": max, "neg": lambda x: chk(-x), "pow": lambda x, y: chk(x ** y if y < 256 else hi + 1),
                 "eq": lambda x, y: x == y, "ne": lambda x, y: x != y, "lt": lambda x, y: x < y, "le": lambda x, y: x <= y, "gt": lambda x, y: x > y, "ge": lambda x, y: x >= y,
                 "clone": lambda x: x, "into": lambda x: x, "from": lambda x: x}.get(n)
            if f:
                return f(*a)
    raise Unknown(t)


def feasible(q, env, ty="i64"):
    """does the point env satisfy the facts of path q?  None when a fact is not
    arithmetic over env (such facts are left to the caller)"""
    for t, v in q.local.items():
        if v[0] != "c" if isinstance(v, tuple) else True:
            continue
        try:
            if evalt(t, env, ty) != v[1]:
                return False
        except Unknown:
            return None
    return True


def could(q, env, ty="i64", facts=None):
    """can path q be taken under env; conditions that are not about env go either way"""
    for t, v in (q.facts if facts is None else facts).items():
        if t[0] == "not":
            if isinstance(v, frozenset) and v and not any(isinstance(x, str) for x in v):
                try:
                    if evalt(t[1], env, ty) in v:
                        return False
                except (Unknown, Overflow):
                    pass
            continue
        if v[0] != "c":
            continue
        try:
            x = evalt(t, env, ty)
        except (Unknown, Overflow):
            continue
        if bool(x) != v[1] if isinstance(v[1], bool) else x != v[1]:
            return False
    return True


def pieces(t):
    """what a formatted string is made of: literal texts and (term, trait) pairs"""
    if t[0] != "call" or t[1].rsplit("::", 1)[-1] not in ("format", "must_use"):
        return None
    a = t[2][0]
    if a[0] != "call" or not a[1].rsplit("::", 1)[-1].startswith("new_v1") or len(a[2]) < 2:
        return None
    if a[1].endswith("new_v1_formatted"):
        return None
    lits, args = a[2][0], a[2][1]
    if lits[0] != "arr" or args[0] != "arr":
        return None
    return weave(lits[1], args[1])


def weave(lits, args):
    out = []
    for i, x in enumerate(args):
        if i < len(lits) and lits[i][1]:
            out.append(lits[i][1])
        if x[0] != "call" or len(x[2]) != 2:
            return None
        f = x[2][1]
        im = re.search(r"<impl (?:\w+::)*(\w+) for ", f[1]) if f[0] == "fn" else None
        if im:
            out.append((x[2][0], im.group(1)))
            continue
        out.append((x[2][0], f[1].split(" as ")[-1].split(">")[0].rsplit("::", 1)[-1] if f[0] == "fn" else "?"))
    out += [l[1] for l in lits[len(args):] if l[1]]
    return out


def errkind(q, err, name):
    """does the path know the kind of an error to be, or not to be, the one named"""
    for t, v in q.facts.items():
        if t[0] == "not" and v.__class__ is frozenset and name in v:
            x = t[1]
            if x[0] == "call" and x[1].rsplit("::", 1)[-1] == "kind" and x[2] == (err,):
                return False
        if t[0] == "call" and t[1].rsplit("::", 1)[-1] == "kind" and t[2] == (err,) and v[0] == "v":
            return v[1] == name
        if t[0] == "bin" and t[1] in ("Eq", "Ne") and v[0] == "c":
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if x[0] == "call" and x[1].rsplit("::", 1)[-1] == "kind" and x[2] == (err,) and y[0] == "agg":
                    if y[1] == name:
                        return v[1] == (t[1] == "Eq")
                    if v[1] == (t[1] == "Eq"):
                        return False
    return None
