"""Jump threading on inlined bodies: a switch whose scrutinee is a constant (or
a known enum variant) along a predecessor chain is resolved along that chain.
Restores the path structure that `a && b`, `is_some()`, `?` and helper
functions returning a flag hide behind a temporary."""
from mir import Blk, Place

MAXCHAIN = 24


def thread(ib, rounds=6):
    adts = ib.prog
    mutref = set()
    for b in ib.blocks:
        for s in b.stmts:
            if s[0] == "=" and s[2][0] == "ref" and s[2][1] == "mut" and not isinstance(s[2][2].base, str):
                if "*" not in s[2][2].proj:
                    mutref.add(s[2][2].base)
    for _ in range(rounds):
        if not _round(ib, mutref):
            break
    return ib


def _succ1(t):
    if t[0] == "goto":
        return t[1]
    if t[0] == "drop":
        return t[2]
    return None


def _interesting(s):
    if s[0] == "setd":
        return True
    rv = s[2]
    if rv[0] == "use" and rv[1][0] == "k" and ("b" in rv[1][1] or "i" in rv[1][1]):
        return True
    return rv[0] == "agg" and rv[1] == "adt" and rv[4] is not None


def _round(ib, mutref):
    npred = {}
    for b in ib.blocks:
        for s in succs(b.term):
            npred[s] = npred.get(s, 0) + 1
    changed = 0
    n = len(ib.blocks)
    for bi in range(n):
        b = ib.blocks[bi]
        nxt = _succ1(b.term)
        if nxt is None or not any(_interesting(s) for s in b.stmts):
            continue
        env = {}
        for s in b.stmts:
            _step(ib, env, s, mutref)
        chain, cur, joined, ok = [], nxt, False, False
        while len(chain) < MAXCHAIN:
            if cur in chain or cur == bi or cur < 0:
                break
            cb = ib.blocks[cur]
            if npred.get(cur, 0) > 1:
                joined = True
            chain.append(cur)
            for s in cb.stmts:
                _step(ib, env, s, mutref)
            if cb.term[0] == "switch":
                tgt = _resolve(ib, env, cb.term)
                if tgt is not None and joined:
                    ok = True
                break
            c2 = _succ1(cb.term)
            if c2 is None:
                break
            cur = c2
        if not ok:
            continue
        # duplicate the chain
        prev = None
        first = None
        for c in chain:
            nb = Blk(ib.blocks[c].org)
            nb.stmts = list(ib.blocks[c].stmts)
            nb.pend = ib.blocks[c].pend
            ib.blocks.append(nb)
            idx = len(ib.blocks) - 1
            if first is None:
                first = idx
            t = ib.blocks[c].term
            nb.term = t
            if prev is not None:
                _redirect(ib.blocks[prev], idx)
            prev = idx
        ib.blocks[prev].term = ("goto", tgt)
        _redirect(b, first)
        changed += 1
    return changed


def _redirect(b, to):
    t = b.term
    if t[0] == "goto":
        b.term = ("goto", to)
    else:
        b.term = (t[0], t[1], to) + tuple(t[3:])


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x for x in t[3] if x >= 0]
    if k == "drop":
        return [t[2]]
    if k == "assert":
        return [t[4]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "nondet":
        return list(t[1])
    return []


def _kill(env, base):
    for k in [k for k in env if k[0] == base]:
        del env[k]


def _step(ib, env, s, mutref):
    p = s[1]
    if isinstance(p.base, str) or "*" in p.proj:
        return
    if s[0] == "setd":
        env[(p.base, p.proj, "#")] = ("v", s[2])
        return
    key = (p.base, p.proj)
    rv = s[2]
    val, var, cp = None, None, None
    if rv[0] == "use":
        o = rv[1]
        if o[0] == "k":
            if "b" in o[1]:
                val = ("c", int(o[1]["b"]))
            elif "i" in o[1]:
                val = ("c", o[1]["i"])
        else:
            cp = o[1]
    elif rv[0] == "ref" and rv[1] == "shr":
        cp = rv[2]
    elif rv[0] == "un" and rv[1] == "Not" and rv[2][0] != "k":
        q = rv[2][1]
        x = env.get((q.base, q.proj))
        if x and x[0] == "c" and x[1] in (0, 1):
            val = ("c", 1 - x[1])
    elif rv[0] == "agg" and rv[1] == "adt" and rv[4] is not None and rv[2] in ib.prog.adts and ib.prog.adts[rv[2]]["kind"] == "enum":
        var = rv[4]
    elif rv[0] == "discr":
        q = _norm(rv[1])
        x = env.get((q.base, q.proj, "#"))
        if x:
            for vn, dv in ib.prog.variants(rv[2]) or ():
                if vn == x[1]:
                    val = ("c", dv)
    moved = {}
    if cp is not None and not isinstance(cp.base, str):
        cp = _norm(cp)
        for k, v in env.items():
            if k[0] == cp.base and k[1][: len(cp.proj)] == cp.proj:
                moved[(p.base, p.proj + k[1][len(cp.proj):]) + tuple(k[2:])] = v
    # kill everything under the destination
    for k in [k for k in env if k[0] == p.base and k[1][: len(p.proj)] == p.proj]:
        del env[k]
    if p.base in mutref:
        return
    if val is not None:
        env[key] = val
    if var is not None:
        env[(p.base, p.proj, "#")] = ("v", var)
        for n, o in zip(rv[5] or [], rv[3]):
            kp = p.proj + (("d", var), ("f", n))
            if o[0] == "k":
                if "b" in o[1]:
                    env[(p.base, kp)] = ("c", int(o[1]["b"]))
            elif not isinstance(o[1].base, str):
                q = _norm(o[1])
                for k, v in list(env.items()):
                    if k[0] == q.base and k[1][: len(q.proj)] == q.proj:
                        env[(p.base, kp + k[1][len(q.proj):]) + tuple(k[2:])] = v
    env.update(moved)


def _norm(p):
    # look through references: &x is treated as x when x is only read
    return Place(p.base, tuple(e for e in p.proj if e != "*"))


def _resolve(ib, env, t):
    o = t[1]
    if o[0] == "k" or isinstance(o[1].base, str):
        return None
    p = _norm(o[1])
    x = env.get((p.base, p.proj))
    if x is None:
        return None
    if x[0] == "c":
        for v, tg in zip(t[2], t[3]):
            if v == x[1]:
                return tg
        return t[3][-1] if len(t[3]) > len(t[2]) else None
    return None
