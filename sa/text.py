"""What a piece of code writes: the text that reaches a buffer or writer on each path,
as a sequence of literals, displayed terms and - for loops - repetitions of what one
round writes.  Loops are collapsed: a path goes past a loop on its exhausted edge, and
the loop counts as the repetition of what its rounds write."""
import re
from rules import trace, loops, fmt, pieces, weave, reach

WRITES = ("write_all", "push_str", "push", "extend_from_slice", "write_str", "write_char", "write_fmt", "extend", "write")


def last(c):
    return c.path.rsplit("::", 1)[-1]


def norm(t):
    """a term, regardless of the block its calls are made at and of the path of the callee's name"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "call" and len(t) >= 3:
        n = t[1].rsplit("::", 1)[-1]
        args = tuple(norm(x) for x in t[2])
        if n in ("iter", "into_iter", "as_slice", "as_ref", "by_ref", "as_bytes", "bytes", "deref") and len(args) == 1:
            return args[0]
        return ("call", n, args)
    return tuple(norm(x) for x in t)


class Text:
    def __init__(self, fl, out, cached=("get_from_cache",), named=None):
        self.fl, self.out, self.cached = fl, out, cached
        self.loops = loops(fl)
        self.of = {}
        for L in self.loops:
            for b in L.next:
                self.of[b] = L
        self.memo = {}
        self.bad = []

    # -------------------------------------------------------- values as text
    def toks(self, t, bufs):
        if t in bufs:
            return bufs[t]
        if t[0] == "c":
            if isinstance(t[1], str):
                return (("s", t[1]),) if t[1] else ()
            if isinstance(t[1], int) and not isinstance(t[1], bool):
                return (("s", str(t[1])),)
            if isinstance(t[1], float):
                return (("s", rust_float(t[1])),)
        if t[0] == "call":
            n = t[1].rsplit("::", 1)[-1]
            if n == "concat":
                return join(self.toks(t[2][0], bufs), self.toks(t[2][1], bufs))
            if n == "to_string" and len(t[2]) == 1:
                return self.toks(t[2][0], bufs)
            if n in self.cached:
                return self.toks(t[2][-1], bufs)
            if n in ("format", "must_use"):
                ps = pieces(t)
                if ps is not None:
                    return self.woven(ps, bufs)
            if n.startswith("new_v1") and len(t[2]) >= 2 and t[2][0][0] == "arr" and t[2][1][0] == "arr" and not n.endswith("formatted"):
                ps = weave(t[2][0][1], t[2][1][1])
                if ps is not None:
                    return self.woven(ps, bufs)
            if n == "replace" and len(t[2]) == 3:
                r = self.replaced(t, bufs)
                if r:
                    return r
            if n in ("new", "with_capacity") and "String" in t[1]:
                return ()
        return (("d", norm(t)),)

    def woven(self, ps, bufs):
        out = ()
        for p in ps:
            if isinstance(p, str):
                out = join(out, (("s", p),))
            elif p[1] == "Display":
                out = join(out, self.toks(p[0], bufs))
            else:
                out = join(out, (("d", ("fmt", p[1], norm(p[0]))),))
        return out

    def replaced(self, t, bufs):
        """a chain of replacements that escapes: \\ first, then each other character"""
        ch = []
        while t[0] == "call" and t[1].rsplit("::", 1)[-1] == "replace" and len(t[2]) == 3:
            a, b = t[2][1], t[2][2]
            if a[0] != "c" or b[0] != "c":
                return None
            ch.append((one(a[1]), one(b[1])))
            t = t[2][0]
        ch.reverse()
        if len({a for a, _ in ch}) != len(ch) or any(len(a) != 1 for a, _ in ch):
            return None
        for i, (a, _) in enumerate(ch):
            if any(a in b for _, b in ch[:i]):
                return None
        return (("esc", norm(t), tuple(sorted(ch))),)

    # -------------------------------------------------------- paths
    def paths(self, starts, stops, bufs=None, enclosing=()):
        """[(path, what each buffer got)], over paths that end at a stop or a return"""
        all_ = tuple(stops) + tuple(enclosing)
        qs = trace(self.fl, starts, all_ + self.dead(all_), limit=60000)
        if qs is None:
            return None
        out = []
        for q in qs:
            r = self.run(q, dict(bufs or {}), tuple(stops) + tuple(enclosing))
            if r is not None:
                out.append((q, r))
        return out

    def dead(self, stops):
        """where nothing but the end is ahead any more"""
        if stops not in self.memo:
            pre, seen, st = {}, set(), list(stops)
            for b, ss in self.fl.succ.items():
                for x in ss:
                    pre.setdefault(x, []).append(b)
            while st:
                b = st.pop()
                if b not in seen:
                    seen.add(b)
                    st += pre.get(b, ())
            self.memo[stops] = tuple(b for b in self.fl.succ if b not in seen) if stops else ()
        return self.memo[stops]

    def run(self, q, bufs, stops):
        for c in q.calls:
            n = last(c)
            if n in ("next", "pop_front") and c.blk in self.of and c.blk not in stops:
                h = self.head(c.blk, stops)
                if h is None:
                    continue
                r = self.loop(h, c.args[0], bufs, stops)
                if r is None:
                    return None
                bufs = r
                continue
            if not c.args:
                continue
            b = c.args[0]
            if n in WRITES and len(c.args) == 2 and self.buffer(b):
                a = c.args[1]
                if a[0] == "arr":
                    add = ()
                    for x in a[1]:
                        add = join(add, self.byte(x))
                elif n in ("push", "write_char"):
                    add = self.byte(a)
                else:
                    add = self.toks(a, bufs)
                bufs[b] = join(bufs.get(b, ()), add)
            elif n in ("clear",) and self.buffer(b):
                bufs[b] = ()
            elif n in ("truncate", "insert_str", "insert", "pop", "drain", "remove", "retain", "split_off", "append", "take", "replace", "reverse", "resize") and self.buffer(b) and (b in bufs or b == self.out) and n != "insert":
                bufs[b] = (("?", n),)
        return bufs

    def buffer(self, t):
        return t == self.out or t[0] == "call" and ("String" in t[1] or "Vec" in t[1]) and t[1].rsplit("::", 1)[-1] in ("new", "with_capacity") or t == ("c", "") or t[0] == "default"

    def byte(self, x):
        if x[0] == "c":
            return (("s", x[1] if isinstance(x[1], str) else chr(x[1])),)
        return (("d", norm(x)),)

    # -------------------------------------------------------- loops
    def head(self, blk, stops):
        """the edges of the loop headed by a block: (drawn, exhausted), or None when it is none"""
        L = self.of[blk]
        k = (blk, stops)
        if k not in self.memo:
            seen, st, some, done = set(), [blk], [], []
            while st:
                b = st.pop()
                if b in seen:
                    continue
                seen.add(b)
                for s in self.fl.succ.get(b, ()):
                    if (b, s) in L.some:
                        some.append((b, s))
                    elif (b, s) in L.done:
                        done.append((b, s))
                    elif len(seen) < 6:
                        st.append(s)
            back = blk in reach(self.fl, [s for _, s in some], avoid=set(stops) - {blk})
            self.memo[k] = (some, done) if back and some and done else None
        return self.memo[k] and (blk,) + self.memo[k]

    def loop(self, h, src, bufs, stops):
        blk, some, done = h
        start = {k: v for k, v in bufs.items() if k != self.out}
        key = (blk, stops, frozenset(start.items()))
        if key not in self.memo:
            self.memo[key] = self.rounds(h, start, stops)
        alts = self.memo[key]
        if alts is None:
            return None
        out = dict(bufs)
        E = ("E", norm(src))
        el = norm(self.of[blk].elem)
        for k, s in alts.items():
            if any(x[1] for x in s):
                s = frozenset((subst(w, el, E), subst(t, el, E)) for w, t in s)
                out[k] = join(out.get(k, ()), (star(norm(src), s),))
        return out

    def rounds(self, h, bufs, stops, again=True):
        blk, some, done = h
        body = self.paths(some, (blk,), bufs, stops)
        if body is None:
            self.bad.append((blk, "too many paths"))
            return None
        el = norm(self.of[blk].elem)
        alts, left = {}, []
        keys = set(bufs).union(*[b for _, b in body]) if body else set()
        for q, b in body:
            if q.end != blk:
                if not failed(q):
                    self.bad.append((blk, "left early"))
                    return None
                continue
            for k in keys:
                was, now = bufs.get(k, ()), b.get(k, ())
                alts.setdefault(k, set()).add((when(q, el), now[len(was):] if now[:len(was)] == was else cut(was, now)))
            after = {k: v for k, v in b.items() if k != self.out and (v or k in bufs)}
            if after != {k: v for k, v in bufs.items() if k != self.out} and after not in left:
                left.append(after)
        # a round that leaves another text behind than it found: the next must write the same all the same
        for after in left if again else ():
            r = self.rounds(h, after, stops, False)
            if r is None or r.get(self.out, set()) != alts.get(self.out, set()):
                self.bad.append((blk, "what a round writes depends on the one before"))
                return None
        return alts


def failed(q):
    return any(v == ("v", "Err") and t[0] == "call" for t, v in q.local.items())


def one(x):
    return x if isinstance(x, str) else chr(x)


def cut(was, now):
    """what was added to a text whose last literal went on"""
    if was and len(now) >= len(was) and now[:len(was) - 1] == was[:-1] and was[-1][0] == "s" and now[len(was) - 1][0] == "s" and now[len(was) - 1][1].startswith(was[-1][1]):
        r = now[len(was) - 1][1][len(was[-1][1]):]
        return ((("s", r),) if r else ()) + now[len(was):]
    return (("?", "rewritten"),)


def when(q, el):
    """what a round knows of its element"""
    out = []
    for t, v in q.local.items():
        n = norm(t)
        if has(n, el) and not (n[0] == "call" and n[1] in ("next", "pop_front")) and not (n[0] == "call" and n[1] in WRITES):
            if n[0] == "not":
                out.append((n, frozenset(v)))
            else:
                out.append((n, v))
    return frozenset(out)


def has(t, x):
    return t == x or isinstance(t, (tuple, frozenset)) and any(has(y, x) for y in t)


def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(subst(x, a, b) for x in t)
    if isinstance(t, frozenset):
        return frozenset(subst(x, a, b) for x in t)
    return t


def join(a, b):
    if a and b and a[-1][0] == "s" and b[0][0] == "s":
        return a[:-1] + (("s", a[-1][1] + b[0][1]),) + b[1:]
    return a + b


def knows(w, E, ch):
    """what a round knows of its element agrees with the element being ch (None: one not mentioned)"""
    same = lambda x: ch is not None and one(x) == ch
    for x, v in w:
        if x == E and v[0] == "c":
            ok = same(v[1])
        elif x == ("not", E) and isinstance(v, frozenset):
            ok = not any(same(y) for y in v)
        elif x[0] == "bin" and x[1] in ("Eq", "Ne") and v[0] == "c" and E in x[2:] and [y for y in x[2:] if y[0] == "c"]:
            k = [y for y in x[2:] if y[0] == "c"][0]
            ok = (same(k[1]) == (x[1] == "Eq")) == v[1]
        else:
            return None
        if not ok:
            return False
    return True


def star(src, alts):
    E = ("E", src)
    # character for character, what is written for it
    said = set()
    for w, t in alts:
        for x, v in w:
            said |= {one(y) for y in v} if isinstance(v, frozenset) else {one(v[1])} if v[0] == "c" and not isinstance(v[1], bool) else {one(y[1]) for y in x[2:] if y[0] == "c"} if x[0] == "bin" else set()
    esc, good = {}, True
    for ch in sorted(said) + [None]:
        took = [t for w, t in alts if knows(w, E, ch)]
        good = good and len(set(took)) == 1 and not any(knows(w, E, ch) is None for w, t in alts)
        if not good:
            break
        t = took[0]
        if ch is None:
            good = t == (("d", E),)
        elif all(x[0] == "s" or x == ("d", E) for x in t):
            put = "".join(x[1] if x[0] == "s" else ch for x in t)
            if put != ch:
                esc[ch] = put
        else:
            good = False
    if good and (esc or not said):
        return ("esc", src, tuple(sorted(esc.items())))
    return ("*", src, alts)


def rust_float(x):
    s = repr(x)
    return s[:-2] if s.endswith(".0") else s


def show(ts):
    out = ""
    for t in ts:
        if t[0] == "s":
            out += t[1].replace("\n", "\\n")
        elif t[0] == "d":
            out += "<" + short(t[1]) + ">"
        elif t[0] == "esc":
            out += "<esc " + short(t[1]) + ">"
        elif t[0] == "*":
            out += "(" + " | ".join(sorted(show(a) for _, a in t[2])) + ")*"
        else:
            out += "??%s??" % (t[1:],)
    return out


def short(t):
    try:
        return fmt(t)[:60]
    except Exception:
        return repr(t)[:60]


def render(ts, label, escapes=None):
    """the text as one string: displayed terms by label, repetitions in ( )*, with the
    rounds that differ by what they know of the element told apart in [ ]"""
    def name(t):
        r = label(t)
        return "<%s>" % (r if r is not None else "?" + short(t))

    out = ""
    for t in ts:
        if t[0] == "s":
            out += t[1]
        elif t[0] == "d":
            out += name(t[1])
        elif t[0] == "esc":
            src, m = t[1], dict(t[2])
            if src[0] == "c" and isinstance(src[1], str):
                out += "".join(m.get(c, c) for c in src[1])
            elif escapes is not None and m == escapes:
                out += "<esc %s>" % (label(src) or "?" + short(src))
            else:
                out += "<esc? %s>" % (label(src) or short(src))
        elif t[0] == "*":
            alts = set()
            for w, x in t[2]:
                cond = sorted(str(v[1]) for k, v in w if isinstance(v, tuple) and v[0] == "v" and (k[0] in ("E", "fld", "var") or v[1] == "None"))
                alts.add(("[%s]" % ",".join(cond) if cond else "") + render(x, label, escapes))
            n = label(("in", t[1]))
            out += "(%s%s)*" % (n + ": " if n else "?%s: " % short(t[1]), " | ".join(sorted(alts)))
        else:
            out += "<?%s>" % (t[1],)
    return out
