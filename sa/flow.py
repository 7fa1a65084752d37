"""Forward provenance dataflow over an inlined body.

Abstract values are terms (nested tuples) that say where a value comes from:
  ('arg', i)                  parameter i
  ('c', v)                    constant           ('static', path)
  ('fld', t, name)            field of t         ('var', t, Variant)  downcast
  ('elem', t)                 element produced by iterating t
  ('call', callee, args, site) result of a call that is not expanded
  ('agg', Variant|None, ((name, t)...))  struct / enum / tuple value
  ('bin', op, a, b) ('not', a) ('cast', ty, a) ('discr', t, adt) ('is', t, V)
  ('phi', block, key)         join of different values (see Flow.expand)
References and clones are identified with their referent.  Joins create phi
nodes, so the domain is finite; a branch whose scrutinee is known (constant,
known variant, or assumed by the caller) propagates along the feasible edge
only.  No path is executed and no solver is involved.
"""
import re
from collections import defaultdict, namedtuple
import mir
from mir import Place, callee_path
import thread as jt

UNDEF = ("undef",)
TOP = ("top",)
# iterators whose elements are told apart by where they are drawn
SPLITS = {"split_whitespace", "split_ascii_whitespace", "split", "splitn", "rsplitn", "split_terminator"}

Call = namedtuple("Call", "blk idx fn path args raw dest span org info")


class Args(list):
    """operands; there is nothing known of an operand a call does not have"""
    def __getitem__(self, i):
        if isinstance(i, int) and not -len(self) <= i < len(self):
            return ("?",)
        return list.__getitem__(self, i)


Write = namedtuple("Write", "blk idx root proj val span org")

IDENT = re.compile(
    r"(?:^|[ :])(?:"
    r"clone::Clone(?:>)?::clone|convert::Into(?:<.*>)?>?::into|convert::From(?:<.*>)?>?::from|"
    r"ops::Deref>?::deref|__Deref>?::deref|ops::DerefMut>?::deref_mut|convert::AsRef(?:<.*>)?>?::as_ref|convert::AsMut(?:<.*>)?>?::as_mut|"
    r"borrow::Borrow(?:<.*>)?>?::borrow|borrow::BorrowMut(?:<.*>)?>?::borrow_mut|borrow::ToOwned>?::to_owned|"
    r"iter::IntoIterator>?::into_iter|ops::Try>?::into_result|"
    r"iter::Iterator>?::(?:cloned|copied|by_ref|peekable|fuse)|"
    r"convert::TryInto(?:<.*>)?>?::never"
    r")$"
)
IDENT_EXACT = {
    "std::string::String::as_str", "std::string::String::as_bytes", "core::str::<impl str>::as_bytes",
    "std::string::String::into_bytes", "std::vec::Vec::<T>::as_slice", "std::vec::Vec::<T>::as_mut_slice",
    "std::option::Option::<T>::as_ref", "std::option::Option::<T>::as_mut", "std::option::Option::<T>::as_deref",
    "std::option::Option::<&T>::cloned", "std::option::Option::<&T>::copied", "std::option::Option::<&mut T>::cloned",
    "std::result::Result::<T, E>::as_ref", "std::result::Result::<T, E>::as_mut",
    "std::boxed::Box::<T>::new", "std::sync::Arc::<T>::new", "std::rc::Rc::<T>::new",
    "core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut", "std::slice::<impl [T]>::iter",
    "std::slice::<impl [T]>::to_vec", "std::slice::<impl [T]>::into_vec", "core::slice::<impl [T]>::to_vec",
    "std::str::<impl str>::to_owned", "std::path::PathBuf::as_path", "std::path::Path::to_path_buf",
    "std::boxed::Box::<T>::into_raw", "std::collections::HashMap::<K, V, S>::iter",
    "std::collections::HashMap::<K, V, S>::iter_mut", "std::collections::VecDeque::<T>::iter",
    "std::collections::VecDeque::<T>::iter_mut", "std::borrow::Cow::<'_, B>::into_owned",
    "std::mem::ManuallyDrop::<T>::new", "std::iter::IntoIterator::into_iter", "std::ops::Try::into_result",
    "std::clone::Clone::clone", "std::convert::Into::into", "std::convert::From::from", "std::ops::Deref::deref",
    "std::ops::DerefMut::deref_mut", "std::borrow::ToOwned::to_owned", "std::convert::AsRef::as_ref",
    "std::hint::black_box", "std::convert::identity",
}
CONVERT_KEEP = re.compile(r"^$")

# operators on references etc. whose trait methods are plain operators
CMP = {"eq": "Eq", "ne": "Ne", "lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}


def strip_generics(p):
    return p


def mentions(t, x):
    if t == x:
        return True
    if isinstance(t, tuple):
        for y in t:
            if isinstance(y, tuple) and mentions(y, x):
                return True
    return False


def ranges_over(it, coll):
    """the iterator term may range over coll itself (not merely over something
    reached through an element of coll)"""
    if it == coll:
        return True
    if isinstance(it, tuple):
        if len(it) > 1 and it[0] in ("elem", "idx") and it[1] == coll:
            return False
        for y in it:
            if isinstance(y, tuple) and ranges_over(y, coll):
                return True
    return False


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for y in t:
            if isinstance(y, tuple):
                for z in subterms(y):
                    yield z


def depth(t):
    d = 0
    for y in t:
        if isinstance(y, tuple):
            d = max(d, depth(y))
    return d + 1


_DEPTH = {}


def tdepth(t):
    k = id(t)
    return depth(t)


class Node:
    __slots__ = ("val", "kids")

    def __init__(self, val, kids=None):
        self.val, self.kids = val, kids or {}


def contains(t, x):
    return t == x or isinstance(t, tuple) and any(contains(y, x) for y in t if isinstance(y, tuple))


def subst(t, m):
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "phi" and t in m:
        return subst(m[t], m)
    return tuple(subst(y, m) if isinstance(y, tuple) else y for y in t)


PARSED = {t: "core::num::%s<impl std::str::FromStr for %s>::from_str" % ("dec2flt::" if t[0] == "f" else "", t) for t in
          ("f32", "f64", "i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize")}


class Flow:
    def __init__(self, ib, assume=None, args=None, maxdepth=40, models=None, threaded=True):
        """assume: {term: variant-name | constant} facts taken as given.
        args: {i: term} initial values of parameters."""
        self.ib, self.prog = ib, ib.prog
        if threaded:
            jt.thread(ib)
        self.assume = dict(assume or {})
        self.maxdepth = maxdepth
        self.models = models or {}
        self.phis = {}
        self.argterms = args or {}
        self._run()

    # ---------------------------------------------------------------- store
    def resolve(self, st, place):
        """Place -> access path (root, proj)"""
        b = place.base
        if isinstance(b, str):
            if b.startswith("promoted:"):
                root = ("t", self.promoted(b))
            else:
                root = ("t", ("static", b))
        else:
            root = ("l", b)
        path = ()
        for e in place.proj:
            if e == "*":
                v = self.read(st, root, path)
                if v[0] == "ref":
                    root, path = v[1], v[2]
                else:
                    root, path = ("t", v), ()
            else:
                if e[0] == "i":
                    e = ("i", self.read(st, ("l", e[1]), ()))
                # a downcast/field of a reference value: go through it
                path = path + (e,)
        # references stored on the way
        return root, path

    def read(self, st, root, path):
        node = st.get(root)
        val = root[1] if root[0] == "t" else None
        rest = path
        i = 0
        if node is not None:
            if node.val is not None:
                val = node.val
            while i < len(path):
                k = node.kids.get(path[i])
                if k is None:
                    # element reads: unknown index invalidates nothing (weak)
                    break
                node = k
                i += 1
                if node.val is not None:
                    val, rest = node.val, path[i:]
                else:
                    if val is not None:
                        val = self.proj(st, val, path[i - 1])
                        rest = path[i:]
            else:
                pass
            if i == len(path):
                return self.compose(st, node, val)
        if val is None:
            return UNDEF
        for e in rest:
            val = self.proj(st, val, e)
        return val

    def compose(self, st, node, val):
        if not node.kids:
            return val if val is not None else UNDEF
        if val is not None and node.val is None:
            pass
        if val is None or val == UNDEF:
            dv = node.kids.get("#d")
            if dv is not None:
                v = dv.val[1]
                sub = node.kids.get(("d", v))
                fs = []
                if sub is not None:
                    for k, n in sub.kids.items():
                        if isinstance(k, tuple) and k[0] == "f":
                            fs.append((k[1], self.compose(st, n, n.val)))
                return ("agg", v, tuple(sorted(fs)))
            fs = []
            for k, n in node.kids.items():
                if isinstance(k, tuple) and k[0] == "f":
                    fs.append((k[1], self.compose(st, n, n.val)))
                elif isinstance(k, tuple) and k[0] == "d":
                    # variant fields set, discriminant pending
                    fs2 = [(kk[1], self.compose(st, nn, nn.val)) for kk, nn in n.kids.items() if isinstance(kk, tuple) and kk[0] == "f"]
                    return ("agg", k[1], tuple(sorted(fs2)))
            return ("agg", None, tuple(sorted(fs)))
        out = val
        for k, n in sorted(node.kids.items(), key=lambda x: str(x[0])):
            if k == "#d":
                continue
            sub = self.compose(st, n, n.val if n.val is not None else self.proj(st, val, k))
            if sub == self.proj(st, val, k):
                continue
            if out[0] == "agg" and k[0] == "f":
                out = ("agg", out[1], tuple(sorted([(a, b) for a, b in out[2] if a != k[1]] + [(k[1], sub)])))
            elif out[0] == "agg" and k[0] == "d" and out[1] == k[1] and sub[0] == "agg":
                out = sub
            else:
                out = ("upd", out, k, sub)
        return out

    def proj(self, st, t, e):
        h = t[0]
        if h == "ref":
            return self.read(st, t[1], t[2] + (e,))
        if e[0] == "f":
            n = e[1]
            if h == "agg":
                for a, b in t[2]:
                    if a == n:
                        return b
                return UNDEF
            if h == "upd":
                if t[2] == e:
                    return t[3]
                return self.proj(st, t[1], e)
            if h == "var":
                b = t[1]
                if b[0] == "agg":
                    return self.proj(st, b, e) if b[1] in (t[2], None) else UNDEF
                if b[0] == "upd" and b[2] == ("d", t[2]):
                    return self.proj(st, b[3], e)
                if t[2] == "Some" and n == "0" and b[0] == "call" and b[1] == "next":
                    if b[2][0][0] == "call" and b[2][0][1].rsplit("::", 1)[-1] in SPLITS:
                        return ("elem", b[2][0], b[3])
                    return self.elem(b[2][0])
            if h == "enum" and n in ("0", "1"):
                return ("idx", t[1]) if n == "0" else self.elem(t[1])
            if h == "zipe" and n in ("0", "1"):
                return self.elem(t[1] if n == "0" else t[2])
            if h in ("undef", "top"):
                return t
            return ("fld", t, n)
        if e[0] == "d":
            if h == "agg":
                return t
            if h == "upd":
                if t[2] == e:
                    return t[3]
            if h in ("undef", "top"):
                return t
            return ("var", t, e[1])
        if e[0] == "i":
            if h == "arr" and e[1][0] == "c" and isinstance(e[1][1], int) and e[1][1] < len(t[1]):
                return t[1][e[1][1]]
            return ("at", t, e[1])
        if e[0] == "c":
            if h == "arr" and not e[2] and e[1] < len(t[1]):
                return t[1][e[1]]
            return ("at", t, ("c", e[1] if not e[2] else -e[1]))
        return ("slice", t, e[1:])

    def elem(self, c):
        if c[0] == "iterop":
            if c[1] == "map":
                return c[3]
            if c[1] in ("filter", "take_while", "skip_while", "inspect"):
                return self.elem(c[2])
        if c[0] == "call":
            if c[1] == "enumerate":
                return ("enum", c[2][0])
            if c[1] == "zip":
                return ("zipe", c[2][0], c[2][1])
            if c[1] in ("drain", "skip", "take", "step_by", "chain", "collect", "rev"):
                return self.elem(c[2][0])
        if c[0] == "arr" and len(c[1]) == 1:
            return c[1][0]
        return ("elem", c)

    def write(self, st, root, path, val):
        node = st.get(root)

        def go(n, p):
            if not p:
                return Node(val)
            nn = Node(n.val if n else None, dict(n.kids) if n else {})
            nn.kids[p[0]] = go(nn.kids.get(p[0]), p[1:])
            return nn

        st[root] = go(node, path)

    # ---------------------------------------------------------------- values
    def promoted(self, key):
        _, path, i = key.rsplit(":", 2)[0].split(":", 1)[0], key[len("promoted:"):].rsplit(":", 1)[0], key.rsplit(":", 1)[1]
        cache = self.prog.__dict__.setdefault("_prom", {})
        k = (path, int(i))
        if k not in cache:
            cache[k] = TOP
            b = self.prog.bodies.get(path)
            if b is not None and int(i) < len(b.promoted):
                pb = b.promoted[int(i)]
                pb.path = path + "#p" + i
                sub = mir.IBody(self.prog, path)
                inl = mir.Inliner(self.prog, opaque=lambda p: True)
                for t, n in zip(pb.locals, pb.names):
                    sub.new_local(t, n, path)
                sub.new_block(path)
                e = inl.copy(sub, pb, list(range(len(pb.locals))), None, (path,), {}, {}, [])
                sub.blocks[0].term = ("goto", e)
                f = Flow(sub)
                r = f.ret()
                cache[k] = r if r is not None else TOP
        return cache[k]

    def const(self, c):
        if "fn" in c:
            return ("fn", callee_path(c))
        if "static" in c:
            return ("static", c["static"])
        for k in ("b", "i", "ch", "s"):
            if k in c:
                return ("c", c[k])
        if "fl" in c:
            return ("c", float(c["fl"])) if c["fl"] not in ("NaN", "inf", "-inf") else ("c", c["fl"])
        if "bytes" in c:
            return ("c", c["bytes"])
        if "path" in c:
            return ("const", c["path"])
        adt = re.sub(r"<.*", "", c.get("ty", ""))
        a = self.prog.adts.get(adt)
        if a and a["kind"] == "enum" and "raw" in c:
            for v in a["variants"]:
                if v["discr"] == c["raw"] and not v["fields"]:
                    return ("agg", v["name"], ())
        if c.get("ty") == "()":
            return ("agg", None, ())
        return ("k", c.get("ty", ""), c.get("raw"))

    def op(self, st, o):
        if o[0] == "k":
            return self.const(o[1])
        r, p = self.resolve(st, o[1])
        return self.read(st, r, p)

    def val(self, st, t, d=0):
        """resolve references to values, deeply"""
        if not isinstance(t, tuple) or not t:
            return t
        h = t[0]
        if h == "ref":
            if d > 12:
                return TOP
            return self.val(st, self.read(st, t[1], t[2]), d + 1)
        if h == "agg":
            return ("agg", t[1], tuple((a, self.val(st, b, d + 1)) for a, b in t[2]))
        if h == "arr":
            return ("arr", tuple(self.val(st, b, d + 1) for b in t[1]))
        if h in ("fld", "var", "elem", "at", "not", "is"):
            inner = self.val(st, t[1], d + 1)
            if inner is not t[1]:
                if h == "fld":
                    return self.proj(st, inner, ("f", t[2]))
                if h == "var":
                    return self.proj(st, inner, ("d", t[2]))
                return (h, inner) + t[2:]
        return t

    def known(self, st, t):
        """constant/variant known for term t"""
        if t[0] == "agg" and t[1] is not None:
            return ("v", t[1])
        f = st.get(("F", t))
        if f is not None:
            return f
        return None

    def mk_discr(self, st, t, adt):
        k = self.known(st, t)
        if k and k[0] == "v":
            return ("variant", k[1])
        return ("discr", t, adt)

    def binop(self, st, op, a, b):
        if op in ("Gt", "Ge"):
            op, a, b = ("Lt" if op == "Gt" else "Le"), b, a
        if op == "Ne":
            return self.neg(st, self.binop(st, "Eq", a, b))
        if op == "Eq":
            for x, y in ((a, b), (b, a)):
                if x[0] == "c" and isinstance(x[1], bool):
                    return y if x[1] else self.neg(st, y)
                if x[0] == "variant" and y[0] == "variant":
                    return ("c", x[1] == y[1])
                if x[0] == "variant" and y[0] == "discr":
                    return ("is", y[1], x[1], y[2])
                if x[0] == "agg" and x[1] is not None and not x[2]:
                    if y[0] == "agg" and y[1] is not None:
                        return ("c", x[1] == y[1])
                    return ("is", y, x[1], None)
                if x[0] == "c" and y[0] == "discr":
                    for n, dv in self.prog.variants(y[2]) or ():
                        if dv == x[1]:
                            return ("is", y[1], n, y[2])
        if a[0] == "c" and b[0] == "c" and not isinstance(a[1], str) and not isinstance(b[1], str):
            try:
                r = {
                    "Add": lambda: a[1] + b[1], "Sub": lambda: a[1] - b[1], "Mul": lambda: a[1] * b[1],
                    "Eq": lambda: a[1] == b[1], "Lt": lambda: a[1] < b[1], "Le": lambda: a[1] <= b[1],
                    "Div": lambda: (a[1] // b[1] if isinstance(a[1], int) else a[1] / b[1]),
                    "Rem": lambda: a[1] % b[1], "BitAnd": lambda: a[1] & b[1], "BitOr": lambda: a[1] | b[1],
                    "BitXor": lambda: a[1] ^ b[1],
                    "Shl": lambda: a[1] << b[1], "Shr": lambda: a[1] >> b[1],
                }[op]()
                return ("c", r)
            except (KeyError, ZeroDivisionError, TypeError):
                pass
        if op in ("Eq",) and a == b and a[0] == "c":
            return ("c", True)
        if op in ("Add", "Mul", "Eq", "BitAnd", "BitOr", "BitXor") and repr(b) < repr(a):
            a, b = b, a
        return ("bin", op, a, b)

    def neg(self, st, t):
        if t[0] == "not":
            return t[1]
        if t[0] == "c" and isinstance(t[1], bool):
            return ("c", not t[1])
        return ("not", t)

    def rvalue(self, st, rv, blk, idx):
        k = rv[0]
        if k == "use":
            return self.op(st, rv[1])
        if k == "ref":
            r, p = self.resolve(st, rv[2])
            if r[0] == "t" and not p and r not in st:
                return r[1]
            v = self.read(st, r, p)
            if v[0] == "ref":
                return v
            return ("ref", r, p)
        if k == "len":
            r, p = self.resolve(st, rv[1])
            return ("len", self.val(st, self.read(st, r, p)))
        if k == "cast":
            v = self.op(st, rv[2])
            if rv[1].startswith("Pointer"):
                return v
            vv = self.val(st, v)
            if vv[0] in ("variant", "discr"):
                return vv
            if vv[0] == "c" and not isinstance(vv[1], str):
                if rv[3].startswith("f"):
                    return ("c", float(vv[1]))
                if isinstance(vv[1], (bool, int)) and rv[3][0] in "iu":
                    return ("c", int(vv[1]))
            if rv[4].startswith(("*", "&")) and rv[3].startswith(("*", "&")):
                return v
            return ("cast", rv[3], vv)
        if k in ("bin", "cbin"):
            a, b = self.val(st, self.op(st, rv[2])), self.val(st, self.op(st, rv[3]))
            r = self.binop(st, rv[1], a, b)
            if tdepth(r) > self.maxdepth:
                r = TOP
            if k == "cbin":
                return ("agg", None, (("0", r), ("1", ("ovf", rv[1], a, b))))
            return r
        if k == "un":
            v = self.val(st, self.op(st, rv[2]))
            if rv[1] == "Not":
                return self.neg(st, v)
            if v[0] == "c" and not isinstance(v[1], str):
                return ("c", -v[1])
            return ("neg", v)
        if k == "discr":
            r, p = self.resolve(st, rv[1])
            v = self.val(st, self.read(st, r, p))
            return self.mk_discr(st, v, rv[2])
        if k == "agg":
            ops = [self.op(st, o) for o in rv[3]]
            if rv[1] == "adt":
                names = rv[5] or []
                a = self.prog.adts.get(rv[2])
                v = rv[4] if a is None or a["kind"] == "enum" else None
                return ("agg", v, tuple(sorted(zip(names, ops))))
            if rv[1] == "array":
                return ("arr", tuple(self.val(st, o) for o in ops))
            return ("agg", None, tuple((str(i), o) for i, o in enumerate(ops)))
        if k == "repeat":
            return ("repeat", self.val(st, self.op(st, rv[1])), rv[2])
        if k == "nullary":
            return ("nullary", rv[1], rv[2])
        if k == "default":
            return ("default",)
        if k == "cbarg":
            a = self.val(st, self.op(st, rv[3])) if rv[3] else TOP
            if rv[1] in mir.ITER_CLOS or rv[1] in ("retain", "fold", "for_each"):
                return self.elem(a)
            if rv[1] in ("sort_by", "sort_by_key", "binary_search_by", "binary_search_by_key", "sort_unstable_by", "dedup_by"):
                return ("elem", a, rv[2]) if rv[2] else self.elem(a)
            return ("cbarg", rv[1], rv[2], a)
        if k == "iterop":
            a = self.val(st, self.op(st, rv[2]))
            r = self.val(st, self.op(st, rv[3])) if rv[3] else TOP
            env = self.val(st, self.op(st, rv[5]))
            return ("iterop", rv[1], a, r, ("closure", rv[4], env))
        raise ValueError(rv)

    # ---------------------------------------------------------------- calls
    def do_call(self, st, t, blk):
        info, args, dest = t[1], t[2], t[3]
        raw = [self.op(st, a) for a in args]
        vals = [self.val(st, a) for a in raw]
        path = callee_path(info) if "dyn" not in info else "<dyn>"
        fn = info.get("fn", path)
        if fn == "core::str::<impl str>::parse" and info.get("targs") and info["targs"][0] in PARSED:
            # that type's from_str
            path = fn = PARSED[info["targs"][0]]
        name = fn.rsplit("::", 1)[-1]
        res = None
        for rx, f in self.models.items():
            if re.search(rx, path):
                res = f(self, st, path, raw, vals, blk)
                break
        mutated = []
        if res is None:
            res = self.std_model(st, fn, path, name, raw, vals, blk, mutated, info)
        if dest is not None:
            if res[0] != "ref" and tdepth(res) > self.maxdepth:
                res = ("call", name, (TOP,), blk)
            r, p = self.resolve(st, dest)
            self.write(st, r, p, res)
        for x in mutated:
            self.kill(st, x)
        if res[0] == "call" and len(res) > 3 and res[3] is not None and res[3] == blk:
            # what was known of an earlier result of this site is not known of this one
            for k in [k for k in st if k[0] in ("F", "FX") and any(x == res for x in subterms(k[1]))]:
                del st[k]
        return res

    def kill(self, st, x):
        if x[0] == "elem*":
            for k in [k for k in st if k[0] in ("F", "FX")
                      and any(s[0] in ("elem", "idx") and len(s) > 1 and ranges_over(x[1], s[1]) for s in subterms(k[1]) if s)]:
                del st[k]
            return
        for k in [k for k in st if k[0] in ("F", "FX") and self._dep(k[1], x)]:
            del st[k]

    def _dep(self, t, x):
        # does the fact about t depend on mutable object x?
        if t == x:
            return False if x[0] in ("call", "agg") else True
        for s in subterms(t):
            if s is t:
                continue
            if s == x:
                return True
        for s in subterms(t):
            if s and s[0] == "call":
                for a in s[2]:
                    y = x
                    while isinstance(y, tuple) and y and y[0] in ("fld", "var", "at", "elem"):
                        y = y[1]
                        if y == a:
                            return True
        return False

    def std_model(self, st, fn, path, name, raw, vals, blk, mutated, info):
        # identities
        if fn in IDENT_EXACT or path in IDENT_EXACT or IDENT.search(fn) or IDENT.search(path):
            if raw:
                if name == "from" and fn == "std::convert::From::from" and path in self.prog.bodies:
                    return ("call", path, tuple(vals), None)
                if name in ("clone", "to_owned", "to_vec", "cloned", "copied", "from", "into_owned", "to_path_buf"):
                    return vals[0]
                return raw[0]
        if name == "to_string" and fn == "std::string::ToString::to_string":
            ta = (info.get("targs") or [""])[0]
            if ta in ("str", "std::string::String", "&str", "&std::string::String"):
                return raw[0]
            return ("call", "to_string", tuple(vals), None)
        if path.endswith("Default>::default") or fn == "std::default::Default::default":
            ta = (info.get("targs") or [""])[0]
            if ta in ("std::string::String", "&str"):
                return ("c", "")
            if re.match(r"^[iu](8|16|32|64|128|size)$", ta):
                return ("c", 0)
            if ta == "bool":
                return ("c", False)
            if re.match(r"^(std|serde_json|hashbrown)::.*(HashMap|HashSet|Vec|VecDeque|BTreeMap|Map)<", ta):
                return ("default", ta, blk)
            return ("default", ta)
        if name in CMP and ("cmp::Partial" in fn or "cmp::Partial" in path) and len(vals) == 2:
            return self.binop(st, CMP[name], vals[0], vals[1])
        if fn.startswith("std::ops::") and len(vals) == 2:
            m = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem"}.get(name)
            if m == "Add" and "String" in path:
                return ("call", "concat", tuple(vals), None)
            if m and path not in self.prog.bodies:
                return self.binop(st, m, vals[0], vals[1])
        if name in ("add_assign", "sub_assign", "mul_assign", "div_assign") and fn.startswith("std::ops::") and path not in self.prog.bodies:
            op = {"add_assign": "Add", "sub_assign": "Sub", "mul_assign": "Mul", "div_assign": "Div"}[name]
            if raw[0][0] == "ref":
                v = ("call", "concat", tuple(vals), None) if op == "Add" and "String" in path else self.binop(st, op, vals[0], vals[1])
                self.write(st, raw[0][1], raw[0][2], v)
            return ("agg", None, ())
        if fn == "std::ops::Not::not":
            return self.neg(st, vals[0])
        if path in ("std::mem::replace", "core::mem::replace"):
            old = vals[0]
            self.store_through(st, raw[0], raw[1], blk)
            return old
        if path in ("std::mem::swap", "core::mem::swap"):
            a, b = vals[0], vals[1]
            self.store_through(st, raw[0], b, blk)
            self.store_through(st, raw[1], a, blk)
            return ("agg", None, ())
        if path == "std::option::Option::<T>::take":
            old = vals[0]
            self.store_through(st, raw[0], ("agg", "None", ()), blk)
            return old
        if path == "std::option::Option::<T>::replace":
            old = vals[0]
            self.store_through(st, raw[0], ("agg", "Some", (("0", vals[1]),)), blk)
            return old
        if "intrinsics::discriminant_value" in path or path.endswith("mem::discriminant"):
            ta = re.sub(r"<.*", "", (info.get("targs") or [""])[0])
            return self.mk_discr(st, vals[0], ta)
        if name == "next" and "iter::Iterator" in fn:
            mutated.append(("call", "next", (vals[0],), blk))
            mutated.append(("elem*", vals[0]))
            return ("call", "next", (vals[0],), blk)
        if name in ("enumerate", "zip", "drain", "skip", "take", "chain", "step_by", "collect", "rev") and ("iter::" in fn or "drain" in name):
            if name == "drain":
                self._mut(raw, mutated)
            if name == "collect":
                return vals[0]
            return ("call", name, tuple(vals), None)
        if fn == "std::ops::Try::from_error":
            ta = (info.get("targs") or [""])[0]
            if "Option" in ta.split("<")[0]:
                return ("agg", "None", ())
            return ("agg", "Err", (("0", vals[0]),))
        if fn == "std::ops::Try::from_ok":
            ta = (info.get("targs") or [""])[0]
            return ("agg", "Some" if "Option" in ta.split("<")[0] else "Ok", (("0", vals[0]),))
        # enum / struct constructors used as functions
        c = mir.ctor(self.prog, path)
        if c and path not in self.prog.bodies:
            a = self.prog.adts.get(c[0])
            fs = None
            if a:
                for v in a["variants"]:
                    if v["name"] == c[1] or len(a["variants"]) == 1:
                        fs = [f[0] for f in v["fields"]]
            if fs is None:
                fs = ["0"]
            enum = a is None or a["kind"] == "enum"
            return ("agg", c[1] if enum else None, tuple(sorted(zip(fs, raw))))
        # opaque
        ty = info.get("ty", "")
        site = None
        has_mut = self._mut(raw, mutated, ty)
        if has_mut or not vals or IMPURE.search(path) or IMPURE.search(fn):
            site = blk
        nm = path
        r = ("call", nm, tuple(vals), site)
        if site is not None:
            mutated.append(r)
        return r

    def _mut(self, raw, mutated, ty=None):
        """record objects passed by &mut"""
        if ty is None:
            for a in raw[:1]:
                if a[0] == "ref":
                    mutated.append(("obj", a[1], a[2]))
            return True
        m = re.search(r"fn\((.*?)\)(?: ->| \{)", ty)
        has = False
        sig = _split_args(ty)
        for i, a in enumerate(raw):
            if i < len(sig) and "&" in sig[i] and "mut " in sig[i]:
                has = True
                mutated.append(a if a[0] != "ref" else ("R", a))
        return has

    def store_through(self, st, ptr, val, blk):
        if ptr[0] == "ref":
            root, path = ptr[1], ptr[2]
        else:
            root, path = ("t", ptr), ()
        self.write(st, root, path, val)
        if root[0] == "t":
            self.cur_writes.append((root[1], path, val))

    # ---------------------------------------------------------------- driver
    def init_state(self):
        st = {}
        for i in range(1, self.ib.nargs + 1):
            st[("l", i)] = Node(self.argterms.get(i, ("arg", i)))
        for t, v in self.assume.items():
            st[("F", t)] = ("v", v) if isinstance(v, str) else ("c", v)
        return st

    def _run(self):
        self.real = {}
        for left in (2, 1, 0):
            self._fix()
            gone = self._trivial() if left else None
            if not gone:
                break
            # joins of values that differed only while the analysis was under way: start
            # over with the joins that are real in place from the beginning
            real = {}
            for b, root, path in self.phis:
                if ("phi", b, root, path) not in gone:
                    root = subst(root, gone)
                    real.setdefault(b, set()).add((root, path))
            self.real = real
            self.phis = {}
        self._record()

    def _trivial(self):
        """{phi: value} of the joins all of whose incoming values are one"""
        ins = {}
        for key in self.phis:
            b, root, path = key
            if any(isinstance(e, str) and e.startswith("#") for e in path) or root[0] in ("F", "FX"):
                continue
            vs = set()
            for ost in self.edge_in[b].values():
                vs.add(self.read(ost, root, path))
            ins[("phi",) + key] = vs
        gone = {}
        while True:
            n = len(gone)
            for ph, vs in ins.items():
                if ph in gone:
                    continue
                vs = {subst(v, gone) for v in vs} - {ph}
                if len(vs) == 1:
                    v = next(iter(vs))
                    if v != UNDEF and not contains(v, ph):
                        gone[ph] = v
            if len(gone) == n:
                return gone

    def _fix(self):
        ib = self.ib
        n = len(ib.blocks)
        order = self._rpo()
        rank = {b: i for i, b in enumerate(order)}
        self.inst = {0: self.init_state()}
        self.edge_in = defaultdict(dict)  # block -> {pred: state}
        self.visits = defaultdict(int)
        import heapq
        self._liveness()
        work = [(0, 0)]
        inq = {0}
        self.feas = defaultdict(set)
        steps = 0
        while work:
            _, b = heapq.heappop(work)
            inq.discard(b)
            steps += 1
            if steps > 60 * n + 2000:
                raise mir.AnchorError("dataflow does not converge on %s" % ib.root)
            st = dict(self.inst[b])
            outs = self.transfer(b, st, None)
            for k, (s, ost) in enumerate(outs):
                self.feas[b].add(s)
                self.edge_in[s][(b, k)] = ost
                new = self.join(s)
                old = self.inst.get(s)
                if old is None or not self.same(old, new):
                    self.inst[s] = new
                    if s not in inq:
                        inq.add(s)
                        heapq.heappush(work, (rank.get(s, n), s))

    def _record(self):
        self.calls, self.writes, self.asserts, self.panics, self.drops = [], [], [], [], []
        self.terms_at_return = []
        self.ret_blocks = []
        self.ops = []
        self.succ = defaultdict(list)
        self.cond = {}
        for b in sorted(self.inst):
            st = dict(self.inst[b])
            outs = self.transfer(b, st, self)
            for s, _ in outs:
                if s not in self.succ[b]:
                    self.succ[b].append(s)
        self.pred = defaultdict(list)
        for b, ss in self.succ.items():
            for s in ss:
                self.pred[s].append(b)

    def _rpo(self):
        seen, out = set(), []
        stack = [(0, iter(jt.succs(self.ib.blocks[0].term)))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s >= 0 and s not in seen:
                    seen.add(s)
                    stack.append((s, iter(jt.succs(self.ib.blocks[s].term))))
                    break
            else:
                out.append(b)
                stack.pop()
        return out[::-1]

    def _liveness(self):
        """live-in locals per block; locals whose address is taken stay live"""
        ib = self.ib
        n = len(ib.blocks)
        pinned = set()
        use, kill = [0] * n, [0] * n

        def u(p, b):
            if not isinstance(p.base, str) and not (kill[b] >> p.base) & 1:
                use[b] |= 1 << p.base
            for e in p.proj:
                if isinstance(e, tuple) and e[0] == "i" and not (kill[b] >> e[1]) & 1:
                    use[b] |= 1 << e[1]

        def uo(o, b):
            if o and o[0] != "k":
                u(o[1], b)

        for b in range(n):
            blk = ib.blocks[b]
            for s in blk.stmts:
                if s[0] == "=":
                    rv = s[2]
                    if rv[0] == "ref":
                        u(rv[2], b)
                        if not isinstance(rv[2].base, str):
                            pinned.add(rv[2].base)
                    elif rv[0] in ("len", "discr"):
                        u(rv[1], b)
                    elif rv[0] == "cbarg":
                        uo(rv[3], b)
                    elif rv[0] == "iterop":
                        uo(rv[2], b)
                        uo(rv[3], b)
                        uo(rv[5], b)
                    else:
                        for o in mir._rv_ops(rv):
                            uo(o, b)
                d = s[1]
                if d.proj:
                    u(d, b)
                elif not isinstance(d.base, str):
                    kill[b] |= 1 << d.base
            t = blk.term
            if t[0] in ("switch", "assert"):
                uo(t[1], b)
            elif t[0] == "drop":
                u(t[1], b)
            elif t[0] == "call":
                if "dyn" in t[1]:
                    uo(t[1]["dyn"], b)
                for a in t[2]:
                    uo(a, b)
                if t[3] is not None:
                    if t[3].proj:
                        u(t[3], b)
                    elif not isinstance(t[3].base, str):
                        kill[b] |= 1 << t[3].base
            elif t[0] == "return":
                use[b] |= 1
        live = list(use)
        preds = defaultdict(list)
        for b in range(n):
            for s in jt.succs(ib.blocks[b].term):
                if s >= 0:
                    preds[s].append(b)
        work = list(range(n))
        inw = set(work)
        while work:
            b = work.pop()
            inw.discard(b)
            out = 0
            for s in jt.succs(ib.blocks[b].term):
                if s >= 0:
                    out |= live[s]
            new = use[b] | (out & ~kill[b])
            if new != live[b]:
                live[b] = new
                for p in preds[b]:
                    if p not in inw:
                        inw.add(p)
                        work.append(p)
        pin = 0
        for x in pinned:
            pin |= 1 << x
        self.live = [x | pin for x in live]

    def same(self, a, b):
        if a.keys() != b.keys():
            return False
        for k in a:
            if a[k] is b[k]:
                continue
            if k[0] in ("F", "FX"):
                if a[k] != b[k]:
                    return False
            elif not self.nsame(a[k], b[k]):
                return False
        return True

    def nsame(self, x, y):
        if x is y:
            return True
        if x.val != y.val or x.kids.keys() != y.kids.keys():
            return False
        return all(self.nsame(x.kids[k], y.kids[k]) for k in x.kids)

    def join(self, b):
        ins = self.edge_in[b]
        sts = list(ins.values())
        if len(sts) == 1:
            out = dict(sts[0])
            for root, path in self.real.get(b, ()):
                if root[0] == "l" and not (self.live[b] >> root[1]) & 1:
                    continue
                v = self.read(out, root, path)
                if v != UNDEF:
                    self.phis.setdefault((b, root, path), set()).add(v)
                    self.write(out, root, path, ("phi", b, root, path))
            return out
        out = {}
        keys = set()
        for s in sts:
            keys.update(s.keys())
        first = sts[0]
        live = self.live[b]
        for k in keys:
            if k[0] == "l" and not (live >> k[1]) & 1:
                continue
            if k[0] in ("F", "FX"):
                v = first.get(k)
                if v is not None and all(s.get(k) == v for s in sts[1:]):
                    out[k] = v
                continue
            nodes = [(s, s.get(k)) for s in sts]
            f = nodes[0][1]
            if all(nd is f for _, nd in nodes):
                out[k] = f
                continue
            if k[0] == "l":
                present = [(s, nd) for s, nd in nodes if nd is not None]
                dflt = None
            else:
                present = nodes
                dflt = k[1]
            out[k] = self.njoin(b, k, (), present, dflt)
        return out

    def njoin(self, b, root, path, present, dflt):
        nds = [nd for _, nd in present]
        if all(nd is nds[0] for nd in nds) and nds[0] is not None:
            return nds[0]
        key = (b, root, path)
        # fieldwise when every side is either absent (default) or pure kids
        vals = [(nd.val if nd is not None else None) for nd in nds]
        kidset = set()
        for nd in nds:
            if nd is not None:
                kidset.update(nd.kids.keys())
        base = vals[0]
        samebase = all(v == base for v in vals)
        if kidset and samebase and "#d" not in kidset and not any(isinstance(k, tuple) and k[0] == "d" for k in kidset):
            out = Node(base)
            bd = base if base is not None else dflt
            for k in kidset:
                sub = []
                for s, nd in present:
                    kd = nd.kids.get(k) if nd is not None else None
                    sub.append((s, kd))
                if bd is None:
                    sub2 = [(s, x) for s, x in sub if x is not None]
                    d2 = None
                else:
                    sub2 = sub
                    d2 = self.proj(present[0][0], bd, k)
                out.kids[k] = self.njoin(b, root, path + (k,), sub2, d2)
            return out
        terms = []
        for s, nd in present:
            if nd is None:
                terms.append(dflt if dflt is not None else UNDEF)
            else:
                v = nd.val if nd.val is not None else dflt
                terms.append(self.compose(s, nd, v))
        return Node(self.phi(key, terms))

    def phi(self, key, terms):
        ph = ("phi",) + key
        if key not in self.phis and key[1:] in self.real.get(key[0], ()):
            self.phis[key] = set()
        if key in self.phis:
            self.phis[key].update(t for t in terms if t != ph)
            return ph
        ts = set(t for t in terms if t != UNDEF)
        if len(ts) == 0:
            return UNDEF
        if len(ts) == 1:
            return next(iter(ts))
        if all(t[0] == "iterop" for t in ts) and len({(t[1], t[2], t[4][1]) for t in ts}) == 1:
            # the same adapter seen with and without its closure having run
            x = next(iter(ts))
            env = self.phi((key[0], key[1], key[2] + ("#env",)), [t[4][2] for t in ts])
            return ("iterop", x[1], x[2], self.phi((key[0], key[1], key[2] + ("#res",)), [t[3] for t in ts]), ("closure", x[4][1], env))
        self.phis[key] = ts
        return ph

    def transfer(self, b, st, rec):
        blk = self.ib.blocks[b]
        self.cur_writes = []
        for i, s in enumerate(blk.stmts):
            if s[0] == "setd":
                r, p = self.resolve(st, s[1])
                node = st.get(r)
                # setting the discriminant after the fields
                v = self.read(st, r, p) if node is not None else UNDEF
                fields = ()
                if v[0] == "agg" and v[1] == s[2]:
                    fields = v[2]
                elif v[0] == "agg" and v[1] is None and not v[2]:
                    fields = ()
                else:
                    a = self.read(st, r, p + (("d", s[2]),)) if node is not None else UNDEF
                    if a[0] == "upd":
                        a = a
                    if a[0] == "agg":
                        fields = a[2]
                    else:
                        fs = []
                        nd = node
                        for e in p + (("d", s[2]),):
                            nd = nd.kids.get(e) if nd is not None else None
                        if nd is not None:
                            for k, x in nd.kids.items():
                                if isinstance(k, tuple) and k[0] == "f":
                                    fs.append((k[1], self.compose(st, x, x.val)))
                        fields = tuple(sorted(fs))
                val = ("agg", s[2], fields)
                self.write(st, r, p, val)
                if rec is not None and r[0] == "t":
                    self.writes.append(Write(b, i, r[1], p, val, s[3], blk.org))
                continue
            v = self.rvalue(st, s[2], b, i)
            if rec is not None and s[2][0] in ("bin", "cbin"):
                x = self.val(st, v)
                self.ops.append((b, x[2][0][1] if s[2][0] == "cbin" and x[0] == "agg" else x))
            r, p = self.resolve(st, s[1])
            # moving a whole value out of a ref'd place keeps the term
            self.write(st, r, p, v)
            if rec is not None and r[0] == "t":
                self.writes.append(Write(b, i, r[1], p, self.val(st, v), s[3], blk.org))
        t = blk.term
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "nondet":
            return [(x, dict(st)) for x in t[1]]
        if k == "drop":
            if rec is not None:
                self.drops.append((b, self.val(st, self.op(st, ("c", t[1]))), t[3], t[4]))
            return [(t[2], st)]
        if k == "return":
            if rec is not None:
                self.ret_blocks.append(b)
                self.terms_at_return.append((b, self.val(st, self.read(st, ("l", 0), ())), st))
            return []
        if k == "panic":
            if rec is not None:
                self.panics.append((b, t[1], t[2], blk.org))
            return []
        if k == "assert":
            if rec is not None:
                self.asserts.append((b, t[3], self.val(st, self.op(st, t[1])), t[5], blk.org))
            return [(t[4], st)]
        if k == "call":
            if rec is not None:
                info = t[1]
                if "dyn" in info:
                    d = self.val(st, self.op(st, info["dyn"]))
                    info = {"fn": "<dyn>", "dynterm": d}
                raw = [self.op(st, a) for a in t[2]]
                vals = [self.val(st, a) for a in raw]
                pathc = callee_path(info)
            rv = self.do_call(st, t, b)
            if rec is not None:
                for (root, p, v) in self.cur_writes:
                    self.writes.append(Write(b, -1, root, p, v, t[5], blk.org))
                self.calls.append(Call(b, -1, info.get("fn", "<dyn>"), pathc, Args(vals), raw, rv, t[5], blk.org, info))
                if t[4] is None:
                    self.panics.append((b, pathc, t[5], blk.org))
            if t[4] is None:
                return []
            return [(t[4], st)]
        if k == "switch":
            v = self.val(st, self.op(st, t[1]))
            if rec is not None:
                self.cond[b] = (v, t)
            return self.branch(st, v, t)
        return []

    def branch(self, st, v, t):
        values, targets = t[2], t[3]
        out = []

        def add(target, facts):
            if target < 0:
                return
            if self.ib.blocks[target].term[0] == "unreachable" and not self.ib.blocks[target].stmts:
                return
            ns = dict(st)
            for f, x in facts:
                ns[f] = x
            out.append((target, ns))

        # constant?
        c = None
        if v[0] == "c":
            c = v[1]
            c = int(c) if isinstance(c, bool) else (ord(c) if isinstance(c, str) and len(c) == 1 else c)
        elif v[0] == "variant":
            for own in self._adts_with(v[1], t, values):
                c = own
                break
            if c is None:
                c = "?" + v[1]
        else:
            f = st.get(("F", v))
            if f is not None and f[0] == "c":
                c = int(f[1]) if isinstance(f[1], bool) else f[1]
        if v[0] == "variant":
            # find discriminant value by any adt having that variant; use switch context
            c = self._variant_value(v[1], t, st)
        if c is not None and not isinstance(c, str):
            for x, tg in zip(values, targets):
                if x == c:
                    add(tg, [])
                    return out
            if len(targets) > len(values):
                add(targets[-1], [])
            return out
        if v[0] == "discr":
            vs = self.prog.variants(v[2])
            k = self.known(st, v[1])
            ex = st.get(("FX", v[1]), frozenset())
            if vs:
                d2n = {d: n for n, d in vs}
                if k and k[0] == "v":
                    for x, tg in zip(values, targets):
                        if d2n.get(x) == k[1]:
                            add(tg, [])
                            return out
                    if len(targets) > len(values):
                        add(targets[-1], [])
                    return out
                rest = [n for n, d in vs if d not in values and n not in ex]
                for x, tg in zip(values, targets):
                    n = d2n.get(x)
                    if n is None or n in ex:
                        continue
                    add(tg, [(("F", v[1]), ("v", n))])
                if len(targets) > len(values) and rest:
                    if len(rest) == 1:
                        add(targets[-1], [(("F", v[1]), ("v", rest[0]))])
                    else:
                        add(targets[-1], [(("FX", v[1]), ex | frozenset(d2n[x] for x in values if x in d2n))])
                return out
        if t[4] == "bool":
            for x, tg in zip(values, targets):
                self._bool(st, v, bool(x), tg, add)
            if len(targets) > len(values):
                self._bool(st, v, not bool(values[0]), targets[-1], add)
            return out
        ex = st.get(("FX", v), frozenset())
        for x, tg in zip(values, targets):
            if x not in ex:
                add(tg, [(("F", v), ("c", x))])
        if len(targets) > len(values):
            add(targets[-1], [(("FX", v), ex | frozenset(values))])
        return out

    def _bool(self, st, v, truth, tg, add):
        neg = False
        w = v
        while w[0] == "not":
            w, truth = w[1], not truth
        if w[0] == "is":
            k = self.known(st, w[1])
            ex = st.get(("FX", w[1]), frozenset())
            if k and k[0] == "v":
                if (k[1] == w[2]) != truth:
                    return
            if w[2] in ex and truth:
                return
            if truth:
                add(tg, [(("F", w[1]), ("v", w[2]))])
            else:
                vs = self.prog.variants(w[3]) if w[3] else None
                rest = [n for n, _ in vs if n != w[2] and n not in ex] if vs else []
                if len(rest) == 1:
                    add(tg, [(("F", w[1]), ("v", rest[0]))])
                else:
                    add(tg, [(("FX", w[1]), ex | frozenset([w[2]]))])
            return
        f = st.get(("F", w))
        if f is not None and f[0] == "c":
            if bool(f[1]) != truth:
                return
        add(tg, [(("F", w), ("c", truth))])

    def _adts_with(self, n, t, values):
        return ()

    def _variant_value(self, n, t, st):
        # the adt is known from the operand's definition; fall back on any adt
        o = t[1]
        cands = set()
        for a in self._switch_adts(t):
            for vn, d in self.prog.variants(a) or ():
                if vn == n:
                    cands.add(d)
        if len(cands) == 1:
            return cands.pop()
        return None

    def _switch_adts(self, t):
        o = t[1]
        m = self.ib.__dict__.setdefault("_discr_adt", None)
        if m is None:
            m = defaultdict(set)
            for b in self.ib.blocks:
                for s in b.stmts:
                    if s[0] == "=" and s[2][0] == "discr" and not isinstance(s[1].base, str):
                        m[s[1].base].add(s[2][2])
            self.ib._discr_adt = m
        if o[0] != "k" and not isinstance(o[1].base, str):
            if m.get(o[1].base):
                return m[o[1].base]
        return ()

    # ---------------------------------------------------------------- queries
    def ret(self):
        ts = [t for _, t, _ in self.terms_at_return]
        if not ts:
            return None
        if all(t == ts[0] for t in ts):
            return ts[0]
        return ("any", tuple(ts))

    def expand(self, t, limit=400):
        """set of phi-free alternatives of a term (top-level and nested)"""
        out, seen = set(), set()
        work = [t]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            if len(seen) > limit:
                out.add(TOP)
                break
            if x[0] == "any":
                work.extend(x[1])
                continue
            p = self._first_phi(x)
            if p is None:
                out.add(x)
                continue
            for alt in self.phis.get(p[1:], ()):
                if mentions(alt, p):
                    # loop-carried: keep as an opaque 'loop' term
                    alt = self._subst(alt, p, ("loop",) + p[1:2])
                work.append(self._subst(x, p, alt))
        return out

    def _first_phi(self, t):
        if t[0] == "phi":
            return t
        for y in t:
            if isinstance(y, tuple) and y:
                p = self._first_phi(y)
                if p is not None:
                    return p
        return None

    def _subst(self, t, a, b):
        if t == a:
            return b
        if not isinstance(t, tuple):
            return t
        n = tuple(self._subst(x, a, b) if isinstance(x, tuple) else x for x in t)
        if n != t and n and n[0] in ("fld", "var") and isinstance(n[1], tuple):
            return self.proj({}, n[1], ("f", n[2]) if n[0] == "fld" else ("d", n[2]))
        return n

    def alts(self, t):
        """top-level alternatives only (do not open nested phis)"""
        out, seen, work = set(), set(), [t]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            if x[0] == "any":
                work.extend(x[1])
            elif x[0] == "phi":
                work.extend(self.phis.get(x[1:], ()))
            elif x[0] in ("fld", "var") :
                inner = x[1]
                subs = self.alts(inner) if self._first_phi(inner) is not None else {inner}
                if subs == {inner}:
                    out.add(x)
                else:
                    for s in subs:
                        y = self.proj({}, s, ("f", x[2]) if x[0] == "fld" else ("d", x[2]))
                        work.append(y)
            else:
                out.add(x)
        return out

    def calls_to(self, *pats):
        rs = [re.compile(p) for p in pats]
        return [c for c in self.calls if any(r.search(c.path) or r.search(c.fn) for r in rs)]

    def reachable(self, start, avoid=(), succ=None):
        succ = succ or self.succ
        seen, st = set(), [start]
        av = set(avoid)
        while st:
            b = st.pop()
            if b in seen or b in av:
                continue
            seen.add(b)
            st.extend(succ[b])
        return seen

    def dominators(self):
        if getattr(self, "_dom", None) is None:
            nodes = sorted(self.inst)
            order = [b for b in self._rpo() if b in self.inst]
            idx = {b: i for i, b in enumerate(order)}
            idom = {0: 0}
            ch = True
            while ch:
                ch = False
                for b in order:
                    if b == 0:
                        continue
                    ps = [p for p in self.pred[b] if p in idom]
                    if not ps:
                        continue
                    new = ps[0]
                    for p in ps[1:]:
                        a, c = p, new
                        while a != c:
                            while idx[a] > idx[c]:
                                a = idom[a]
                            while idx[c] > idx[a]:
                                c = idom[c]
                        new = a
                    if idom.get(b) != new:
                        idom[b] = new
                        ch = True
            self._dom = idom
        return self._dom

    def dominates(self, a, b):
        d = self.dominators()
        while True:
            if a == b:
                return True
            if b == 0 or b not in d:
                return False
            b = d[b]

    def guards(self, b):
        """(condition term, truth/variant facts) holding on entry to b: the
        facts in its state that come from branches."""
        return {k[1]: v for k, v in self.inst[b].items() if k[0] == "F"}

    def excluded(self, b):
        return {k[1]: v for k, v in self.inst[b].items() if k[0] == "FX"}

    def state(self, b):
        return self.inst[b]

    def where(self, c):
        s = c.span if hasattr(c, "span") else c
        return "%s:%s (in %s)" % (s[0], s[1], getattr(c, "org", "?"))


def _split_args(ty):
    i = ty.find("fn(")
    if i < 0:
        return []
    i += 3
    d, cur, out = 0, "", []
    while i < len(ty):
        c = ty[i]
        if c in "(<[":
            d += 1
        elif c in ")>]" and not (c == ">" and ty[i - 1] == "-"):
            if c == ")" and d == 0:
                break
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


IMPURE = re.compile(
    r"::(new|with_capacity|recv|try_recv|lock|read|write|now|load|swap|fetch_add|fetch_sub|store|compare_and_swap|"
    r"sleep|spawn|poll|accept|connect|send|flush|next|iter|join|elapsed|random|gen|new_v4|wait|open|create)$"
)
