"""Program model: MIR facts -> call graph, inlined bodies (supergraph).

`Prog` holds the facts of the cernan library + binary.  `inline()` produces one
body in which crate-local callees, closures and the std combinators that take
closures are expanded, so that later analyses do not depend on how the code is
split into functions, or whether it uses `match`, `if let`, `?` or a combinator.
"""
import json, re
from collections import defaultdict, namedtuple

Place = namedtuple("Place", "base proj")
CLOSURE_RE = re.compile(r"\[closure@([^\s\]]+:\d+:\d+: \d+:\d+)")

LOG_MACROS = {"trace", "debug", "info", "warn", "error", "log"}


class AnchorError(Exception):
    """A construct the rule is about cannot be found (fails closed)."""


def _place(p):
    base = p[0]
    proj = []
    if len(p) > 1:
        for e in p[1]:
            if e == "*":
                proj.append("*")
            elif e[0] == "f":
                proj.append(("f", e[1]))
            elif e[0] == "d":
                proj.append(("d", e[1]))
            elif e[0] == "i":
                proj.append(("i", e[1]))
            elif e[0] == "c":
                proj.append(("c", e[1], e[2]))
            else:
                proj.append(("s", e[1], e[2]))
    return Place(base, tuple(proj))


def _op(o):
    if o[0] == "k":
        return ("k", o[1])
    return (o[0], _place(o[1]))


def _rv(r):
    k = r[0]
    if k == "use":
        return ("use", _op(r[1]))
    if k == "repeat":
        return ("repeat", _op(r[1]), r[2])
    if k == "ref":
        return ("ref", r[1], _place(r[2]))
    if k == "len":
        return ("len", _place(r[1]))
    if k == "cast":
        return ("cast", r[1], _op(r[2]), r[3], r[4])
    if k in ("bin", "cbin"):
        return (k, r[1], _op(r[2]), _op(r[3]))
    if k == "un":
        return ("un", r[1], _op(r[2]))
    if k == "nullary":
        return ("nullary", r[1], r[2])
    if k == "discr":
        return ("discr", _place(r[1]), r[2])
    if k == "agg":
        return ("agg", r[1], r[2], [_op(x) for x in r[3]], r[4] if len(r) > 4 else None,
                r[5] if len(r) > 5 else None)
    raise ValueError(r)


class Body:
    def __init__(self, j, prog):
        self.path = j["path"] if "path" in j else None
        self.kind = j.get("kind")
        self.span = j.get("span")
        self.nargs = j["args"]
        self.locals = [l[0] for l in j["locals"]]
        self.names = [l[1] if len(l) > 1 else None for l in j["locals"]]
        self.self_ty = j.get("self")
        self.trait = j.get("trait")
        self.intrait = j.get("intrait")
        self.name = j.get("name")
        self.parent = j.get("parent")
        self.upvars = j.get("upvars", [])
        self._raw = j["blocks"]
        self._blocks = None
        self.promoted = [Body(p, prog) for p in j.get("promoted", [])]

    @property
    def blocks(self):
        if self._blocks is None:
            self._blocks = [self._block(b) for b in self._raw]
        return self._blocks

    def _block(self, b):
        if b["cl"]:
            return None
        stmts = []
        for s in b["s"]:
            if s[0] == "=":
                stmts.append(("=", _place(s[1]), _rv(s[2]), tuple(s[3])))
            else:
                stmts.append(("setd", _place(s[1]), s[2], tuple(s[3])))
        t = b["t"]
        k = t[0]
        if k == "goto":
            term = ("goto", t[1])
        elif k == "switch":
            term = ("switch", _op(t[1]), t[3], t[4], t[2], tuple(t[5]))
        elif k == "call":
            f = t[1]
            term = ("call", f[1] if f[0] == "k" else {"dyn": _op(f)},
                    [_op(a) for a in t[2]],
                    _place(t[3]) if t[3] is not None else None, t[4], tuple(t[6]))
        elif k == "drop":
            term = ("drop", _place(t[1]), t[2], t[4], tuple(t[5]))
        elif k == "dropreplace":
            # drop old value, then assign
            stmts.append(("=", _place(t[1]), ("use", _op(t[2])), tuple(t[5])))
            term = ("goto", t[3])
        elif k == "assert":
            term = ("assert", _op(t[1]), t[2], t[3], t[4], tuple(t[6]))
        elif k == "return":
            term = ("return",)
        else:
            term = ("unreachable",)
        return [stmts, term]


class Prog:
    def __init__(self, facts):
        lib, bin_ = facts
        bin_ = json.loads(re.sub(r"\bcernan::", "", json.dumps(bin_)))
        self.bodies, self.adts, self.impls, self.closures = {}, {}, [], {}
        for src, d in (("lib", lib), ("bin", bin_)):
            for j in d["bodies"]:
                p = j["path"]
                if p in self.bodies:
                    if src == "bin":
                        p = "bin::" + p
                    else:
                        # several derive impls can share a printed path
                        p = p + "#dup"
                b = Body(j, self)
                b.path = p
                b.src = src
                self.bodies[p] = b
            for k, v in d["adts"].items():
                self.adts.setdefault(k, v)
            self.impls += d["impls"] if src == "lib" else []
            for k, v in d["closures"].items():
                m = CLOSURE_RE.match(k)
                self.closures[m.group(1)] = v
        self.impl_of = {}
        for im in self.impls:
            self.impl_of.setdefault((im["trait"], _strip_generics(im["self"])), im)

    def body(self, path):
        if path not in self.bodies:
            raise AnchorError("function `%s` not found" % path)
        return self.bodies[path]

    def find(self, regex, kind=None):
        r = re.compile(regex)
        return [b for p, b in self.bodies.items() if r.search(p) and (kind is None or b.kind == kind)]

    def impls_for(self, trait):
        return [i for i in self.impls if i["trait"] == trait]

    def closure_of_type(self, ty):
        m = CLOSURE_RE.search(ty or "")
        return self.closures.get(m.group(1)) if m else None

    def variants(self, adt):
        a = self.adts.get(adt)
        if not a:
            return None
        return [(v["name"], v["discr"]) for v in a["variants"]]

    def fields(self, adt, variant=None):
        a = self.adts.get(adt)
        if not a:
            raise AnchorError("type `%s` not found" % adt)
        for v in a["variants"]:
            if variant is None or v["name"] == variant:
                return [f[0] for f in v["fields"]]
        raise AnchorError("variant `%s::%s` not found" % (adt, variant))

    # direct (syntactic) callee paths of a body, closures included
    def callees(self, path):
        out = set()
        b = self.bodies[path]
        for bl in b.blocks:
            if bl is None:
                continue
            for s in bl[0]:
                if s[0] == "=" :
                    for o in _rv_ops(s[2]):
                        if o[0] == "k" and "fn" in o[1]:
                            out.add(o[1].get("res") or o[1]["fn"])
            t = bl[1]
            if t[0] == "call":
                for o in [("k", t[1])] + list(t[2]):
                    if o[0] == "k" and "fn" in o[1]:
                        out.add(o[1].get("res") or o[1]["fn"])
        for ty in b.locals:
            c = self.closure_of_type(ty)
            if c:
                out.add(c)
        return out


def _strip_generics(t):
    out, d = [], 0
    for c in t:
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif d == 0:
            out.append(c)
    return "".join(out)


def _rv_ops(rv):
    k = rv[0]
    if k in ("use", "repeat"):
        return [rv[1]]
    if k == "cast":
        return [rv[2]]
    if k in ("bin", "cbin"):
        return [rv[2], rv[3]]
    if k == "un":
        return [rv[2]]
    if k == "agg":
        return rv[3]
    return []


# --------------------------------------------------------------------------
class Blk:
    __slots__ = ("stmts", "term", "org", "pend")

    def __init__(self, org):
        self.stmts, self.term, self.org, self.pend = [], ("unreachable",), org, None


class IBody:
    """Inlined body."""

    def __init__(self, prog, root):
        self.prog, self.root = prog, root
        self.locals, self.names, self.owner = [], [], []
        self.blocks = []
        self.nargs = 0
        self.inlined = set()

    def new_local(self, ty, name=None, owner=None):
        self.locals.append(ty)
        self.names.append(name)
        self.owner.append(owner)
        return len(self.locals) - 1

    def new_block(self, org):
        self.blocks.append(Blk(org))
        return len(self.blocks) - 1


def callee_path(info):
    return info.get("res") or info.get("fn") or "<dyn>"


NEVER_INLINE = re.compile(
    r" as std::(clone::Clone|fmt::|hash::Hash|default::Default)|_serde::|protocols::native::|as serde::|lazy_static|__Deref|LazyStatic"
)


class Inliner:
    def __init__(self, prog, opaque=(), only=None, max_blocks=20000, self_ty=None, keep_logs=False):
        self.prog = prog
        self.opaque = opaque if callable(opaque) else _matcher(opaque)
        self.only = only
        self.max_blocks = max_blocks
        self.self_ty = self_ty
        self.keep_logs = keep_logs

    def run(self, path):
        b = self.prog.body(path)
        ib = IBody(self.prog, path)
        ib.nargs = b.nargs
        m = {}
        if self.self_ty:
            m["Self"] = self.self_ty
        for i, (t, n) in enumerate(zip(b.locals, b.names)):
            ib.new_local(t, n, path)
        ib.new_block(path)
        work = []
        entry = self.copy(ib, b, list(range(len(b.locals))), None, (path,), m, {}, work)
        ib.blocks[0].term = ("goto", entry)
        while work:
            f = work.pop()
            f()
            if len(ib.blocks) > self.max_blocks:
                raise AnchorError("inlining of %s exceeds %d blocks" % (path, self.max_blocks))
        return ib

    # copy the blocks of b with local map lm; ret: block to jump to on return or None
    def copy(self, ib, b, lm, ret, stack, smap, tymap, work):
        bm = {}
        for i, bl in enumerate(b.blocks):
            if bl is not None:
                bm[i] = ib.new_block(stack[-1])
        for i, bl in enumerate(b.blocks):
            if bl is None:
                continue
            nb = ib.blocks[bm[i]]
            for s in bl[0]:
                if s[0] == "=":
                    nb.stmts.append(("=", self.rp(s[1], lm), self.rrv(s[2], lm), s[3]))
                else:
                    nb.stmts.append(("setd", self.rp(s[1], lm), s[2], s[3]))
            t = bl[1]
            k = t[0]
            if k == "goto":
                nb.term = ("goto", bm[t[1]]) if t[1] in bm else ("unreachable",)
            elif k == "switch":
                if len(t[5]) > 2 and set(t[5][2].replace("!", "").split()) & LOG_MACROS:
                    # log statement: analysed as disabled (arguments are pure)
                    if t[4] == "bool" and t[2] == [0] and not self.keep_logs:
                        nb.term = ("goto", bm[t[3][0]])
                        continue
                nb.term = ("switch", self.ro(t[1], lm), t[2], [bm.get(x, -1) for x in t[3]], t[4], t[5])
            elif k == "drop":
                nb.term = ("drop", self.rp(t[1], lm), bm[t[2]], t[3], t[4])
            elif k == "assert":
                nb.term = ("assert", self.ro(t[1], lm), t[2], t[3], bm[t[4]], t[5])
            elif k == "return":
                nb.term = ("goto", ret) if ret is not None else ("return",)
            elif k == "call":
                nb.term = ("unreachable",)
                args = [self.ro(a, lm) for a in t[2]]
                dest = self.rp(t[3], lm) if t[3] is not None else None
                tgt = bm.get(t[4]) if t[4] is not None else None
                info = t[1]
                if "dyn" in info:
                    info = {"dyn": self.ro(info["dyn"], lm)}
                self.call(ib, bm[i], info, args, dest, tgt, t[5], stack, smap, work)
            else:
                nb.term = ("unreachable",)
        return bm[0]

    def rp(self, p, lm):
        if isinstance(p.base, str):
            return p
        proj = tuple((("i", lm[e[1]]) if isinstance(e, tuple) and e[0] == "i" else e) for e in p.proj)
        return Place(lm[p.base], proj)

    def ro(self, o, lm):
        if o[0] == "k":
            return o
        return (o[0], self.rp(o[1], lm))

    def rrv(self, r, lm):
        k = r[0]
        if k == "use":
            return ("use", self.ro(r[1], lm))
        if k == "repeat":
            return ("repeat", self.ro(r[1], lm), r[2])
        if k == "ref":
            return ("ref", r[1], self.rp(r[2], lm))
        if k == "len":
            return ("len", self.rp(r[1], lm))
        if k == "cast":
            return ("cast", r[1], self.ro(r[2], lm), r[3], r[4])
        if k in ("bin", "cbin"):
            return (k, r[1], self.ro(r[2], lm), self.ro(r[3], lm))
        if k == "un":
            return ("un", r[1], self.ro(r[2], lm))
        if k == "discr":
            return ("discr", self.rp(r[1], lm), r[2])
        if k == "agg":
            return ("agg", r[1], r[2], [self.ro(x, lm) for x in r[3]], r[4], r[5])
        return r

    def op_ty(self, ib, o):
        if o[0] == "k":
            return o[1].get("ty")
        p = o[1]
        if not p.proj and not isinstance(p.base, str):
            return ib.locals[p.base]
        return None

    # resolve a trait method to a body given the Self map
    def resolve(self, info, smap):
        p = callee_path(info)
        targs = list(info.get("targs", []))
        if "trait" in info and info.get("rk") in (None, "virtual") and targs:
            st = targs[0]
            st = smap.get(st, st)
            im = self.prog.impl_of.get((info["trait"], _strip_generics(st)))
            if im is not None:
                name = info["fn"].rsplit("::", 1)[1]
                if name in im["items"]:
                    p = im["items"][name]
        if info.get("fn") == "std::convert::Into::into" and len(targs) == 2:
            # the blanket Into is the From of the other side
            t, u = [smap.get(x, x) for x in targs]
            for im in self.prog.impls_for("std::convert::From"):
                it = im["items"].get("from", "")
                if im["self"] == u and "std::convert::From<%s>" % t in it:
                    p = it
        return p

    def call(self, ib, blk, info, args, dest, tgt, span, stack, smap, work):
        """Fill in block `blk`'s terminator for this call."""
        prog = self.prog
        if "dyn" in info:
            o = info["dyn"]
            ib.blocks[blk].term = ("call", info, args, dest, tgt, span)
            return
        path = self.resolve(info, smap)
        fn = info.get("fn", "")
        # a trait method of an unknown Self type is not the default body
        generic = "trait" in info and info.get("rk") in (None, "virtual") and path == callee_path(info)
        # ---- direct closure invocation -------------------------------------
        if fn in ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call"):
            ct = self.op_ty(ib, args[0])
            cp = prog.closure_of_type(ct)
            if cp is None and info.get("targs"):
                cp = prog.closure_of_type(info["targs"][0])
            if cp:
                self.inline_closure(ib, blk, cp, args[0], ("tuple", args[1]), dest, tgt, span, stack, smap, work)
                return
        # ---- combinators ------------------------------------------------------
        if lower(self, ib, blk, path, info, args, dest, tgt, span, stack, smap, work):
            return
        b = prog.bodies.get(path)
        if (
            b is not None
            and b.kind in ("fn", "method", "closure")
            and path not in stack
            and len(stack) < 12
            and not NEVER_INLINE.search(path)
            and not self.opaque(path)
            and not generic
            and (self.only is None or self.only(path))
        ):
            nsmap = {}
            targs = [smap.get(t, t) for t in info.get("targs", [])]
            if b.intrait and targs:
                nsmap["Self"] = targs[0]
            self.inline_body(ib, blk, path, args, dest, tgt, span, stack, nsmap, work)
            return
        info2 = dict(info)
        if path != callee_path(info):
            info2["res"] = path
        ib.blocks[blk].term = ("call", info2, args, dest, tgt, span)

    def inline_body(self, ib, blk, path, args, dest, tgt, span, stack, smap, work):
        b = self.prog.bodies[path]
        ib.inlined.add(path)
        lm = []
        for i, (t, n) in enumerate(zip(b.locals, b.names)):
            lm.append(ib.new_local(t, n, path))
        # propagate closure types into generic parameters
        for i, a in enumerate(args):
            t = self.op_ty(ib, a)
            if t and "[closure@" in t and "closure@" not in ib.locals[lm[i + 1]]:
                ib.locals[lm[i + 1]] = t
        self._flow_closure_types(ib, b, lm)
        # typed return for later closure detection
        nb = ib.blocks[blk]
        for i, a in enumerate(args):
            nb.stmts.append(("=", Place(lm[i + 1], ()), ("use", a), span))
        epi = None
        if tgt is not None:
            epi = ib.new_block(stack[-1])
            if dest is not None:
                ib.blocks[epi].stmts.append(
                    ("=", dest, ("use", ("m", Place(lm[0], ()))), span))
            ib.blocks[epi].term = ("goto", tgt)
        hold = ib.new_block(stack[-1])
        nb.term = ("goto", hold)

        def go():
            e = self.copy(ib, b, lm, epi if epi is not None else self._dead(ib), stack + (path,), smap, {}, work)
            ib.blocks[hold].term = ("goto", e)

        work.append(go)

    def _dead(self, ib):
        return ib.new_block("dead")

    def _flow_closure_types(self, ib, b, lm):
        for _ in range(3):
            ch = False
            for bl in b.blocks:
                if bl is None:
                    continue
                for s in bl[0]:
                    if s[0] != "=" or s[1].proj or isinstance(s[1].base, str):
                        continue
                    rv = s[2]
                    src = None
                    if rv[0] == "use" and rv[1][0] != "k":
                        src = rv[1][1]
                    elif rv[0] == "ref":
                        src = rv[2]
                    if src is None or isinstance(src.base, str) or [e for e in src.proj if e != "*"]:
                        continue
                    t = ib.locals[lm[src.base]]
                    d = lm[s[1].base]
                    if "[closure@" in t and t.lstrip("&").replace("mut ", "").startswith("[closure@") and "closure@" not in ib.locals[d]:
                        ib.locals[d] = t
                        ch = True
            if not ch:
                break

    def inline_closure(self, ib, blk, cp, clo_op, argspec, dest, tgt, span, stack, smap, work):
        """argspec: ('tuple', operand) or ('list', [operands])"""
        b = self.prog.bodies[cp]
        nb = ib.blocks[blk]
        if cp in stack or len(stack) > 14:
            ib.blocks[blk].term = ("call", {"fn": cp, "ty": "", "targs": []}, [clo_op], dest, tgt, span)
            return
        ops = []
        if argspec[0] == "tuple":
            o = argspec[1]
            for i in range(b.nargs - 1):
                if o[0] == "k":
                    ops.append(o)
                else:
                    p = o[1]
                    ops.append(("c", Place(p.base, p.proj + (("f", str(i)),))))
        else:
            ops = list(argspec[1])
        # closure bodies take self either by value or by reference; pass by value,
        # the dataflow identifies a reference with its referent
        selfop = clo_op
        self.inline_body(ib, blk, cp, [selfop] + ops[: b.nargs - 1], dest, tgt, span, stack, smap, work)


def _matcher(pats):
    rs = [re.compile(p) for p in pats]
    return lambda path: any(r.search(path) for r in rs)


# --------------------------------------------------------------------------
# combinators lowered to control flow
FIND = True
OPT = "std::option::Option"
RES = "std::result::Result"


class Em:
    """little emitter"""

    def __init__(self, inl, ib, blk, span, stack, smap, work):
        self.inl, self.ib, self.cur, self.span = inl, ib, blk, span
        self.stack, self.smap, self.work = stack, smap, work

    def tmp(self, ty=""):
        return Place(self.ib.new_local(ty, None, self.stack[-1]), ())

    def asg(self, place, rv):
        self.ib.blocks[self.cur].stmts.append(("=", place, rv, self.span))

    def blk(self):
        return self.ib.new_block(self.stack[-1])

    def goto(self, b):
        self.ib.blocks[self.cur].term = ("goto", b)

    def use(self, place, op):
        self.asg(place, ("use", op))

    def switch(self, place, own, arms):
        """arms: {variant: block}"""
        vs = dict(ADTS[own])
        d = self.tmp("isize")
        self.asg(d, ("discr", place, own))
        vals, tg = [], []
        for v, b in arms.items():
            vals.append(vs[v])
            tg.append(b)
        dead = self.blk()
        self.ib.blocks[self.cur].term = ("switch", ("c", d), vals, tg + [dead], "isize", self.span)

    def agg(self, place, adt, variant, op=None):
        self.asg(place, ("agg", "adt", adt, [op] if op else [], variant, ["0"] if op else []))

    def call_closure(self, clo, args, dest, then):
        """call closure operand; continues at block `then`"""
        ty = self.inl.op_ty(self.ib, clo)
        cp = self.inl.prog.closure_of_type(ty)
        if cp is None and clo[0] == "k" and "fn" in clo[1]:
            # function item used as a closure (including enum constructors)
            fp = callee_path(clo[1])
            blk = self.cur
            v = ctor(self.inl.prog, fp)
            if v:
                self.asg(dest, ("agg", "adt", v[0], list(args), v[1], [str(i) for i in range(len(args))]))
                self.goto(then)
            else:
                self.inl.call(self.ib, blk, clo[1], list(args), dest, then, self.span, self.stack, self.smap, self.work)
            self.cur = then
            return
        if cp is None:
            self.ib.blocks[self.cur].term = (
                "call", {"dyn": clo}, list(args), dest, then, self.span)
            self.cur = then
            return
        self.inl.inline_closure(self.ib, self.cur, cp, clo, ("list", args), dest, then, self.span, self.stack, self.smap, self.work)
        self.cur = then


ADTS = {OPT: [("None", 0), ("Some", 1)], RES: [("Ok", 0), ("Err", 1)]}


def ctor(prog, fp):
    if "::" not in fp:
        return None
    adt, v = fp.rsplit("::", 1)
    adt = re.sub(r"::<.*>$", "", adt)
    if adt in ("std::prelude::v1",):
        return {"Some": (OPT, "Some"), "Ok": (RES, "Ok"), "Err": (RES, "Err")}.get(v)
    a = prog.adts.get(adt)
    if a and a["kind"] == "enum" and any(x["name"] == v for x in a["variants"]):
        return (adt, v)
    if fp in prog.adts:
        return (fp, fp.rsplit("::", 1)[1])
    return None


def pl(p, *proj):
    return Place(p.base, p.proj + tuple(proj))


def mv(p):
    return ("m", p)


def lower(inl, ib, blk, path, info, args, dest, tgt, span, stack, smap, work):
    m = re.match(r"^std::(option::Option|result::Result)::<[^>]*(?:<[^>]*>[^>]*)*>::(\w+)$", path)
    if path == "<std::option::Option<T> as std::ops::Try>::into_result":
        m = re.match(r"^std::(option::Option)::(\w+)$", "std::option::Option::ok_or")
        args = [args[0], ("k", {"ty": "()"})]
    if m and tgt is not None and dest is not None:
        own = "std::" + m.group(1)
        name = m.group(2)
        good, bad = ("Some", "None") if own == OPT else ("Ok", "Err")
        e = Em(inl, ib, blk, span, stack, smap, work)
        if own == OPT and name in ("get_or_insert", "get_or_insert_with") and args[0][0] != "k":
            at = pl(args[0][1], "*")
            bg, bb = e.blk(), e.blk()
            e.switch(at, own, {good: bg, bad: bb})
            e.cur = bb
            v = args[1]
            if name == "get_or_insert_with":
                d = e.tmp()
                e.call_closure(args[1], [], d, e.blk())
                v = mv(d)
            e.agg(at, OPT, "Some", v)
            e.goto(bg)
            e.cur = bg
            e.asg(dest, ("ref", "mut", pl(at, ("d", "Some"), ("f", "0"))))
            e.goto(tgt)
            return True
        spec = COMB.get((own, name))
        if spec is None:
            return False
        o = e.tmp(inl.op_ty(ib, args[0]) or "")
        e.use(o, args[0])
        bg, bb = e.blk(), e.blk()
        e.switch(o, own, {good: bg, bad: bb})
        gp = mv(pl(o, ("d", good), ("f", "0")))
        bp = mv(pl(o, ("d", bad), ("f", "0"))) if own == RES else None
        for arm, b, payload in (("g", bg, gp), ("b", bb, bp)):
            e.cur = b
            arm_code(e, spec[arm], payload, args, dest, tgt, own, name)
        return True
    fn = info.get("fn", "")
    if fn == "std::iter::Iterator::for_each" and dest is not None and tgt is not None:
        e = Em(inl, ib, blk, span, stack, smap, work)
        it = e.tmp()
        e.use(it, args[0])
        head, body, done = e.blk(), e.blk(), e.blk()
        e.goto(head)
        e.cur = head
        n = e.tmp()
        r = e.tmp()
        e.asg(r, ("ref", "mut", it))
        after = e.blk()
        ib.blocks[head].term = ("call", {"fn": "std::iter::Iterator::next", "ty": "", "targs": [], "trait": "std::iter::Iterator"}, [mv(r)], n, after, span)
        e.cur = after
        e.switch(n, OPT, {"None": done, "Some": body})
        e.cur = body
        u = e.tmp()
        e.call_closure(args[1], [mv(pl(n, ("d", "Some"), ("f", "0")))], u, _fwd(ib, stack, head))
        e.cur = done
        e.goto(tgt)
        return True
    if fn in ("std::iter::Iterator::find", "std::iter::Iterator::any", "std::iter::Iterator::all") and FIND and dest is not None and tgt is not None and args[0][0] != "k":
        name = fn.rsplit("::", 1)[-1]
        e = Em(inl, ib, blk, span, stack, smap, work)
        it = args[0]  # &mut
        head, body, none, hit = e.blk(), e.blk(), e.blk(), e.blk()
        e.goto(head)
        e.cur = head
        n, r = e.tmp(), e.tmp()
        after = e.blk()
        ib.blocks[head].term = ("call", {"fn": "std::iter::Iterator::next", "ty": "", "targs": [], "trait": "std::iter::Iterator"}, [("c", it[1])], n, after, span)
        e.cur = after
        e.switch(n, OPT, {"None": none, "Some": body})
        e.cur = body
        x, rx = pl(n, ("d", "Some"), ("f", "0")), e.tmp()
        if name == "find":
            e.asg(rx, ("ref", "shared", x))
        tst = e.blk()
        e.call_closure(args[1], [mv(rx) if name == "find" else mv(x)], r, tst)
        e.cur = tst
        ib.blocks[tst].term = ("switch", ("c", r), [0], [hit, _fwd(ib, stack, head)] if name == "all" else [_fwd(ib, stack, head), hit], "bool", span)
        flag = lambda b: ("use", ("k", {"ty": "bool", "b": b}))
        for b, hitting in ((none, False), (hit, True)):
            e.cur = b
            if name == "find" and hitting:
                e.agg(dest, OPT, "Some", mv(x))
            elif name == "find":
                e.agg(dest, OPT, "None")
            else:
                e.asg(dest, flag(hitting == (name == "any")))
            e.goto(tgt)
        return True
    if fn == "std::iter::Iterator::fold" and dest is not None and tgt is not None:
        e = Em(inl, ib, blk, span, stack, smap, work)
        it, acc = e.tmp(), e.tmp()
        e.use(it, args[0])
        e.use(acc, args[1])
        head, body, done = e.blk(), e.blk(), e.blk()
        e.goto(head)
        e.cur = head
        n, r = e.tmp(), e.tmp()
        e.asg(r, ("ref", "mut", it))
        after = e.blk()
        ib.blocks[head].term = ("call", {"fn": "std::iter::Iterator::next", "ty": "", "targs": [], "trait": "std::iter::Iterator"}, [mv(r)], n, after, span)
        e.cur = after
        e.switch(n, OPT, {"None": done, "Some": body})
        e.cur = body
        e.call_closure(args[2], [mv(acc), mv(pl(n, ("d", "Some"), ("f", "0")))], acc, _fwd(ib, stack, head))
        e.cur = done
        e.use(dest, mv(acc))
        e.goto(tgt)
        return True
    # generic: foreign function taking closures -> closures run 0..n times first
    if inl.prog.bodies.get(path) is not None:
        return False
    if re.search(r"thread::(Builder::)?spawn|thread::spawn|FnBox", path) or fn.startswith("std::thread"):
        return False
    clos = [(i, a) for i, a in enumerate(args)
            if a[0] != "k" and inl.prog.closure_of_type(inl.op_ty(ib, a) or "")
            and (inl.op_ty(ib, a) or "").lstrip("&").replace("mut ", "").startswith("[closure@")]
    if (not clos and tgt is not None and dest is not None and fn in ("std::iter::Iterator::map", "std::iter::Iterator::filter_map", "std::iter::Iterator::flat_map")
            and len(args) == 2 and args[1][0] == "k" and "fn" in args[1][1]):
        # a function named where a closure could be
        e = Em(inl, ib, blk, span, stack, smap, work)
        name = fn.rsplit("::", 1)[-1]
        head, body, nxt = e.blk(), e.blk(), e.blk()
        e.goto(head)
        ib.blocks[head].term = ("nondet", [body, nxt])
        e.cur = body
        t, r = e.tmp(), e.tmp()
        e.asg(t, ("cbarg", name, 0, args[0]))
        e.call_closure(args[1], [mv(t)], r, _fwd(ib, stack, head))
        e.cur = nxt
        e.asg(dest, ("iterop", name, args[0], mv(r), callee_path(args[1][1]), args[1]))
        e.goto(tgt)
        return True
    if not clos or tgt is None:
        return False
    e = Em(inl, ib, blk, span, stack, smap, work)
    name = fn.rsplit("::", 1)[-1]
    rets = []
    for i, a in clos:
        cp = inl.prog.closure_of_type(inl.op_ty(ib, a))
        cb = inl.prog.bodies.get(cp)
        if cb is None:
            continue
        head, body, nxt = e.blk(), e.blk(), e.blk()
        e.goto(head)
        ib.blocks[head].term = ("nondet", [body, nxt])
        e.cur = body
        cargs = []
        for k in range(cb.nargs - 1):
            t = e.tmp()
            e.asg(t, ("cbarg", name, k, args[0] if args else None))
            cargs.append(mv(t))
        r = e.tmp()
        rets.append(r)
        # 0..n times for iterator adapters, at most once otherwise
        loops = "iter::" in fn or name in ("retain", "sort_by", "sort_by_key", "binary_search_by", "dedup_by")
        e.call_closure(a, cargs, r, _fwd(ib, stack, head if loops else nxt))
        e.cur = nxt
    if dest is not None and "iter::Iterator::" in fn and name in ITER_CLOS:
        e.asg(dest, ("iterop", name, args[0], mv(rets[0]) if rets else None, inl.prog.closure_of_type(inl.op_ty(ib, clos[0][1])), clos[0][1]))
        e.goto(tgt)
        return True
    inf = dict(info)
    inf["clo"] = True
    if name == "retain" and rets:
        args = list(args) + [mv(rets[0])]  # what is asked of each element
    ib.blocks[e.cur].term = ("call", inf, args, dest, tgt, span)
    return True


ITER_CLOS = {"map", "filter", "filter_map", "flat_map", "take_while", "skip_while", "inspect", "any", "all", "position", "find", "min_by", "max_by"}


def _fwd(ib, stack, target):
    b = ib.new_block(stack[-1])
    ib.blocks[b].term = ("goto", target)
    return b


# arm codes: what the arm does
COMB = {
    (OPT, "map"): {"g": "wrap(c1(p))", "b": "none"},
    (OPT, "and_then"): {"g": "c1(p)", "b": "none"},
    (OPT, "map_or"): {"g": "c2(p)", "b": "a1"},
    (OPT, "map_or_else"): {"g": "c2(p)", "b": "c1()"},
    (OPT, "unwrap_or"): {"g": "p", "b": "a1"},
    (OPT, "unwrap_or_else"): {"g": "p", "b": "c1()"},
    (OPT, "unwrap_or_default"): {"g": "p", "b": "default"},
    (OPT, "or"): {"g": "self", "b": "a1"},
    (OPT, "or_else"): {"g": "self", "b": "c1()"},
    (OPT, "and"): {"g": "a1", "b": "none"},
    (OPT, "ok_or"): {"g": "ok(p)", "b": "err(a1)"},
    (OPT, "ok_or_else"): {"g": "ok(p)", "b": "err(c1())"},
    (OPT, "unwrap"): {"g": "p", "b": "panic"},
    (OPT, "expect"): {"g": "p", "b": "panic"},
    (OPT, "is_some"): {"g": "true", "b": "false"},
    (OPT, "is_none"): {"g": "false", "b": "true"},
    (RES, "map"): {"g": "ok(c1(p))", "b": "err(p)"},
    (RES, "map_err"): {"g": "ok(p)", "b": "err(c1(p))"},
    (RES, "and_then"): {"g": "c1(p)", "b": "err(p)"},
    (RES, "or_else"): {"g": "ok(p)", "b": "c1(p)"},
    (RES, "unwrap_or"): {"g": "p", "b": "a1"},
    (RES, "unwrap_or_else"): {"g": "p", "b": "c1(p)"},
    (RES, "unwrap_or_default"): {"g": "p", "b": "default"},
    (RES, "ok"): {"g": "some(p)", "b": "none"},
    (RES, "err"): {"g": "none", "b": "some(p)"},
    (RES, "unwrap"): {"g": "p", "b": "panic"},
    (RES, "expect"): {"g": "p", "b": "panic"},
    (RES, "unwrap_err"): {"g": "panic", "b": "p"},
    (RES, "is_ok"): {"g": "true", "b": "false"},
    (RES, "is_err"): {"g": "false", "b": "true"},
}


def arm_code(e, code, payload, args, dest, tgt, own, name):
    ib = e.ib

    def done():
        e.goto(tgt)

    def clo(i, with_p, d):
        nb = e.blk()
        e.call_closure(args[i], [payload] if with_p and payload else [], d, nb)

    wrap = None
    inner = code
    m = re.match(r"^(wrap|ok|err|some)\((.*)\)$", code)
    if m:
        wrap, inner = m.group(1), m.group(2)
    if inner == "panic":
        ib.blocks[e.cur].term = ("panic", name, e.span)
        return
    if inner == "none":
        e.agg(dest, OPT, "None")
        return done()
    if inner == "default":
        e.asg(dest, ("default",))
        return done()
    if inner in ("true", "false"):
        e.asg(dest, ("use", ("k", {"ty": "bool", "b": inner == "true"})))
        return done()
    if inner == "self":
        e.use(dest, args[0])
        return done()
    if inner == "p":
        v = payload
    elif inner == "a1":
        v = args[1]
    else:
        mm = re.match(r"^c(\d)\((p?)\)$", inner)
        d = e.tmp()
        clo(int(mm.group(1)), mm.group(2) == "p", d)
        v = mv(d)
    if wrap is None:
        e.use(dest, v)
    elif wrap == "ok":
        e.agg(dest, RES, "Ok", v)
    elif wrap == "err":
        e.agg(dest, RES, "Err", v)
    elif wrap in ("some",) or own == OPT:
        e.agg(dest, OPT, "Some", v)
    else:
        e.agg(dest, RES, "Ok", v)
    done()
