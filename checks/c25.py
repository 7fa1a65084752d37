"""The configuration: which entry of the file each field of each stage's configuration is
read from, by what accessor, and what it is when the entry is absent; and that each stage
configured - and only those - is handed on, under its name.  Values are followed through
joins with the look-ups known to have succeeded on the way."""
from rules import *

P = "config::parse_config_file"
COPY = ("to_string", "to_owned", "into", "from", "clone", "to_path_buf", "as_ref", "to_vec", "iter", "into_iter", "deref", "borrow", "as_path")
INT = {"u8": 8, "u16": 16, "u32": 32, "i32": 31, "u64": 64, "i64": 63, "usize": 64, "isize": 63}


def last(p):
    return (p if isinstance(p, str) else p.path).rsplit("::", 1)[-1]


def call(t, *names):
    return isinstance(t, tuple) and len(t) > 2 and t[0] == "call" and last(t[1]) in names


def bare(t, names=COPY):
    while isinstance(t, tuple) and t[0] == "call" and len(t) > 2 and len(t[2]) == 1 and last(t[1]) in names:
        t = t[2][0]
    return t


def got(t, v="Some"):
    """the X of X@v.0"""
    if t[0] == "fld" and t[2] == "0" and t[1][0] == "var" and t[1][2] == v:
        return t[1][1]
    return None


class Conf:
    def __init__(self, cx, fl):
        self.cx, self.fl = cx, fl
        self.root = None
        self.memo = {}

    def where(self, t):
        """the place in the file a term is: names from the top, * for each of a table"""
        t = bare(t)
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        r = None
        x = got(t, "Ok")
        if x is not None and call(x, "from_str", "parse", "from_slice") and bare(x[2][0], COPY + ("as_bytes", "as_str")) == ("arg", 1):
            r = ()
        x = got(t)
        if x is not None:
            if call(x, "get") and x[2][1][0] == "c":
                b = self.where(x[2][0])
                r = b + (x[2][1][1],) if b is not None else None
            elif call(x, "as_table", "as_array"):
                r = self.where(x[2][0])
        if call(t, "index") and t[2][1][0] == "c":
            b = self.where(t[2][0])
            r = b + (t[2][1][1],) if b is not None else None
        x = got(t, "Table")
        if x is not None:
            r = self.where(x)
        if t[0] == "fld" and t[2] == "1" and t[1][0] == "elem":
            b = self.where(t[1][1])
            r = b + ("*",) if b is not None else None
        if t[0] == "elem":
            c = bare(t[1])
            b = self.where(c[2][0]) if call(c, "values") else self.where(c)
            r = b + ("*",) if b is not None else None
        self.memo[t] = r
        return r

    def name(self, t):
        """the table a term is the name of an entry of"""
        t = bare(t)
        if t[0] == "fld" and t[2] == "0" and t[1][0] == "elem":
            b = self.where(t[1][1])
            return b + ("*",) if b is not None else None
        if t[0] == "elem" and call(bare(t[1]), "keys"):
            b = self.where(bare(t[1])[2][0])
            return b + ("*",) if b is not None else None
        return None

    def known(self, facts):
        """which entries are known to be there, or not to"""
        out = {}
        for t, v in facts.items():
            if v == ("c", False) and got(t) is not None and call(got(t), "as_bool"):
                b = self.where(got(t)[2][0])
                if b is not None:
                    out[b + ("=",)] = False
            if v not in (("v", "Some"), ("v", "None")):
                continue
            there = v == ("v", "Some")
            if call(t, "get") and t[2][1][0] == "c":
                b = self.where(t[2][0])
                if b is not None:
                    out[b + (t[2][1][1],)] = there
            elif call(t, "as_table", "as_array") and not there:
                b = self.where(t[2][0])
                if b is not None:
                    out[b + ("!",)] = True
        return out

    def alts(self, t, known=None, deep=0, facts=None):
        """[(entries known, leaf)] a term stands for"""
        known = known or {}
        facts = facts or {}
        if t[0] == "phi" and deep < 30:
            out = []
            for p, v, f in phi_ins(self.fl, t):
                k = self.known(f)
                if any(known.get(a, b) != b for a, b in k.items()) or v == t:
                    continue
                if any(isinstance(x, tuple) and x[0] == "v" and facts.get(a, x) != x for a, x in f.items()):
                    continue
                out += self.alts(v, {**known, **k}, deep + 1, {**facts, **{a: x for a, x in f.items() if isinstance(x, tuple) and x[0] == "v"}})
            return out
        if t[0] == "fld" and deep < 30:
            if t[1][0] == "var":
                base = self.alts(t[1][1], known, deep + 1, facts)
                if base != [(known, t[1][1])]:
                    out = []
                    for k, b in base:
                        if b[0] == "agg" and b[1] != t[1][2]:
                            continue
                        out += self.alts(self.fl.proj({}, self.fl.proj({}, b, ("d", t[1][2])), ("f", t[2])), k, deep + 1, facts)
                    return out
            elif t[1][0] in ("phi", "fld"):
                base = self.alts(t[1], known, deep + 1, facts)
                if base != [(known, t[1])]:
                    return [y for k, b in base for y in self.alts(self.fl.proj({}, b, ("f", t[2])), k, deep + 1, facts)]
        return [(known, t)]


def run(cx):
    if P not in cx.prog.bodies:
        raise AnchorError(P)
    fl = cx.flow(P, maxdepth=120)
    C = Conf(cx, fl)
    S = Spec(cx, fl, C)
    r = fl.ret()
    if not cx.ob("read", "result", r is not None, "what reading a configuration gives is not understood"):
        return
    get = lambda f: fl.proj({}, r, ("f", f))
    # the top of the file
    for f, k, kind in (("max_hopper_queue_bytes", "max-hopper-queue-bytes", "int"), ("max_hopper_queue_files", "max-hopper-queue-files", "int"),
                       ("max_hopper_in_memory_bytes", "max-hopper-in-memory-bytes", "int"), ("data_directory", "data-directory", "str"),
                       ("scripts_directory", "scripts-directory", "str"), ("flush_interval", "flush-interval", "flush")):
        S.field("top", f, get(f), (k,), kind, ("fld", ("default", "config::Args"), f))
    S.globals = {f: get(f) for f in ("flush_interval", "scripts_directory")}
    FLUSH = {"flush_interval": ("flush_interval", "flush", "global")}
    TAGS = {"tags": (None, "tags", None)}
    HP = {"host": ("host", "str"), "port": ("port", "int")}
    single = {
        "null": ("sinks", "null", "sink::null::NullConfig", {}),
        "console": ("sinks", "console", "sink::console::ConsoleConfig", dict(FLUSH, **TAGS, bin_width=("bin_width", "int"))),
        "wavefront": ("sinks", "wavefront", "sink::wavefront::WavefrontConfig", dict(FLUSH, **TAGS, **HP, bin_width=("bin_width", "int"), age_threshold=("age_threshold", "some int"), pad_control=("padding", "padding"), percentiles=("percentiles", "percentiles"))),
        "influxdb": ("sinks", "influxdb", "sink::influxdb::InfluxDBConfig", dict(FLUSH, **TAGS, **HP, db=("db", "str"), secure=("secure", "bool"))),
        "prometheus": ("sinks", "prometheus", "sink::prometheus::PrometheusConfig", dict(TAGS, **HP, age_threshold=("age_threshold", "some int"), capacity_in_seconds=("capacity_in_seconds", "int"))),
        "elasticsearch": ("sinks", "elasticsearch", "sink::elasticsearch::ElasticsearchConfig", dict(FLUSH, **TAGS, **HP, secure=("secure", "bool"), index_type=("index_type", "str"), index_prefix=("index-prefix", "some str"), delivery_attempt_limit=("delivery_attempt_limit", "int"))),
        "native_sink_config": ("sinks", "native", "sink::native::NativeConfig", dict(FLUSH, **TAGS, **HP)),
        "internal": ("sources", "internal", "source::internal::InternalConfig", {"forwards": ("forwards", "list")}),
    }
    for f, (sec, name, ty, fields) in sorted(single.items()):
        S.one(f, get(f), (sec, name), ty, fields)
    FW = {"forwards": ("forwards", "list")}
    several = {
        "delay_filters": (("filters", "delay"), "filter::delay_filter::DelayFilterConfig", dict(FW, tolerance=("tolerance", "int")), ("tolerance",), False, "map"),
        "json_encode_filters": (("filters", "json_encode"), "filter::json_encode_filter::JSONEncodeFilterConfig", dict(FW, **TAGS, parse_line=("parse_line", "bool", ("c", False))), (), False, "map"),
        "flush_boundary_filters": (("filters", "flush_boundary"), "filter::flush_boundary_filter::FlushBoundaryFilterConfig", dict(FW, tolerance=("tolerance", "int")), ("tolerance",), False, "map"),
        "programmable_filters": (("filters", "programmable"), "filter::programmable_filter::ProgrammableFilterConfig", dict(FW, **TAGS, script=("script", "script"), scripts_directory=(None, "scripts", None)), ("script",), False, "map"),
        "kafkas": (("sinks", "kafka"), "sink::kafka::KafkaConfig", dict(FLUSH, topic_name=("topic", "some str"), brokers=("brokers", "some str"), max_message_bytes=("max_message_bytes", "int"), rdkafka_config=("librdkafka", "librdkafka")), ("topic", "brokers"), True, "list"),
        "files": (("sources", "files"), "source::file::file_server::FileServerConfig", dict(FW, path=("path", "some str"), max_read_bytes=("max_read_bytes", "int")), ("path",), False, "files"),
        "statsds": (("sources", "statsd"), "source::statsd::StatsdConfig", dict(FW, **HP, parse_config=("mapping", "mapping")), (), True, "map"),
        "graphites": (("sources", "graphite"), "source::graphite::GraphiteConfig", dict(FW, **HP), (), True, "map"),
        "avros": (("sources", "avro"), "source::tcp::TCPConfig", dict(FW, host=("host", "str"), port=("port", "int", ("c", 2002))), (), True, "map"),
        "native_server_config": (("sources", "native"), "source::native::NativeServerConfig", dict(FW, ip=("ip", "str"), port=("port", "int")), (), True, "map"),
    }
    for f, (sec, ty, fields, need, enabled, form) in sorted(several.items()):
        S.many(f, get(f), sec, ty, fields, need, enabled, form)
    adt = cx.prog.adts.get("config::Args")
    have = {x[0] for x in adt["variants"][0]["fields"]} if adt else set()
    cx.floor("stages", len(have & (set(single) | set(several))), 18)
    cx.ob("read", "version", get("version") == ("fld", ("default", "config::Args"), "version"), "the version is configured")
    S.interval()
    S.tags()
    S.file()


class Spec:
    def __init__(self, cx, fl, C):
        self.cx, self.fl, self.C, self.globals = cx, fl, C, {}
        self.loops = loops(fl)
        self.n = 0
        q = cx.flow("source::flush::flushes_per_second").ret() if "source::flush::flushes_per_second" in cx.prog.bodies else None
        self.fps = q[1] if q and q[0] == "c" else None

    # ------------------------------------------------------------ one field
    def field(self, stage, f, t, path, kind, default, absent=None):
        self.n += 1
        cx, C = self.cx, self.C
        inst = "%s.%s" % (stage, f)
        alts = C.alts(t)
        seen = set()
        ok, why = bool(alts), ""
        for k, v in alts:
            there = k.get(path)
            if there is None and k.get(path + ("!",)):
                there = False
            val = self.value(v, path, kind)
            if val:
                if there is False:
                    continue
                seen.add("there")
                continue
            if default is not None and self.same(v, default):
                if there is True:
                    ok, why = False, "%s is the default though the file has %s" % (inst, ".".join(path))
                seen.add("absent")
                continue
            ok, why = False, "%s is %s" % (inst, fmt(v)[:100])
        if ok and "there" not in seen:
            ok, why = False, "%s does not come from %s" % (inst, ".".join(path))
        cx.ob("fields", inst, ok, "a configured value is not what the file says: %s" % why)

    def same(self, v, d):
        if v == d:
            return True
        if callable(d):
            return d(v)
        return False

    def value(self, v, path, kind):
        C = self.C
        if kind.startswith("some "):
            return v[0] == "agg" and v[1] == "Some" and self.value(v[2][0][1], path, kind[5:])
        if kind == "int":
            w = []
            while v[0] == "cast":
                w.append(v[1])
                v = v[2]
            if any(INT.get(a, 0) > INT.get(b, 64) for a, b in zip(w, w[1:])):
                return False  # widened again after it was narrowed
            return self.read(v, "as_integer", path, "Integer")
        if kind == "bool":
            return self.read(v, "as_bool", path, "Boolean")
        if kind == "float":
            return self.read(v, "as_float", path, "Float")
        if kind == "str":
            v = bare(v, COPY + ("new",))
            return self.read(v, "as_str", path, "String")
        if kind == "list":
            return self.list(v, path, "as_str")
        if kind == "flush":
            return self.flush(v, path)
        return False

    def read(self, v, how, path, var):
        x = got(v)
        if x is not None and call(x, how):
            return self.C.where(x[2][0]) == path
        x = got(v, var)
        return x is not None and self.C.where(x) == path

    def list(self, v, path, how):
        v = bare(v, COPY + ("collect",))
        if v[0] == "iterop" and v[1] == "map":
            src = bare(v[2])
            if self.C.where(src) != path:
                return False
            e = bare(v[3])
            x = got(e)
            return x is not None and call(x, how) and x[2][0][0] == "elem" and self.C.where(x[2][0][1]) == path
        # filled in a loop
        ls = [L for L in self.loops if self.C.where(L.it) == path and L.complete()]
        for L in ls:
            push = [c for c in self.fl.calls if c.args and c.args[0] == v and last(c) in ("push", "push_back")]
            x = got(bare(push[0].args[1])) if len(push) == 1 else None
            if x is not None and call(x, how) and x[2][0] == L.elem:
                return True
        return False

    def flush(self, v, path):
        n = self.fps
        w = v
        if w[0] == "cast" and w[1] == "u64" and w[2][0] == "bin":
            w = w[2]
        if w[0] != "bin" or w[1] != "Mul":
            return False
        for a, b in ((w[2], w[3]), (w[3], w[2])):
            while b[0] == "cast":
                b = b[2]
            if b != ("c", n) and b != ("c", float(n or 0)):
                continue
            f = a
            while f[0] == "cast":
                f = f[2]
            x = got(f, "Float")
            if x is None and got(f) is not None and call(got(f), "as_float"):
                x = got(f)[2][0]
            if x is not None:
                return v[0] == "cast" and v[1] == "u64" and self.C.where(x) == path and f == a
            x = got(f, "Integer")
            if x is None and got(f) is not None and call(got(f), "as_integer"):
                x = got(f)[2][0]
            return x is not None and self.C.where(x) == path and (a == f or a[1] in ("u64", "i64"))
        return False

    def within(self, L):
        """the blocks of a loop"""
        fl = self.fl
        a = reach(fl, [s for _, s in L.some], L.next)
        pred = {}
        for b in a:
            for s in fl.succ.get(b, ()):
                pred.setdefault(s, set()).add(b)
        out, st = set(), list(L.next)
        while st:
            b = st.pop()
            for x in pred.get(b, ()):
                if x not in out:
                    out.add(x)
                    st.append(x)
        return out

    # ------------------------------------------------------------ one stage
    def present(self, f, t, path, absent):
        """the configurations a stage has, when the file has it"""
        cx = self.cx
        out, ok = [], True
        for k, v in self.C.alts(t):
            missing = any(k.get(path[:i]) is False for i in range(1, len(path) + 1))
            if missing:
                ok = ok and (v in (("fld", ("default", "config::Args"), f), absent) or v[0] == "agg" and v[1] == "None")
            elif k.get(path) is True:
                out.append((k, v))
            else:
                ok = False
        cx.ob("stages", f + " absent", ok, "a stage is configured that the file does not have")
        cx.ob("stages", f + " present", bool(out), "a stage the file has is not configured")
        return out

    def none_by_default(self, f):
        for p in [p for p in self.cx.prog.bodies if p == "<config::Args as std::default::Default>::default"]:
            r = self.cx.flow(p).ret()
            v = self.cx.flow(p).proj({}, r, ("f", f)) if r else ("?",)
            self.cx.ob("stages", f + " default", v[:2] == ("agg", "None") or f == "internal", "a stage is configured without a file")

    def one(self, f, t, path, ty, fields):
        self.none_by_default(f)
        for k, v in self.present(f, t, path, None):
            if f != "internal":
                if not self.cx.ob("stages", f, v[0] == "agg" and v[1] == "Some", "a stage the file has is not configured: %s" % fmt(v)[:80]):
                    continue
                v = v[2][0][1]
            self.fields(f, v, path, ty, fields, "%s.%s" % path)

    def fields(self, f, v, path, ty, fields, label):
        cx, fl = self.cx, self.fl
        adt = cx.prog.adts.get(ty)
        names = [x[0] for x in adt["variants"][0]["fields"]] if adt else []
        cx.ob("fields", f + " known", bool(names), "the configuration of a stage is not found")
        base = lambda n: ("fld", ("default", ty), n)
        for n in names:
            w = fl.proj({}, v, ("f", n))
            if n == "config_path":
                if label is not None:
                    cx.ob("fields", "%s.%s" % (f, n), self.labelled(w, label, path), "a stage goes by another name than the file's: %s" % fmt(w)[:80])
                continue
            if n not in fields:
                cx.ob("fields", "%s.%s" % (f, n), w == base(n), "a value is configured by nothing the file says: %s = %s" % (n, fmt(w)[:80]))
                continue
            s = fields[n]
            if s[1] == "tags":
                self.tagmap(f, w)
            elif s[1] == "scripts":
                g = bare(w[2][0][1]) if w[0] == "agg" and w[1] == "Some" else w
                cx.ob("fields", "%s.%s" % (f, n), g == self.globals["scripts_directory"], "the directory of scripts is not the one configured")
            elif s[1] == "script":
                g = w[2][0][1] if w[0] == "agg" and w[1] == "Some" else w
                ok = call(g, "join") and bare(g[2][0]) == self.globals["scripts_directory"] and self.value(g[2][1], path + (s[0],), "str")
                cx.ob("fields", "%s.%s" % (f, n), ok, "the script is not the one configured, in the directory of scripts")
            elif s[1] == "padding":
                self.padding(f, w, path + (s[0],), base(n))
            elif s[1] == "percentiles":
                self.pairs(f, w, path + (s[0],), base(n))
            elif s[1] == "librdkafka":
                self.strings(f, w, path + (s[0],))
            elif s[1] == "mapping":
                self.mapping(f, w, path, base(n))
            elif s[1] == "flush":
                g = self.globals["flush_interval"]
                self.flushed(f, n, w, path + (s[0],))
            else:
                d = s[2] if len(s) > 2 else base(n)
                if s[1] == "list":
                    d = lambda v, d=base(n): v == d or empty(v)
                self.field(f, n, w, path + (s[0],), s[1], d)

    def flushed(self, f, n, w, path):
        """its own interval, or else the one for all"""
        g = self.C.alts(self.globals["flush_interval"])
        leaves_ = {v for _, v in g}
        self.field(f, n, w, path, "flush", lambda v: v in leaves_)

    def labelled(self, w, label, path):
        w = bare(w)
        if w[0] == "agg" and w[1] == "Some":
            w = bare(w[2][0][1])
        if call(w, "index"):
            w = bare(w[2][0])
        if label.endswith("*"):
            return self.text(w, label[:-1], path)
        return w == ("c", label)

    def text(self, w, prefix, path):
        """prefix and the stage's own name"""
        w = bare(w)
        ps = pieces(w)
        if ps is not None:
            ps = [x for x in ps if x != ""]
            return len(ps) == 2 and ps[0] == prefix and not isinstance(ps[1], str) and ps[1][1] == "Display" and self.C.name(ps[1][0]) == path
        if call(w, "concat"):
            return bare(w[2][0]) == ("c", prefix) and self.C.name(w[2][1]) == path
        return False

    # ------------------------------------------------------------ many stages of a kind
    def many(self, f, t, sec, ty, fields, need, enabled, form):
        cx, fl, C = self.cx, self.fl, self.C
        self.none_by_default(f)
        vs = self.present(f, t, sec, None)
        path = sec + ("*",)
        label = None if form == "files" or f in ("statsds", "graphites", "avros") else ".".join(sec) + ".*"
        if vs and all(v[0] == "agg" and v[1] == "Some" and self.mapped(v[2][0][1], sec) for _, v in vs):
            for _, v in vs:
                self.gathered(f, self.mapped(v[2][0][1], sec), sec, ty, fields, need, enabled, form, label)
            return
        Ls = [L for L in self.loops if any(C.where(x) == path for x in (L.elem, ("fld", L.elem, "1")))]
        if not cx.ob("stages", f + " loop", len(Ls) == 1 and Ls[0].complete(), "not every stage the file has is looked at"):
            return
        L = Ls[0]
        it, dropped = L.it, set()
        while it[0] == "iterop" and it[1] == "filter":
            for k, v in C.alts(it[3]):
                if v == ("c", True):
                    continue
                out = {x for x in need if k.get(path + (x,)) is False} | ({"enabled"} if enabled and (k.get(path + ("enabled", "=")) is False or self.read(v, "as_bool", path + ("enabled",), "Boolean")) else set())
                cx.ob("stages", f + " picked", bool(out) and (v == ("c", False) or "enabled" in out and v != ("c", True)), "a stage the file has is left out")
                dropped |= out
            it = bare(it[2])
        if call(it, "values"):
            it = bare(it[2][0])
        if not cx.ob("stages", f + " over", C.where(it) == sec, "not every stage the file has is looked at"):
            return
        colls = set()
        for k, v in vs:
            if cx.ob("stages", f, v[0] == "agg" and v[1] == "Some", "the stages the file has are not configured: %s" % fmt(v)[:80]):
                colls.add(v[2][0][1])
        adds = [c for c in fl.calls if c.args and c.args[0] in colls and last(c) in ("insert", "push", "entry")]
        ty_adds = [c for c in adds if c.blk in self.within(L)]
        if not cx.ob("stages", f + " kept", len(colls) == 1 and len(ty_adds) == 1 and len(adds) == 1, "the stages the file has are not kept"):
            return
        a = ty_adds[0]
        bad = [c for c in fl.calls if c.args and bare(c.args[0], ("iter_mut", "values_mut", "keys")) in colls and last(c) in ("remove", "clear", "retain", "truncate", "pop", "drain", "swap_remove", "dedup")]
        cx.ob("stages", f + " left", not bad, "stages the file has are taken out again")
        if form == "map":
            cx.ob("stages", f + " name", last(a) == "insert" and self.text(a.args[1], ".".join(sec) + ".", path), "a stage goes by another name than the file's: %s" % fmt(a.args[1])[:100])
        v = a.args[-1]
        self.fields(f, v, path, ty, fields, label)
        # which are left out
        qs = self.rounds(L)
        if not cx.ob("stages", f + " rounds", bool(qs), "the loop over a kind of stages is not understood"):
            return
        n = 0
        for i, q in enumerate(qs):
            if self.impossible(q):
                continue
            n += 1
            k = C.known(q.facts)
            off = self.off(q, path + ("enabled",)) if enabled else False
            ins = [c for c in q.calls if c.blk == a.blk]
            lack = [x for x in need if k.get(path + (x,)) is False]
            dropped |= set(lack) | ({"enabled"} if off else set())
            if off or lack:
                cx.ob("stages", "%s left out #%d" % (f, i), not ins, "a stage that is off, or lacks what it needs, is configured")
            else:
                cx.ob("stages", "%s kept #%d" % (f, i), len(ins) == 1, "a stage the file has is left out")
        for x in need + (("enabled",) if enabled else ()):
            cx.ob("stages", "%s without %s" % (f, x), x in dropped, "a stage that is off, or lacks what it needs, is configured")
        cx.floor("rounds " + f, n, 1 + len(need[:1]) + enabled)

    def mapped(self, v, sec):
        """the mapping a collection is gathered with, from the table at a place"""
        v = bare(v, COPY + ("collect",))
        if v[0] == "iterop" and v[1] in ("map", "filter_map"):
            src = bare(v[2])
            if call(src, "values"):
                src = bare(src[2][0])
            if self.C.where(src) == sec:
                return v
        return None

    def gathered(self, f, v, sec, ty, fields, need, enabled, form, label):
        cx, C = self.cx, self.C
        path, n = sec + ("*",), 0
        for i, (k, e) in enumerate(C.alts(v[3])):
            n += 1
            if v[1] == "filter_map":
                if not cx.ob("stages", "%s some #%d" % (f, i), e[0] == "agg" and e[1] in ("Some", "None"), "a stage the file has is not understood"):
                    continue
                out = k.get(path + ("enabled", "=")) is False and enabled or any(k.get(path + (x,)) is False for x in need)
                cx.ob("stages", "%s %s #%d" % (f, "left out" if out else "kept", i), e[1] == ("None" if out else "Some"), "a stage that is off, or lacks what it needs, is configured" if out else "a stage the file has is left out")
                if e[1] == "None":
                    continue
                e = e[2][0][1]
            if form == "map":
                d = dict(e[2]) if e[0] == "agg" else {}
                if not cx.ob("stages", f + " name", "0" in d and "1" in d and self.text(d["0"], ".".join(sec) + ".", path), "a stage goes by another name than the file's"):
                    continue
                e = d["1"]
            self.fields(f, e, path, ty, fields, label)
        cx.ob("stages", f + " all", n > 0 and (v[1] == "filter_map" or not need and not enabled), "a stage that is off, or lacks what it needs, is configured")

    def rounds(self, L):
        """rounds of a loop, with what decides whether its stage is kept"""
        return trace(self.fl, L.some, tuple(L.next), limit=60000)

    def impossible(self, q):
        for t, v in q.facts.items():
            b = self.bool(t)
            if b is not None and v[0] == "c" and v[1] is not b:
                return True
        return False

    def bool(self, t):
        """what an entry that is absent counts as"""
        x = got(t)
        if x is not None and call(x, "as_bool") and x[2][0][0] == "agg" and x[2][0][1] == "Boolean" and x[2][0][2][0][1][0] == "c":
            return bool(x[2][0][2][0][1][1])
        return None

    def off(self, q, path):
        for t, v in q.facts.items():
            if self.read(t, "as_bool", path, "Boolean") and v == ("c", False):
                return True
        return False

    # ------------------------------------------------------------ what is not one value
    def padding(self, f, w, path, default):
        cx, C = self.cx, self.C
        seen = set()
        for k, v in C.alts(w):
            there = k.get(path)
            if v == default:
                seen.add("absent")
                cx.ob("fields", f + " padding absent", there is not True or bool(k.get(path + ("!",))), "padding is the default though the file has it")
                continue
            if not cx.ob("fields", f + " padding", v[0] == "agg" and {x for x, _ in v[2]} == {"set", "sum", "summarize", "histogram"}, "padding is not what the file says"):
                continue
            seen.add("there")
            for n, x in v[2]:
                self.field(f + ".padding", n, x, path + (n,), "bool", ("c", False))
        cx.ob("fields", f + " padding both", seen == {"absent", "there"}, "padding does not come from the file")

    def filled(self, v, path, add=("push", "insert")):
        """(loop over the table at path, call that fills v in it)"""
        Ls = [L for L in self.loops if self.C.where(L.it) == path and L.complete()]
        if len(Ls) != 1:
            return None, ()
        body = self.within(Ls[0])
        cs = [c for c in self.fl.calls if c.args and c.args[0] == v and last(c) in add and c.blk in body]
        return (Ls[0], cs) if cs else (None, cs)

    def each(self, L, cs):
        """every round of the loop that ends fills once"""
        qs = self.rounds(L)
        return bool(qs) and all(len([c for c in q.calls if any(c.blk == x.blk for x in cs)]) == 1 for q in qs if not self.impossible(q))

    def pairs(self, f, w, path, default):
        cx, C = self.cx, self.C
        seen = set()
        for k, v in C.alts(w):
            if v == default:
                seen.add("absent")
                cx.ob("fields", f + " percentiles absent", k.get(path) is not True or bool(k.get(path + ("!",))), "the percentiles are the default though the file has some")
                continue
            seen.add("there")
            x = bare(v, COPY + ("collect",))
            if x[0] == "iterop" and x[1] == "map":
                ok, e = C.where(x[2]) == path, x[3]
            else:
                L, cs = self.filled(v, path)
                ok = L is not None and len(cs) == 1 and self.each(L, cs)
                e = cs[0].args[-1] if ok else ("?",)
            if ok:
                d = dict(e[2]) if e[0] == "agg" else {}
                ok = C.name(d.get("0", ("?",))) == path + ("*",) and self.value(d.get("1", ("?",)), path + ("*",), "float")
            cx.ob("fields", f + " percentiles", ok, "the percentiles are not those the file has")
        cx.ob("fields", f + " percentiles both", seen == {"absent", "there"}, "the percentiles do not come from the file")

    def strings(self, f, w, path):
        """a table of settings, each as text"""
        cx, C = self.cx, self.C
        seen = set()
        for k, v in C.alts(w):
            if v[0] == "agg" and v[1] == "None":
                seen.add("absent")
                cx.ob("fields", f + " settings absent", k.get(path) is False, "settings the file has are left out")
                continue
            seen.add("there")
            m = v[2][0][1] if v[0] == "agg" else v
            L, cs = self.filled(m, path)
            ok = L is not None
            kinds = set()
            for c in cs if ok else ():
                x = bare(c.args[2], COPY)
                ps = pieces(x)
                if ps is not None:
                    ps = [y for y in ps if y != ""]
                    x = ps[0][0] if len(ps) == 1 and not isinstance(ps[0], str) and ps[0][1] == "Display" else ("?",)
                x = bare(x)
                kind = [n for n in ("Integer", "String", "Float", "Boolean") if got(x, n) is not None and C.where(got(x, n)) == path + ("*",)]
                ok = ok and len(kind) == 1 and C.name(c.args[1]) == path + ("*",)
                kinds |= set(kind)
            cx.ob("fields", f + " settings", ok and kinds == {"Integer", "String", "Float", "Boolean"}, "the settings are not those the file has")
            if ok:
                E = [t for q in self.rounds(L) or () for t in q.facts if C.where(t) == path + ("*",)]
                for i, q in enumerate(self.rounds(L) or ()):
                    ins = [c for c in q.calls if any(c.blk == x.blk for x in cs)]
                    kd = [v[1] for t, v in q.facts.items() if t in E and isinstance(v, tuple) and v[0] == "v"]
                    cx.ob("fields", f + " setting #%d" % i, len(ins) == (1 if kd and kd[0] in kinds else 0), "a setting is left out")
        cx.ob("fields", f + " settings both", seen == {"absent", "there"}, "the settings do not come from the file")

    def mapping(self, f, w, path, default):
        cx, C, fl = self.cx, self.C, self.fl
        e = fl.proj({}, w, ("f", "summarize_error_bound"))
        self.field(f, "summarize_error_bound", e, path + ("summarize_error_bound",), "float", ("c", 0.01))
        mp = path + ("mapping",)
        seen = set()
        for k, v in C.alts(fl.proj({}, w, ("f", "histogram_masks"))):
            if v == ("fld", default, "histogram_masks") or k.get(mp) is False:
                seen.add("absent")
                cx.ob("fields", f + " mapping absent", k.get(mp) is not True and v == ("fld", default, "histogram_masks"), "the mapping is the default though the file has one")
                continue
            seen.add("there")
            L, cs = self.filled(v, mp)
            ok = L is not None and len(cs) == 1 and self.each(L, cs)
            if ok:
                d = dict(cs[0].args[-1][2]) if cs[0].args[-1][0] == "agg" else {}
                m = got(d.get("0", ("?",)), "Ok") if d.get("0", ("?",))[0] == "fld" else None
                ok = m is not None and call(m, "new") and "Regex" in m[1] and self.value(m[2][0], mp + ("*", "mask"), "str") and self.floats(d.get("1", ("?",)), mp + ("*", "bounds"))
                cx.ob("fields", f + " mapping pair", ok, "a mask does not go with its own bounds: %s" % fmt(cs[0].args[-1])[:200])
            cx.ob("fields", f + " mapping", L is not None and len(cs) == 1 and self.each(L, cs), "the masks are not those the file has")
        cx.ob("fields", f + " mapping both", seen == {"absent", "there"}, "the mapping does not come from the file")

    def floats(self, v, path):
        return self.list(v, path, "as_float")

    # ------------------------------------------------------------ tags
    def tagmap(self, f, w):
        self.n += 1
        ok = all(empty(v) for _, v in self.C.alts(w)) and any(k.get(("tags",)) for k, _ in self.C.alts(w)) and w == self.globals.setdefault("tags", w)
        self.cx.ob("fields", f + ".tags", ok, "the tags are not those configured for all")

    def tags(self):
        cx, C, fl = self.cx, self.C, self.fl
        w = self.globals.get("tags")
        if not cx.ob("tags", "map", w is not None, "the tags for all are not found"):
            return
        for i, (k, v) in enumerate(C.alts(w)):
            if not k.get(("tags",)):
                cx.ob("tags", "none #%d" % i, k.get(("tags",)) is False and not [c for c in fl.calls if c.args and c.args[0] == v and last(c) == "insert"], "tags are made up")
                continue
            L, cs = self.filled(v, ("tags",))
            if not cx.ob("tags", "all #%d" % i, L is not None and self.each(L, cs), "not every tag the file has is kept"):
                continue
            for c in cs:
                cx.ob("tags", "name #%d" % i, C.name(c.args[1]) == ("tags", "*"), "a tag goes by another name")
                vs = C.alts(c.args[2])
                kinds = set()
                for _, x in vs:
                    x = bare(x)
                    if self.value(x, ("tags", "*"), "str"):
                        kinds.add("text")
                    elif self.environment(x):
                        kinds.add("environment")
                    else:
                        kinds.add("? " + fmt(x)[:80])
                cx.ob("tags", "value #%d" % i, kinds == {"text", "environment"}, "a tag is worth something else: %s" % sorted(kinds))

    def environment(self, x):
        """the variable of the environment that the entry names"""
        for _ in range(4):
            y = got(x) if got(x) is not None else got(x, "Ok")
            if y is None:
                return False
            if call(y, "var_os", "var"):
                return self.value(y[2][0], ("tags", "*", "value"), "str")
            x = bare(y, COPY + ("into_string",))
        return False

    # ------------------------------------------------------------ the rest
    def interval(self):
        self.cx.ob("fields", "pulses", isinstance(self.fps, int) and self.fps > 0, "how many pulses there are in a second is not known")
        self.cx.floor("fields", self.n, 50)

    def file(self):
        """what is read is the file named, all of it"""
        cx = self.cx
        p = "config::parse_config"
        if not cx.ob("file", "code", p in cx.prog.bodies, "the reading of the file is not found"):
            return
        fl = cx.flow(p, opaque=("^config::parse_config_file$",))
        for i, q in enumerate([q for q in trace(fl) or () if q.ret is not None]):
            r = q.ret
            ok = call(r, "parse_config_file")
            x = bare(r[2][0], COPY + ("as_str",)) if ok else ("?",)
            op = [c for c in q.calls if last(c) == "open" and c.args[0] == ("arg", 1)]
            rd = [c for c in q.calls if last(c) == "read_to_string" and "Ok" in str(q.facts.get(c.dest))]
            ok = ok and len(rd) == 1 and (rd[0].args[-1] == x and len(op) == 1 and got(rd[0].args[0], "Ok") == op[0].dest or rd[0].args[0] == ("arg", 1) and got(x, "Ok") == rd[0].dest)
            cx.ob("file", "whole #%d" % i, ok, "what is read is not the file named")


def empty(v):
    return v[0] == "default" and ("HashMap" in v[1] or "Vec" in v[1]) or v[0] == "call" and last(v[1]) in ("new", "default", "with_capacity") and not [x for x in v[2] if x[0] != "c"]
