"""The programmable filter.  Every function a script can call is found through the table
handed to the interpreter and followed on every path.  The index conditions are evaluated
on a finite model of (index, number of events), which decides which paths an index takes
and which event they touch; what a path does to the payload and leaves on the script's
stack is compared with what the function is for.  Running a script is followed on every
path with the height of the interpreter's stack."""
from rules import *

ST = ("call", "mond::State::from_ptr", (("arg", 1),), None)
PY = ("call", "mond::State::to_userdata", (ST, ("c", 1)), None)
GT = ("fld", PY, "global_tags")
OPAQUE = (r"::get_from_tags$", r"::insert_tag$", r"::remove_tag$", r"::overlay_tags_from_map$", r"telemetry::", r"LogLine::new$")

# name -> collection, what it does.  read f: hand out field f; find: look the key up; swap: change
# by key (and value), handing out what was there; set f: replace a field
API = {
    "metric_name": ("metrics", "read", "name"),
    "log_value": ("logs", "read", "value"),
    "log_path": ("logs", "read", "path"),
    "set_metric_name": ("metrics", "set", "name"),
    "log_set_value": ("logs", "set", "value"),
    "log_tag_value": ("logs", "find", "get_from_tags"),
    "metric_tag_value": ("metrics", "find", "get_from_tags"),
    "log_field_value": ("logs", "find", "fields"),
    "metric_set_tag": ("metrics", "swap", "insert_tag"),
    "log_set_tag": ("logs", "swap", "insert_tag"),
    "log_set_field": ("logs", "swap", "fields"),
    "metric_remove_tag": ("metrics", "drop", "remove_tag"),
    "log_remove_tag": ("logs", "drop", "remove_tag"),
    "metric_query": ("metrics", "query", "query"),
    "push_metric": ("metrics", "push", None),
    "push_log": ("logs", "push", None),
    "clear_metrics": ("metrics", "clear", None),
    "clear_logs": ("logs", "clear", None),
}
MODEL = [(n, ln) for ln in (0, 1, 2, 3) for n in (-2**63, -2**63 + 1, -4, -3, -2, -1, 0, 1, 2, 3, 4, 2**63 - 1)]


def last(c):
    return (c if isinstance(c, str) else c.path).rsplit("::", 1)[-1]


def run(cx):
    mod = "filter::programmable_filter::"
    table = {}
    for k in cx.prog.bodies:
        if k.startswith(mod) and k.rsplit("::", 1)[-1].isupper():
            for q in trace(cx.flow(k)) or []:
                for e in (q.ret[1] if q.ret is not None and q.ret[0] == "arr" else ()):
                    if e[0] == "agg" and len(e[2]) == 2 and e[2][0][1][0] == "c":
                        f = e[2][1][1]
                        if f[0] == "agg" and f[1] == "Some":
                            table.setdefault(e[2][0][1][1], []).append(f[2][0][1][1])
    cx.floor("functions scripts can call", len(table), len(API))
    for name, (coll, kind, what) in sorted(API.items()):
        fs = table.get(name, [])
        if cx.ob("offered", name, len(fs) == 1, "scripts cannot call %s, or it is not clear what it is" % name):
            function(cx, name, fs[0], coll, kind, what)
    process(cx)
    runs(cx, mod)


def arg(n, how):
    return ("call", "mond::State::" + how, (ST, ("c", n)), None)


def strings(n):
    """what a script gave as n-th argument, as a string"""
    a = arg(n, "to_str")
    return [("fld", ("var", a, "Some"), "0"), arg(n, "check_string")]


def string(t, n):
    return t in strings(n) or t[:3] == arg(n, "check_string")[:3]


def unbox(t):
    while t[0] == "call" and last(t[1]) in ("new", "into", "from", "to_owned", "clone") and len(t[2]) == 1 and "Box" in t[1]:
        t = t[2][0]
    return t


def function(cx, name, f, coll, kind, what):
    fl = cx.flow(f, opaque=OPAQUE)
    qs = trace(fl)
    if not cx.ob("followed", name, bool(qs) and all(q.end in fl.ret_blocks for q in qs), "the paths of the function could not be followed"):
        return
    C = ("fld", PY, coll)
    n = 0
    for q in qs:
        pushes = [c for c in q.calls if c.path.startswith("mond::State::push_") or last(c) == "new_table"]
        takes = [c for c in q.calls if c.path.startswith("mond::State::") and last(c) in ("pop", "set_top", "remove", "insert", "replace", "pcall", "set_field", "set_global")]
        cx.ob("stack", name, q.ret == ("c", len(pushes)) and not takes, "the number of values the function says it hands out is not the number it leaves on the stack")
    if kind in ("push", "clear"):
        return collection(cx, name, qs, C, kind, coll)
    for num, ln in MODEL:
        place = num + ln if num < 0 else num - 1
        want = place if 0 <= place < ln else None
        idx = arg(2, "to_integer")
        env = lambda t: num if t == idx else ln if t[0] == "call" and last(t[1]) == "len" and t[2] == (C,) else None
        hit = 0
        bad = ""
        for q in qs:
            try:
                r = possible(q, env)
            except Overflow:
                bad = "the arithmetic on the index overflows"
                continue
            if not r:
                continue
            hit += 1
            try:
                bad = bad or effect(cx, name, fl, q, C, kind, what, want, env)
            except Overflow:
                bad = bad or "the arithmetic on the index overflows"
        n += 1
        cx.ob("place", "%s(%d) of %d" % (name, num, ln), hit and not bad, bad or "no path takes this index")
    cx.ob("floor", name, n >= 40, "too few points of the model")
    cx.counts["points of the model"] = cx.counts.get("points of the model", 0) + n


def possible(q, env):
    """can the path be taken; conditions that are not about the index may go either way"""
    for t, v in q.facts.items():
        if t[0] == "not" or v[0] != "c":
            continue
        try:
            x = evalt(t, env)
        except Unknown:
            continue
        if bool(x) != bool(v[1]) if isinstance(v[1], bool) else x != v[1]:
            return False
    # get/get_mut on the collection finds something exactly where there is something
    for t, v in q.facts.items():
        if t[0] == "call" and last(t[1]) in ("get", "get_mut") and len(t[2]) == 2 and t[2][0][0] == "fld" and t[2][0][1] == PY and v[0] == "v":
            try:
                i = evalt(t[2][1], env)
            except Unknown:
                continue
            n = env(("call", "len", (t[2][0],), None))
            if n is not None and (0 <= i < n) != (v[1] == "Some"):
                return False
    return True


def effect(cx, name, fl, q, C, kind, what, want, env):
    """what is wrong with a path, for an index that means the place `want`"""
    els = {}
    for c in q.calls:
        if c.args and last(c) in ("index", "index_mut", "get", "get_mut", "get_unchecked", "get_unchecked_mut") and c.args[0][0] == "fld" and c.args[0][1] == PY and c.args[0][2] in ("metrics", "logs"):
            if c.args[0] != C:
                return "an event of the wrong kind is looked at"
            try:
                i = evalt(c.args[1], env, "usize")
            except Unknown:
                return "the place is not made from the index"
            if last(c).startswith("get"):
                if q.facts.get(c.dest) != ("v", "Some"):
                    continue
                els[("fld", ("var", c.dest, "Some"), "0")] = i
            else:
                els[c.dest] = i
    if want is None:
        touched = [w for w in q.writes if has(w.root, PY)] + [c for c in q.calls if last(c) in ("insert_tag", "remove_tag", "insert", "remove", "push", "clear")]
        if els or touched:
            return "an index that means no event reaches one"
        if any(c.path.startswith("mond::State::push_") and last(c) != "push_nil" for c in q.calls):
            return "an index that means no event gives something"
        return ""
    if any(i != want for i in els.values()):
        return "the wrong event is touched"
    outs = [c for c in q.calls if c.path.startswith("mond::State::push_")]
    wr = [w for w in q.writes if has(w.root, PY)]
    muts = [c for c in q.calls if any(has(a, PY) for a in c.args) and last(c) in ("insert_tag", "remove_tag", "insert", "remove", "push", "clear", "swap", "swap_remove", "truncate", "pop", "drain", "extend", "append", "retain", "entry")]
    key = q.facts.get(arg(3, "to_str"))
    val = q.facts.get(arg(4, "to_str"))
    checked = any(last(c) == "check_string" for c in q.calls)
    fields = lambda f: [("fld", e, f) for e in els]
    if kind in ("find", "swap", "drop", "set") and key == ("v", "None") and not checked or kind == "swap" and val == ("v", "None"):
        if wr or muts:
            return "something is changed though an argument is missing"
        return "" if all(last(c) == "push_nil" for c in outs) else "something is handed out though an argument is missing"
    if kind == "read":
        if wr or muts:
            return "reading changes something"
        return "" if len(outs) == 1 and last(outs[0]) == "push_string" and outs[0].args[1] in fields(what) else "the event's %s is not what is handed out" % what
    if kind == "set":
        if muts or len(wr) != 1 or not field_write(wr[0], els, what) or not string(wr[0].val, 3):
            return "the event's %s does not become what the script gave" % what
        return "" if all(last(c) == "push_nil" for c in outs) else "something else is handed out"
    if kind == "query":
        qc = [c for c in q.calls if last(c) == "query" and c.args[0] in els]
        if wr or muts or len(qc) != 1 or qc[0].args[1] != arg(3, "to_number"):
            return "the metric is not asked for the quantile the script gave"
        return handed(q, outs, qc[0].dest, "push_number")
    if kind == "find":
        if what == "fields":
            fc = [c for c in q.calls if last(c) == "get" and c.args[0] in fields("fields") and string(c.args[1], 3)]
        else:
            fc = [c for c in q.calls if last(c) == what and c.args[0] in els and string(c.args[1], 3) and c.args[2] == GT]
        if wr or muts or len(fc) != 1:
            return "the key the script gave is not looked up"
        return handed(q, outs, fc[0].dest, "push_string")
    want_args = strings(3) if kind == "drop" else None
    if what == "fields":
        mc = [c for c in muts if last(c) == "insert" and c.args[0] in fields("fields")]
    else:
        mc = [c for c in muts if last(c) == what and c.args[0] in els]
    if wr or len(muts) != 1 or len(mc) != 1 or not string(mc[0].args[1], 3) or kind == "swap" and not string(mc[0].args[2], 4):
        return "the key and value the script gave are not what is changed"
    return handed(q, outs, mc[0].dest, "push_string")


def field_write(w, els, what):
    if w.root in els:
        return w.proj == (("f", what),)
    return w.root in [("fld", e, what) for e in els] and not w.proj


def handed(q, outs, res, how):
    """the contents of an optional result, or nil"""
    v = q.facts.get(res)
    if len(outs) != 1:
        return "not one value is handed out"
    if v == ("v", "Some"):
        return "" if last(outs[0]) == how and outs[0].args[1] == ("fld", ("var", res, "Some"), "0") else "what was found is not handed out"
    if v == ("v", "None"):
        return "" if last(outs[0]) == "push_nil" else "something is handed out where there is nothing"
    return "what is handed out does not depend on there being something"


def has(t, x):
    return t == x or isinstance(t, tuple) and any(has(y, x) for y in t if isinstance(y, tuple))


def collection(cx, name, qs, C, kind, coll):
    for i, q in enumerate(qs):
        mut = [c for c in q.calls if c.args and c.args[0] in (PY, ("fld", PY, "metrics"), ("fld", PY, "logs"), GT) and last(c) not in ("len", "is_empty", "deref", "reserve", "clone", "iter")]
        wr = [w for w in q.writes if has(w.root, PY)]
        if kind == "clear":
            cx.ob("clear", name, len(mut) == 1 and last(mut[0]) in ("clear",) and mut[0].args[0] == C and not wr, "the function does not leave the script without %s" % coll)
            continue
        v = q.facts.get(arg(2, "to_str"))
        if v == ("v", "None"):
            cx.ob("push", name + " nothing", not mut and not wr, "something is added though nothing was given")
            continue
        good = len(mut) == 1 and last(mut[0]) == "push" and mut[0].args[0] == C and not wr
        t = unbox(mut[0].args[1]) if good else None
        if good and t[0] == "call" and last(t[1]) == "overlay_tags_from_map" and t[2][1] == GT:
            t = t[2][0]
        else:
            good = False
        if good and coll == "logs":
            good = t[0] == "call" and t[1].endswith("LogLine::new") and t[2] [0] == ("fld", PY, "path") and string(t[2][1], 2)
        elif good:
            good = t[0] == "fld" and t[1][0] == "var" and t[1][2] == "Ok" and t[1][1][0] == "call" and last(t[1][1][1]) == "harden"
            sets = {}
            t = t[1][1][2][0] if good else t
            while good and t[0] == "call" and len(t[2]) == 2:
                sets[last(t[1])] = t[2][1]
                t = t[2][0]
            good = good and sorted(sets) == ["name", "value"] and string(sets["name"], 2) and sets["value"] == arg(3, "to_number")
        cx.ob("push", name, good, "what is added is not made from what the script gave and the filter's tags")


def process(cx):
    p = cx.method("filter::Filter", r"ProgrammableFilter$", "process")
    runs_ = [k for k, b in cx.prog.bodies.items() if k.startswith("filter::programmable_filter::") and "closure" not in k and any(calls_pcall(cx, k) for _ in (0,))]
    runs_ = [k for k in runs_ if not k.endswith("ProgrammableFilter::new")]
    if not cx.ob("run", "function", len(runs_) == 1, "there is not one function running scripts: %s" % runs_):
        return
    fl = cx.flow(p, opaque=(re.escape(runs_[0]) + "$",))
    qs = trace(fl)
    if not cx.ob("followed", "process", bool(qs), "the paths of the filter could not be followed"):
        return
    A, E, R = ("arg", 1), ("arg", 2), ("arg", 3)
    IDX, LAST = ("fld", ("var", E, "TimerFlush"), "0"), ("fld", A, "last_flush_idx")
    seen = set()
    for i, q in enumerate(qs):
        if q.end not in fl.ret_blocks:
            cx.ob("process", "#%d" % i, False, "the filter does not return")
            continue
        k = q.facts.get(E, ("v", None))[1]
        call = [c for c in q.calls if c.path == runs_[0]]
        push = [c.args[1] for c in q.calls if R in c.args and last(c) == "push"]
        alien = [c for c in q.calls if R in c.args and last(c) not in ("push", "len", "is_empty", "reserve") and c not in call]
        cx.ob("process", "output #%d" % i, not alien, "what was produced before is touched")
        seen.add(k)
        if k in ("Telemetry", "Log"):
            ev = ("fld", ("var", E, k), "0")
            fn, coll = ("process_metric", "metrics") if k == "Telemetry" else ("process_log", "logs")
            ok = len(call) == 1 and not push and q.ret == call[0].dest
            cx.ob("process", k, ok and call[0].args[1] == ("c", fn) and R in call[0].args and ("fld", A, "state") in call[0].args, "an event is not handed to the script's %s, or what that gives is not the result" % fn)
            if ok:
                cx.ob("process", k + " payload", payload(fl, q, call[0], {coll: ev}, A), "the script is not given the event, alone, with the filter's tags and path")
        elif k == "TimerFlush":
            fresh = flush_is_new(q, IDX, LAST)
            if fresh is None:
                cx.ob("process", "TimerFlush", False, "whether a flush was seen before is not decided by its index and the last one's")
                continue
            w = [w for w in q.writes if has(w.root, LAST) or w.root == A and w.proj[:1] == (("f", "last_flush_idx"),)]
            if not fresh:
                seen.add("again")
                cx.ob("process", "flush seen", not call and not push and not w and q.ret[0] == "agg" and q.ret[1] == "Ok", "a flush that was seen before is not simply dropped")
                continue
            seen.add("new")
            ok = len(call) == 1 and call[0].args[1] == ("c", "tick") and R in call[0].args
            if not cx.ob("process", "tick", ok, "a new flush does not run the script's tick once"):
                continue
            cx.ob("process", "tick payload", payload(fl, q, call[0], {}, A), "tick does not start with nothing but the filter's tags and path")
            after = [c.blk for c in q.calls if R in c.args and last(c) == "push"]
            order = [c for c in q.calls if c is call[0] or R in c.args and last(c) == "push"]
            cx.ob("process", "flush passed on", len(push) == 1 and push[0] in (E, ("agg", "TimerFlush", (("0", IDX),))) and order[0] is call[0], "a flush is not passed on exactly once, after what tick made")
            cx.ob("process", "tick result", same_result(q, call[0].dest), "the result of tick is lost")
            r = q.facts.get(call[0].dest)
            is_ok = [t for t, f in q.facts.items() if t[0] == "call" and last(t[1]) == "is_ok" and t[2] == (call[0].dest,) and f == ("c", True)]
            done = r == ("v", "Ok") or bool(is_ok)
            cx.ob("process", "flush remembered %s" % done, (len(w) == 1 and w[0].val == IDX) if done else all(x.val == IDX for x in w), "the flush is not remembered, or as another one")
        else:
            k = k or "any other"
            cx.ob("process", k, not call and len(push) == 1 and (push[0] == E or k == "Shutdown" and push[0] == ("agg", "Shutdown", ()) or push[0][:2] == ("agg", k) and all(v == ("fld", ("var", E, k), n) for n, v in push[0][2])) and q.ret[0] == "agg" and q.ret[1] == "Ok", "an event scripts do not deal with is not passed on exactly once, as it is")
    cx.ob("process", "cases", {"Telemetry", "Log", "TimerFlush", "again", "new"} <= seen, "of the kinds of events some have no case: %s" % sorted(str(s) for s in seen))


def same_result(q, res):
    return q.ret == res or q.ret is not None and q.facts.get(res) == ("v", q.ret[1]) and (q.ret[1] == "Ok" or q.ret[2][0][1] == ("fld", ("var", res, "Err"), "0"))


def flush_is_new(q, idx, lst):
    """True: index above the last one's on this path; False: not; None: not decided"""
    res = set()
    for a in (0, 1, 2, 5, 2**64 - 1):
        for b in (0, 1, 2, 5, 2**64 - 1):
            env = lambda t: a if t == idx else b if t == lst else None
            ok = True
            for t, v in q.facts.items():
                if t[0] == "not" or v[0] != "c":
                    continue
                try:
                    x = evalt(t, env, "u64")
                except (Unknown, Overflow):
                    continue
                if bool(x) != bool(v[1]):
                    ok = False
            if ok:
                res.add(a > b)
    return res.pop() if len(res) == 1 else None


def payload(fl, q, call, holds, A):
    """the payload handed over holds exactly these events"""
    for a in call.args:
        g = lambda n: fl.proj(q.state, a, ("f", n))
        if a in (("arg", 1), ("arg", 3)) or a[0] == "c" or a == ("fld", A, "state"):
            continue
        ok = g("global_tags") == ("fld", A, "global_tags") and g("path") == ("fld", A, "path")
        for n in ("metrics", "logs"):
            v = g(n)
            ok = ok and (vec_of(q, v, holds[n]) if n in holds else empty(v))
        if ok:
            return True
    return False


def empty(v):
    return v[0] == "default" or v[0] == "arr" and not v[1] or v[0] == "call" and last(v[1]) in ("new", "with_capacity", "default")


def vec_of(q, v, x):
    if v[0] == "arr":
        return len(v[1]) == 1 and unbox(v[1][0]) == x
    ws = [w.val for w in q.writes if w.root == v and not w.proj]
    ps = [c.args[1] for c in q.calls if c.args and c.args[0] == v and last(c) == "push"]
    if len(ws) == 1 and not ps:
        return ws[0][0] == "arr" and len(ws[0][1]) == 1 and unbox(ws[0][1][0]) == x
    return not ws and len(ps) == 1 and unbox(ps[0]) == x and empty(v)


def calls_pcall(cx, k):
    return any(c.endswith("State::pcall") for c in cx.prog.callees(k))


def runs(cx, mod):
    ks = [k for k in cx.prog.bodies if k.startswith(mod) and "closure" not in k and calls_pcall(cx, k) and not k.endswith("ProgrammableFilter::new")]
    if len(ks) != 1:
        return
    fl = cx.flow(ks[0], opaque=(r"metric::",))
    b = cx.prog.bodies[ks[0]]
    S = next((("arg", i) for i in range(1, b.nargs + 1) if "mond::State" in b.locals[i]), None)
    N = next((("arg", i) for i in range(1, b.nargs + 1) if b.locals[i].endswith("str")), None)
    R = next((("arg", i) for i in range(1, b.nargs + 1) if "Vec<metric::event::Event>" in b.locals[i]), None)
    Y = next((("arg", i) for i in range(1, b.nargs + 1) if "Payload" in b.locals[i]), None)
    if not cx.ob("run", "arguments", None not in (S, N, R, Y), "running a script does not take the interpreter, a function, the output and the payload"):
        return
    ls = loops(fl)
    stops = [x for l in ls for x in l.next]
    qs = trace(fl, None, stops)
    if not cx.ob("followed", "run", bool(qs), "the paths of running a script could not be followed"):
        return
    logs, mets = [[l for l in ls if l.over(("fld", Y, n))] for n in ("logs", "metrics")]
    outs = set()
    for i, q in enumerate(qs):
        pc = [c for c in q.calls if last(c) == "pcall"]
        fnf = [f for t, f in q.facts.items() if t[0] == "call" and last(t[1]) == "is_fn"]
        res = q.facts.get(pc[0].dest) if pc else None
        success = res == ("v", "Ok")
        touched = [c for c in q.calls if R in c.args and last(c) not in ("len", "is_empty", "reserve")]
        ended = q.end in fl.ret_blocks
        if pc:
            g = [c for c in q.calls if last(c) == "get_global"]
            u = [c for c in q.calls if last(c) == "push_light_userdata"]
            cx.ob("run", "call #%d" % i, len(pc) == 1 and len(g) == 1 and g[0].args[1] == N and len(u) == 1 and u[0].args[1] == Y and pc[0].args[1] == ("c", 1), "the function asked for is not called once with the payload")
            cx.ob("run", "function #%d" % i, fnf == [("c", True)], "what is called may not be a function")
        if success or ended:
            h = height(q)
            cx.ob("stack", "run #%d" % i, h == 0, "the interpreter's stack is not left as it was found: %s" % h)
        if success:
            outs.add("success")
            cx.ob("run", "result so far #%d" % i, not [c for c in touched if last(c) not in ("extend",)], "something else than the payload's contents is put out")
        elif ended:
            outs.add("no function" if not pc else "failed")
            cx.ob("run", "failure #%d" % i, not touched and q.ret is not None and q.ret[0] == "agg" and q.ret[1] == "Err", "a script that fails puts something out, or is not reported")
            want = "LuaError" if pc else "NoSuchFunction"
            e = q.ret[2][0][1] if q.ret is not None and q.ret[0] == "agg" and q.ret[2] else ("undef",)
            cx.ob("run", "kind of failure #%d" % i, e[:2] == ("agg", want) and e[2][1][1][:2] == ("agg", "Telemetry"), "the failure is not reported as what it is, with a metric counting it")
        else:
            cx.ob("run", "path #%d" % i, False, "a path that neither succeeded nor failed goes on")
    cx.ob("run", "outcomes", outs == {"success", "no function", "failed"}, "the outcomes are %s" % sorted(outs))
    ran = [s for _, s in edge_pairs(fl, lambda t, v: v == ("v", "Ok") and t[0] == "call" and last(t[1]) == "pcall")]
    for n, l, kind in (("logs", logs, "Log"), ("metrics", mets, "Telemetry")):
        X = ("fld", Y, n)
        ext = [c for c in fl.calls if last(c) == "extend" and c.args[0] == R and c.args[1][0] == "iterop" and c.args[1][1] == "map" and whole(fl, c.args[1][2], X)]
        if not cx.ob("run", n, len(ext) == 1 and not l or not ext and len(l) == 1 and l[0].complete(), "not all %s a script leaves are put out" % n):
            continue
        if ext:
            cx.ob("run", n + " put out", made(ext[0].args[1][3], kind, fl.elem(ext[0].args[1][2])), "each of the %s a script leaves is not put out exactly once" % n)
        for q in l[0].body(stops) if l else ():
            pu = [c for c in q.calls if R in c.args]
            ev = pu[0].args[1] if len(pu) == 1 and last(pu[0]) == "push" else ("undef",)
            cx.ob("run", n + " put out", made(ev, kind, l[0].elem), "each of the %s a script leaves is not put out exactly once" % n)
        end = [ext[0].blk] if ext else [s for _, s in l[0].done]
        cx.ob("run", "everything", bool(ran) and not must_reach(fl, ran, end, fl.ret_blocks), "a script that succeeded can end without all %s it left put out" % n)


def made(ev, kind, x):
    x = unbox(x)
    if ev[0] == "agg" and ev[1] == kind:
        return unbox(ev[2][0][1]) == x
    want = {"Log": "new_log", "Telemetry": "new_telemetry"}[kind]
    return ev[0] == "call" and last(ev[1]) == want and unbox(ev[2][0]) == x


def height(q):
    """how much higher the stack is at the end of a path; None if that cannot be told"""
    h = 0
    for c in q.calls:
        if not c.path.startswith("mond::State::"):
            continue
        n = last(c)
        if n.startswith("push_") or n in ("get_global", "get_metatable_from_registry", "new_table", "push"):
            h += 1
        elif n in ("set_metatable", "set_global"):
            h -= 1
        elif n == "pop":
            h -= c.args[1][1] if c.args[1][0] == "c" else 10**6
        elif n == "pcall":
            good = q.facts.get(c.dest) == ("v", "Ok")
            h -= c.args[1][1] + 1
            h += c.args[2][1] if good else 1
        elif n == "set_top":
            t = c.args[1]
            tops = [x.dest for x in q.calls[:next((i for i, y in enumerate(q.calls) if y.path.startswith("mond::State::") and (last(y).startswith("push") or last(y) == "get_global")), 0)] if last(x) == "get_top"]
            if t not in tops:
                return None
            h = 0
        elif n in ("get_top", "is_fn", "is_nil", "to_str", "type_of", "is_string", "is_table"):
            pass
        elif n in ("get_field", "get_metatable"):
            return None
    return h
