"""The delay filter's window.  Every path of the filter is taken with its branch
conditions as terms over the event's time, the current time and the tolerance; the
conditions are evaluated on a finite model that distinguishes all orderings of the
difference and the tolerance (and the ends of the integer range), which decides for
every input which path is taken, and that path's effect is compared with the window."""
from rules import *

MIN, MAX = RANGE["i64"]


def run(cx):
    p = cx.method("filter::Filter", r"DelayFilter$", "process")
    fl = cx.flow(p)
    E, R = ("arg", 2), ("arg", 3)
    qs = trace(fl)
    if not cx.ob("followed", "process", bool(qs), "the paths of the filter could not be followed"):
        return
    tol = ("fld", ("arg", 1), "tolerance")
    clock = [c.dest for c in fl.calls if is_now(c.dest)]
    n = 0
    kinds = {"Telemetry": "timestamp", "Log": "time"}
    for k, fld in kinds.items():
        body = ("fld", ("var", E, k), "0")
        ts = ("fld", body, fld)
        mine = [q for q in qs if allowed(q, E, k)]
        cx.floor("paths for " + k, len(mine), 2)
        for name, env, want in points():
            f = lambda t, env=env: env["ts"] if t == ts else env["tol"] if t == tol else env["now"] if is_now(t) else None
            hit = []
            why = ""
            for q in mine:
                try:
                    r = feasible(q, f)
                except Overflow:
                    r, why = "overflow", "the arithmetic overflows"
                if r is None:
                    why = "a condition is not about the time and the tolerance"
                if r is not False:
                    hit.append((q, r))
            ok = bool(hit) and all(r is True for _, r in hit)
            for q, _ in hit:
                ok = ok and kept(q, R, E, k, body) == (1 if want else 0) and q.ret is not None and q.ret[0] == "agg" and q.ret[1] == "Ok"
            n += 1
            cx.ob("window", "%s, %s" % (k, name), ok, why or "an event %s the tolerance is %s" % ("within" if want else "outside", "not passed on exactly once" if want else "passed on"))
    other = [q for q in qs if not any(q.facts.get(E) == ("v", k) for k in kinds)]
    cx.ob("others", "paths", bool(other), "nothing but telemetry and log lines is handled")
    for i, q in enumerate(other):
        cx.ob("others", "#%d" % i, pushes(q, R) == [E] and q.ret[0] == "agg" and q.ret[1] == "Ok", "an event without a time is not passed on exactly once")
    alien = [c for q in qs for c in q.calls if R in c.args and last(c) not in ("push", "len", "reserve", "is_empty")]
    cx.ob("output", "process", not alien, "what was produced before is touched: %s" % sorted({last(c) for c in alien}))
    cx.floor("points of the model", n, 40)


def last(c):
    return c.path.rsplit("::", 1)[-1]


def allowed(q, E, k):
    return q.facts.get(E) == ("v", k) or E not in q.facts and k not in q.facts.get(("not", E), ())


def pushes(q, R):
    return [c.args[1] for c in q.calls if last(c) == "push" and c.args[0] == R]


def kept(q, R, E, k, body):
    out = pushes(q, R)
    return len(out) if all(x in (E, ("agg", k, (("0", body),))) for x in out) else -1


def points():
    for now in (1500000000,):
        for tol in (0, 1, 2, 60, 2 * now, MAX - 1):
            for d in sorted(d for d in {-tol - 2, -tol - 1, -tol, -tol + 1, -1, 0, 1, tol - 1, tol, tol + 1, tol + 2} if MIN <= now + d <= MAX):
                yield "time off by %d, tolerance %d" % (d, tol), dict(ts=now + d, now=now, tol=tol), abs(d) <= tol
            for ts in (MIN, MIN + 1, 0, MAX - 1, MAX):
                yield "time %d, tolerance %d" % (ts, tol), dict(ts=ts, now=now, tol=tol), abs(ts - now) <= tol
