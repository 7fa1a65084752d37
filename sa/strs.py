"""Slices of strings in normal form: what a slice is of, and from where to where, positions
being sums of constants and of where a character was found."""
import re

END = ("end",)


def P(c, *atoms):
    return ("p", c, tuple(sorted(atoms, key=repr)))


ZERO = P(0)


def base(t):
    return (t[1], t[2], t[3]) if t[0] == "str" else (t, ZERO, END)


def add(a, b):
    return reduce(P(a[1] + b[1], *(a[2] + b[2])))


def lin(t):
    """a number as a position, or None"""
    if t[0] == "p":
        return t
    if t[0] == "c" and isinstance(t[1], int) and not isinstance(t[1], bool):
        return P(t[1])
    if t[0] == "bin" and t[1] == "Add":
        a, b = lin(t[2]), lin(t[3])
        return a and b and add(a, b)
    if t[0] == "bin" and t[1] == "Sub":
        a, b = lin(t[2]), lin(t[3])
        if a is None or b is None:
            return None
        rest = list(a[2])
        for x in b[2]:
            if x not in rest:
                return None
            rest.remove(x)
        return P(a[1] - b[1], *rest)
    if t[0] == "call" and t[1].rsplit("::", 1)[-1] in ("len", "len_utf8") and t[2][0][0] == "c":
        return P(len(t[2][0][1]))
    if t[0] in ("undef", "top"):
        return None
    return reduce(P(0, t))


def reduce(p):
    """where something was found in a slice, and where the slice begins, make a place in the whole"""
    c, atoms = p[1], list(p[2])
    again = True
    while again:
        again = False
        for x in atoms:
            if x[0] == "fld" and x[1][0] == "var" and x[1][2] == "Some" and x[1][1][0] == "find":
                _, S, ch, a, b = x[1][1]
                rest = [y for y in atoms]
                rest.remove(x)
                try:
                    for y in a[2]:
                        rest.remove(y)
                except ValueError:
                    continue
                c, atoms, again = c - a[1], rest + [("found", ch, a, b)], True
                break
    return P(c, *atoms)


def cut(s, rng):
    S, a, b = base(s)
    st = en = None
    if rng[0] == "agg":
        d = dict(rng[2])
        st, en = d.get("start"), d.get("end")
        inc = False
    elif rng[0] == "call" and rng[1].rsplit("::", 1)[-1] == "new" and "RangeInclusive" in rng[1]:
        st, en, inc = rng[2][0], rng[2][1], True
    else:
        return None
    x = ZERO if st is None else lin(st)
    if x is None:
        return None
    na = add(a, x)
    if en is None:
        nb = b
    else:
        y = lin(en)
        if y is None:
            return None
        nb = add(add(a, y), P(1 if inc else 0))
    return ("str", S, na, nb)


def m_index(fl, st, path, raw, vals, blk):
    return cut(vals[0], vals[1])


def m_find(fl, st, path, raw, vals, blk):
    if vals[1][0] != "c":
        return None
    S, a, b = base(vals[0])
    return ("find", S, vals[1], a, b)


def m_split_at(fl, st, path, raw, vals, blk):
    S, a, b = base(vals[0])
    x = lin(vals[1])
    if x is None:
        return None
    m = add(a, x)
    return ("agg", None, (("0", ("str", S, a, m)), ("1", ("str", S, m, b))))


def m_num(fl, st, path, raw, vals, blk):
    return ("call", "parse_" + re.search(r"FromStr for (\w+)>", path).group(1), (vals[0],), None)


def m_parse(fl, st, path, raw, vals, blk):
    return ("call", "parse_?", (vals[0],), None)


def m_same(fl, st, path, raw, vals, blk):
    S, a, b = base(vals[0])
    if vals[0][0] != "str":
        return None
    return vals[0]


MODELS = {
    r"Index<.*> for str>::index$": m_index,
    r"<impl str>::find$": m_find,
    r"<impl str>::split_at$": m_split_at,
    r"FromStr for [fiu]\d+>::from_str$": m_num,
    r"FromStr for [fiu]size>::from_str$": m_num,
}


# -- points being built ----------------------------------------------------------
def m_thaw(fl, st, path, raw, vals, blk):
    return ("soft", vals[0], ())


def m_set(fl, st, path, raw, vals, blk):
    if vals[0][0] != "soft":
        return None
    n = path.rsplit("::", 1)[-1]
    d = dict(vals[0][2])
    if n in ("clear_error", "clear_bounds"):
        d.pop(n[6:], None)
    elif n == "harden":
        return ("call", "harden", (vals[0],), None)
    elif len(vals) == 2:
        d[n] = vals[1]
    else:
        return None
    return ("soft", vals[0][1], tuple(sorted(d.items())))


SOFT = {r"Telemetry::thaw$": m_thaw, r"SoftTelemetry::\w+$": m_set}
