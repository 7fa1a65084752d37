#!/usr/bin/env python3
"""auto.py OUT FILE[:N]...   Automatic mutation (development aid, not a registered check).

Makes small edits of the given source files (operators, constants, dropped statements),
runs the checks whose properties name the file (and the crate-wide ones) on each, and
writes the edits that compile and that no check notices to OUT for review.
"""
import concurrent.futures, json, os, random, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
OPS = [(r"==", ["!="]), (r"!=", ["=="]), (r"(?<![-=<])<=", ["<"]), (r"(?<![-=<>])>=", [">"]),
       (r" < ", [" <= ", " > "]), (r" > ", [" >= ", " < "]), (r"&&", ["||"]), (r"\|\|(?! *\{)", ["&&"]),
       (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]), (r"\+=", ["-="]), (r"-=", ["+="]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bcontinue\b", ["break"]), (r"\bbreak\b", ["continue"]),
       (r"(?<=[ (])!(?=[a-z(])", [""]), (r"\bis_some\b", ["is_none"]), (r"\bis_none\b", ["is_some"]), (r"\bis_ok\b", ["is_err"]),
       (r"\bis_empty\(\)", ["is_empty() == false"]), (r"\bmin\b(?=\()", ["max"]), (r"\bmax\b(?=\()", ["min"]),
       (r"(?<![\w.\"])(\d+)(?![\w.\"])", ["+1"]), (r"\bpush_back\b", ["push_front"]), (r"\.rev\(\)", [""]),
       (r"\bif (?!let)", ["if true || ", "if false && "]), (r"Some\(([a-z_]+)\)(?=[,;)]| *$)", ["None"]),
       (r"\.abs\(\)", [""]), (r"\bOk\b(?=\()", []), (r"\.iter\(\)", [".iter().skip(1)"]), (r"\.drain\(\.\.\)", [".drain(1..)"]),
       (r"\binsert\((?=0,)", []), (r"as_secs", ["as_millis"]), (r"\bfetch_add\b", ["fetch_sub"])]


def sites(path):
    s = open("/repo/" + path).read()
    m = re.search(r"#\[cfg\(test\)\]\s*mod ", s)
    end = m.start() if m else len(s)
    pos = 0
    skipmac = 0
    for ln, line in enumerate(s[:end].split("\n"), 1):
        st = line.strip()
        o = pos
        pos += len(line) + 1
        if skipmac:
            skipmac += st.count("(") - st.count(")")
            continue
        if re.match(r"(trace|debug|info|warn|error)!\(", st):
            skipmac = max(0, st.count("(") - st.count(")"))
            continue
        if not st or st.startswith(("//", "#", "use ", "mod ", "pub mod", "extern", "static ", "*", "pub static", "pub type", "impl", "fn ", "pub fn ")):
            continue
        code = line.split("//")[0]
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + "~" * (len(m.group()) - 2) + '"', code)
        for pat, news in OPS:
            for m in re.finditer(pat, code):
                for n in news:
                    new = n
                    if n == "+1":
                        new = str(int(m.group(1)) + 1)
                    if n == "None" and "if let" in code or n == "None" and "=>" in code and code.find("=>") > m.start():
                        continue
                    yield (path, o + m.start(), m.group(), new, "%d: %s  [%s -> %s]" % (ln, st[:90], m.group().strip(), new.strip()))
        if st.endswith(";") and not re.match(r"(let|return|\}|\)|const|break|continue|assert|debug_assert)", st) and st.count("(") == st.count(")") and st.count("{") == st.count("}") and re.match(r"[\w(*&.:<>!\[\]]+", st) and not st.startswith("."):
            yield (path, o + line.find(st), st, "", "%d: %s  [dropped]" % (ln, st[:100]))


def checks_for(path):
    out = []
    for l in open(V + "/properties.jsonl"):
        d = json.loads(l)
        if not os.path.exists(V + "/checks/%s.py" % d["id"].lower()):
            continue
        if path in json.dumps(d):
            out.append(d["id"])
    if "C24" not in out and "config" not in path:
        out.append("C24")
    return out


def one(m):
    path, pos, old, new, desc = m
    d = tempfile.mkdtemp(prefix="cernan-auto.")
    try:
        r = os.path.join(d, "repo")
        subprocess.run("git -C /repo archive HEAD | (mkdir %s && tar x -C %s)" % (r, r), shell=True, check=True)
        p = os.path.join(r, path)
        s = open(p).read()
        assert s[pos:pos + len(old)] == old, (s[pos:pos + 30], old)
        open(p, "w").write(s[:pos] + new + s[pos + len(old):])
        e = dict(os.environ, CERNAN_REPO=r, PYTHONDONTWRITEBYTECODE="1", EVIDENCE_DIR=os.path.join(d, "ev"))
        e.pop("SA_FACTS", None)
        q = subprocess.run([sys.executable, os.path.join(V, "check.py")] + checks_for(path), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if "does not compile" in q.stdout or "extract" in q.stdout:
            return m, "nocompile", ""
        if "could not be completed" in q.stdout:
            return m, "UNDONE", q.stdout[-700:]
        if q.returncode == 1:
            return m, "caught", ""
        return m, "SURVIVED" if q.returncode == 0 else "CRASH", "" if q.returncode == 0 else q.stdout[-700:]
    except subprocess.TimeoutExpired:
        return m, "TIMEOUT", ""
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    out = open(sys.argv[1], "w")
    ms = []
    rnd = random.Random(int(os.environ.get("SEED", "7")))
    for a in sys.argv[2:]:
        f, _, n = a.partition(":")
        l = list(sites(f))
        if n and len(l) > int(n):
            l = sorted(rnd.sample(l, int(n)), key=lambda m: m[1])
        ms += l
    cnt = {}
    print(len(ms), "edits", flush=True)
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("J", "7"))) as ex:
        for m, res, o in ex.map(one, ms):
            cnt[res] = cnt.get(res, 0) + 1
            if res not in ("caught", "nocompile"):
                out.write("%s %s:%s\n" % (res, m[0], m[4]))
                if o:
                    out.write("     " + o.replace("\n", "\n     ") + "\n")
                out.flush()
    out.write(str(cnt) + "\n")
    print(cnt)


if __name__ == "__main__":
    main()
