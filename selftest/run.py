#!/usr/bin/env python3
"""Self-test of the analyses (development aid, not a registered check).

run.py [PROP|name-substring]...   For every entry of muts.py: apply the edit to a
scratch copy of the repository, extract facts, run the property's analysis and
compare with the expectation ('alarm' for a change that breaks the property,
'quiet' for one that keeps the behaviour).
"""
import concurrent.futures, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)


def one(m):
    d = tempfile.mkdtemp(prefix="cernan-mut.")
    try:
        r = os.path.join(d, "repo")
        subprocess.run("git -C /repo archive HEAD | (mkdir %s && tar x -C %s)" % (r, r), shell=True, check=True)
        for f, old, new in m["edits"]:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != m.get("count", 1) and s.count(old) < 1:
                return m, "BADEDIT", "%s: %d matches in %s" % (old[:60], s.count(old), f)
            s = s.replace(old, new) if m.get("all") else s.replace(old, new, 1)
            open(p, "w").write(s)
        e = dict(os.environ, CERNAN_REPO=r, PYTHONDONTWRITEBYTECODE="1", EVIDENCE_DIR=os.path.join(d, "ev"))
        e.pop("SA_FACTS", None)
        props = m["props"]
        q = subprocess.run([sys.executable, os.path.join(V, "check.py")] + props, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        alarm = q.returncode == 1 and "VIOLATION" in q.stdout
        if "does not compile" in q.stdout or "extract" in q.stdout:
            return m, "NOCOMPILE", q.stdout[-1500:]
        if q.returncode not in (0, 1):
            return m, "CRASH", q.stdout[-1500:]
        want = m.get("expect", "alarm")
        if "could not be completed" in q.stdout:
            return m, "UNDONE", q.stdout[-1500:]
        return m, "ok" if (want == "alarm") == alarm else "WRONG", q.stdout[-900:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    import muts
    sel = sys.argv[1:]
    ms = [m for m in muts.MUTS if not sel or any(s in m["props"] or s in m["name"] for s in sel)]
    bad = 0
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        for m, res, out in ex.map(one, ms):
            line = out.strip().splitlines()
            first = next((l for l in line if l.startswith("  ")), "")
            print("%-9s %-7s %-40s %s" % (res, m.get("expect", "alarm"), ",".join(m["props"]) + " " + m["name"], first.strip()[:140] if res == "ok" else ""))
            if res != "ok":
                bad += 1
                print("      " + "\n      ".join(line[-8:]))
    print("%d entries, %d not as expected" % (len(ms), bad))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
