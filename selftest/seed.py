#!/usr/bin/env python3
"""seed.py ID...   check planted bugs of /verif/seeded in /repo (development aid).
For each: apply, build, run the demo (must fail) and the property's check (should
alarm), undo, build, run the demo (must pass)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
    tests = "-t" in ids
    ids = [i for i in ids if i != "-t"]
    assert sh("git -C /repo status --porcelain").stdout == ""
    sh("bash /opt/vp/build.sh")
    base = {}
    for i in ids:
        r = sh("bash %s/seeded/%s/demo.sh" % (V, i), cwd="/repo")
        base[i] = r
    for i in ids:
        d = "%s/seeded/%s" % (V, i)
        m = json.load(open(d + "/meta.json"))
        a = sh("git -C /repo apply %s/patch.diff" % d)
        try:
            b = sh("bash /opt/vp/build.sh")
            demo = sh("bash %s/demo.sh" % d, cwd="/repo")
            chk = sh("EVIDENCE_DIR=/tmp/seed-ev python3 %s/check.py %s" % (V, m["property"]))
            tr = ""
            if tests:
                sh("bash /opt/vp/test.sh /tmp/seed-test.json")
                bl = json.load(open("/opt/vp/BASELINE.json"))
                rs = json.load(open("/tmp/seed-test.json"))
                tr = cmp(bl, rs)
        finally:
            sh("git -C /repo checkout -- .")
        print("%-28s apply %d build %d demo base %d patched %d check %d %s" % (i, a.returncode, b.returncode, base[i].returncode, demo.returncode, chk.returncode, tr))
        if base[i].returncode:
            print(base[i].stdout[-1500:])
        if demo.returncode in (0, 3) or demo.returncode == 124:
            print("   demo:", demo.stdout[-800:])
        else:
            print("   demo:", demo.stdout.strip()[-160:].replace("\n", " | "))
        print("   check:", "\n".join(l[:200] for l in chk.stdout.splitlines()[:3]))
    sh("bash /opt/vp/build.sh")


def cmp(bl, rs):
    def names(x):
        if isinstance(x, dict):
            for k in ("passed", "stable", "tests"):
                if k in x:
                    return set(x[k]) if not isinstance(x[k], dict) else {n for n, v in x[k].items() if v in ("pass", "passed", True)}
        return set()
    a, b = names(bl), names(rs)
    return "tests %d/%d %s" % (len(a & b), len(a), sorted(a - b)[:4])


if __name__ == "__main__":
    main()
