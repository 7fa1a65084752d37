#!/usr/bin/env python3
"""Single source of the property list: `python3 props.py` rewrites
properties.jsonl and MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
PS, NA = [], []
TRUST = (" Decided from the type-checked program's intermediate representation of /repo's current tree on every run; nothing is executed."
         " Trusts rustc 1.39's MIR construction, the models of standard-library and dependency calls (sa/flow.py, sa/mir.py), and that dependencies behave as documented.")


def P(id, title, statement, over, text, why, files, mechanism, technique, note, observe=()):
    PS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                   anchors=dict(files=files.split(), mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=list(observe), hook_needed=None)))
    PS[-1]["_t"] = (technique, note)


def N(id, title, statement, over, text, why, files, mechanism, reason):
    P(id, title, statement, over, text, why, files, mechanism, "", "")
    PS[-1]["_na"] = reason


exec(open(os.path.join(HERE, "proplist.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in sorted(PS, key=lambda p: p["id"]):
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in sorted(PS, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        if "_na" in p:
            na.append(dict(property=p["id"], reason=p["_na"]))
            continue
        t, note = p["_t"]
        checks.append(dict(property=p["id"], quick_cmd="python3 check.py " + p["id"], thorough_cmd="python3 check.py " + p["id"],
                           technique="static analysis: " + t, level="other", level_note=note + TRUST))
    m = dict(version=1, setup_cmd="python3 sa/extract.py --setup", checks=checks, not_applicable=na,
             notes="No hooks in /repo: the analyses read private items from the compiler's MIR directly. Quick and thorough are the same command: every analysis is exhaustive over the paths of the code it covers.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks", len(na), "not applicable")


main()
