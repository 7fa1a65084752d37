"""Rewrite the generated parts of DESIGN.md: the list of fixes and the table of planted bugs."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/DESIGN.md").read()
fx = "".join("* %s\n" % f["what"].replace("fixed: property=", "", 1)
             for f in json.load(open(V + "/known_findings.json"))["findings"] if f["status"] == "fixed")
sd = "| planted | property | caught by | needs |\n|---|---|---|---|\n"
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    sd += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(d)), m["property"],
                                     m.get("caught_by", m["property"]), m["needs"].replace("|", "/"))
for k, v in (("fixes", fx), ("seeds", sd)):
    s = re.sub("(<!-- %s -->\n).*?(<!-- /%s -->)" % (k, k), lambda x: x.group(1) + v + x.group(2), s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
