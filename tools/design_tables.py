"""design_tables.py TRYBUG_LOG...: rewrite the tables of DESIGN.md (defects, planted bugs) from known_findings.json,
seeded/*/meta.json and the output of tools/trybug.py (later logs win)."""
import sys, os, json, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k = json.load(open(V + "/known_findings.json"))["findings"]
rows = []
for x in k:
    m = re.match(r"(\w+): property=(\w+) (\w+) (.*)", x["line"])
    rows.append("| %s | %s | %s |" % (m[2], m[3], m[4]))
defects = "| property | commit | what failed |\n|---|---|---|\n" + "\n".join(rows)
res = {}
for log in sys.argv[1:]:
    cur = None
    for l in open(log):
        m = re.match(r"(OK|BAD)\s+(CAUGHT|MISSED) (\S+) (C\d+)", l)
        if m:
            cur = m[3]
            res[cur] = {"st": m[2] if m[1] == "OK" else "BAD", "proof": False, "conc": False, "nfi": False}
        elif cur:
            if "FAILED OBLIGATION" in l:
                res[cur]["proof"] = True
            elif "no-failing-input-found" in l:
                res[cur]["nfi"] = True
            elif l.strip().startswith("VIOLATION"):
                res[cur]["conc"] = True
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    p = V + "/seeded/%s/meta.json" % d
    if not os.path.exists(p):
        continue
    m = json.load(open(p))
    r = res.get(d)
    how = "not run" if r is None else {"MISSED": "missed", "BAD": "bad"}.get(r["st"]) or \
        " + ".join(["failed obligation"] * r["proof"] + ["input on the real code"] * r["conc"] + ["no failing input found"] * r["nfi"])
    rows.append("| %s | %s | %s |" % (d, m["what_it_breaks"].replace("|", "/"), how))
caught = sum(1 for d, r in res.items() if r["st"] == "CAUGHT")
bugs = "%d bugs, %d of them run last time, %d caught, each by the check of its own property (the prefix of its name).\n\n| bug | what it does | caught by |\n|---|---|---|\n%s" % (
    len(rows), len(res), caught, "\n".join(rows))
t = open(V + "/DESIGN.md").read()
for n, body in (("DEFECTS", defects), ("BUGS", bugs)):
    block = "<!-- %s -->\n%s\n<!-- /%s -->" % (n, body, n)
    t = t.replace("@@%s@@" % n, block) if "@@%s@@" % n in t else re.sub(r"<!-- %s -->.*?<!-- /%s -->" % (n, n), lambda m: block, t, flags=re.S)
open(V + "/DESIGN.md", "w").write(t)
print(bugs[:200])
for d, r in res.items():
    if r["st"] != "CAUGHT":
        print(d, r)
