"""mkbug.py SPECFILE: make /verif/seeded/<id>/ from a spec written in Python:
BUGS=[dict, ...] or ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source; cwd is the repository)."""
import sys, os, json, subprocess, tempfile, shutil, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
specs = []
for sp in sys.argv[1:]:
    m = runpy.run_path(sp)
    specs += [(sp, b) for b in m.get("BUGS", [m])]
for sp, s in specs:
    tmp = tempfile.mkdtemp(prefix="mkbug-")
    wt = tmp + "/r"
    subprocess.run(["git", "clone", "-q", "/repo", wt], check=True)
    for f, old, new in s["EDITS"]:
        p = os.path.join(wt, f)
        t = open(p).read()
        assert t.count(old) == 1, (sp, f, old, t.count(old))
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=wt, capture_output=True, text=True, check=True).stdout
    assert diff
    d = os.path.join(V, "seeded", s["ID"])
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    if "from h import" in s["DEMO"]:
        shutil.copy(os.path.join(V, "tools", "demo_help.py"), d + "/h.py")
        s["DEMO"] = s["DEMO"].replace("from h import", "sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom h import", 1)
    open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\nimport logging\nlogging.disable(logging.CRITICAL)\n" + s["DEMO"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: the property holds here; 1: it is broken\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(tmp)
    print("made", s["ID"])
