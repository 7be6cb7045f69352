"""Writes /verif/seeded/<id>/ from a definition file (dev aid).

usage: mkseed.py DEFS.py    with SEEDS = [dict(id, property, edits=[(file, old,
new)], needs, breaks, demo)]
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns["SEEDS"]:
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed")
    subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
    for fn, old, new in s["edits"]:
        p = os.path.join(w, "r", "src/tespy", fn)
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], fn, t.count(old))
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", w + "/r", "diff"], check=True,
                          capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write(
        '#!/bin/bash\n# exit 0: the property holds on this input\n'
        'export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\n'
        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"],
               "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"),
              indent=1)
    shutil.rmtree(w)
    print(s["id"], len(diff))
