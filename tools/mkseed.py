"""mkseed(id, prop, needs, breaks, edits, demo): writes /verif/seeded/<id>/ from edits [(file, old, new)] against /repo."""
import json, os, subprocess, sys, shutil, tempfile

DEMO_HEAD = """import sys, os, tempfile, logging
sys.path.insert(0, os.getcwd())
logging.disable(logging.CRITICAL)
import warnings; warnings.simplefilter("ignore")
"""

def mkseed(id, prop, needs, breaks, edits, demo):
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="/tmp/mkseed.")
    patch = ""
    files = {}
    for f, old, new in edits:
        s = files.get(f) or open(f"/repo/{f}").read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        files[f] = s.replace(old, new)
    for f, s in files.items():
        os.makedirs(os.path.dirname(f"{w}/b/{f}"), exist_ok=True); os.makedirs(os.path.dirname(f"{w}/a/{f}"), exist_ok=True)
        open(f"{w}/b/{f}", "w").write(s); shutil.copy(f"/repo/{f}", f"{w}/a/{f}")
        compile(s, f, "exec")
        r = subprocess.run(["diff", "-u", f"a/{f}", f"b/{f}"], cwd=w, capture_output=True, text=True).stdout
        patch += f"diff --git a/{f} b/{f}\n" + "\n".join(l.split("\t")[0] if l[:3] in ("---", "+++") else l for l in r.split("\n"))
        # original lines only
        orig = subprocess.run(["git", "show", f"d36f5e3:{f}"], cwd="/repo", capture_output=True, text=True).stdout.split("\n")
        for l in r.split("\n")[2:]:
            if l.startswith("-") and l[1:] not in orig:
                print(id, "NOT ORIGINAL:", l)
    shutil.rmtree(w)
    open(f"{d}/patch.diff", "w").write(patch)
    open(f"{d}/demo.py", "w").write(DEMO_HEAD + demo)
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\nset -e\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
