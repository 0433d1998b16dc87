# Makes /verif/seeded/<id>/ from a description: the edits are applied to a
# clean checkout to get patch.diff.
import json, os, shutil, subprocess
V = "/verif"
def make(id, prop, file, edits, demo, target, needs, breaks, extra=(), inc=False):
    d = V + "/seeded/" + id
    os.makedirs(d, exist_ok=True)
    wt = "/tmp/mkwt"
    if not os.path.exists(wt):
        subprocess.check_call(["git", "clone", "-q", "/repo", wt])
    subprocess.check_call(["git", "-C", wt, "checkout", "-q", "--", "."])
    subprocess.check_call(["git", "-C", wt, "pull", "-q"])
    for f, es in ([(file, edits)] if isinstance(file, str) else zip(file, edits)):
        p = wt + "/" + f
        s = open(p).read()
        for a, b in es:
            assert s.count(a) == 1, (id, f, s.count(a), a)
            s = s.replace(a, b)
        open(p, "w").write(s)
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", wt, "diff"], text=True))
    open(d + "/demo.cc", "w").write(demo)
    shutil.copy(V + "/tools/seedtools/run.py", d + "/run.py")
    if inc:
        shutil.rmtree(d + "/inc", ignore_errors=True)
        shutil.copytree(V + "/shim", d + "/inc")
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/run.py" %s\n' % " ".join([target, *extra]))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
