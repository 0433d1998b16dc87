# Compiles demo.cc like the sources of a unit-test binary of /repo/_build and
# links it with that binary's objects (its own tests left out), then runs it.
# usage: run.py TARGET_SUFFIX [EXTRA_OBJECT_SUBSTRING...]
import os, re, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
B = "/repo/_build"
txt = open(B + "/build.ninja").read().replace("$\n", "")
vars_, edges, cur = {}, [], None
for line in txt.split("\n"):
    m = re.match(r"build (.*?): (\w+)(.*)", line)
    if m:
        ins = m.group(3).split(" | ")[0].split(" || ")[0].split()
        cur = dict(out=m.group(1), rule=m.group(2), ins=ins, v={})
        edges.append(cur)
    elif line.startswith("rule "):
        cur = None
    elif line.startswith("  ") and cur is not None and "=" in line:
        k, v = line.strip().split("=", 1)
        cur["v"][k.strip()] = v.strip()
    elif re.match(r"\w+ *=", line):
        k, v = line.split("=", 1)
        vars_[k.strip()] = v.strip()
link = next(e for e in edges if e["rule"] == "link" and e["out"].endswith(sys.argv[1]))
by = {e["out"]: e for e in edges}
objs = [o for o in link["ins"] if o.endswith(".o") or o.endswith(".a")]
tests = [o for o in objs if "unittest" in os.path.basename(o)]
objs = [o for o in objs if o not in tests and "gtest_main" not in o and "/gtest" not in o]
for extra in sys.argv[2:]:
    objs += [e["out"] for e in edges if e["rule"] in ("cxx", "cc") and extra in e["out"]
             and "unittest" not in e["out"] and e["out"] not in objs]
def full(e, k):
    s = e["v"].get(k, vars_.get(k, ""))
    for _ in range(3):
        s = re.sub(r"\$\{?(\w+)\}?", lambda m: e["v"].get(m.group(1), vars_.get(m.group(1), "")), s)
    return s
t = by[tests[0]]
with tempfile.TemporaryDirectory() as d:
    o = d + "/demo.o"
    subprocess.check_call("/usr/bin/g++ -std=c++17 %s %s -w -I%s/inc -c %s/demo.cc -o %s" %
                          (full(t, "copts"), full(t, "common"), here, here, o), shell=True, cwd=B)
    tail = re.search(r"-lglog.*?--end-group", txt).group(0)
    open(d + "/rsp", "w").write("\n".join([o] + objs + [x for x in link["v"].get("extra", "").split() if "gtest" not in x]))
    subprocess.check_call("/usr/bin/g++ -pthread -o %s/demo @%s/rsp %s %s -lm -lrt -ldl" %
                          (d, d, tail, full(link, "linkopts")), shell=True, cwd=B)
    r = subprocess.run([d + "/demo"], cwd=d, timeout=200)
    sys.exit(0 if r.returncode == 0 else 1)
