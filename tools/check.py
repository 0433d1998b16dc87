#!/usr/bin/env python3
"""check.py ID [quick|thorough] [--replay FILE] [--only SUBSTR]
check.py --build-all            (setup_cmd: builds what the quick checks run)

Rebuilds the harnesses of one property from /repo's current working tree, runs
them under their sanitizer flavours, and judges what the monitors reported.
exit 0: held on everything observed; 1: VIOLATION line; 2: no answer."""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VH_REPO", "/repo")
OUT = os.environ.get("VH_OUTDIR", VERIF + "/.build")
sys.path.insert(0, VERIF + "/tools")
from specs import SPECS  # noqa: E402

NCPU = os.cpu_count() or 8
LLVM = "/usr/lib/llvm-18"


def log(*a):
    print(*a, flush=True)


# ---- source mirror: content-compared, so that time stamps never decide -------
MIRROR = ("tachyon", "third_party", "bazel", "vendors")


def sync():
    src = OUT + "/src"
    os.makedirs(src, exist_ok=True)
    want = set()

    def copy(rel):
        want.add(rel)
        a, b = os.path.join(REPO, rel), os.path.join(src, rel)
        data = open(a, "rb").read()
        mode = os.stat(a).st_mode & 0o777 | 0o600
        try:
            if open(b, "rb").read() == data:
                if os.stat(b).st_mode & 0o777 != mode:
                    os.chmod(b, mode)
                return
        except OSError:
            os.makedirs(os.path.dirname(b), exist_ok=True)
        with open(b, "wb") as f:
            f.write(data)
        os.chmod(b, mode)

    for top in MIRROR:
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs[:] = [x for x in dirs if x not in ("node_modules", "target", ".git")]
            rel = os.path.relpath(d, REPO)
            for f in files:
                p = os.path.join(rel, f)
                if os.path.isfile(os.path.join(REPO, p)):
                    copy(p)
    for f in os.listdir(REPO):
        if os.path.isfile(os.path.join(REPO, f)):
            copy(f)
    for d, dirs, files in os.walk(src):
        for f in files:
            rel = os.path.relpath(os.path.join(d, f), src)
            if rel not in want:
                os.unlink(os.path.join(d, f))
    return src


def build(names):
    os.makedirs(OUT, exist_ok=True)
    with open(OUT + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = sync()
        env = dict(os.environ, VH_CCACHE="1",
                   CCACHE_DIR=OUT + "/ccache", CCACHE_MAXSIZE="12G",
                   CCACHE_SLOPPINESS="time_macros,include_file_mtime,include_file_ctime",
                   CCACHE_NOHASHDIR="1", TMPDIR=OUT + "/tmp",
                   GIT_CEILING_DIRECTORIES=OUT)
        os.makedirs(OUT + "/tmp", exist_ok=True)
        r = subprocess.run([sys.executable, VERIF + "/tools/vgen.py", src, OUT],
                           env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode:
            log(r.stdout[-4000:])
            return False
        r = subprocess.run(["ninja", "-k", "20", "-j", str(NCPU)] + names, cwd=OUT,
                           env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode:
            errs = [x for x in r.stdout.splitlines()
                    if re.search(r"error|FAILED|undefined|Error", x)]
            log("\n".join(x[:400] for x in errs[:40]))
            log(r.stdout[-1500:])
            return False
    return True


# ---- one run -----------------------------------------------------------------
def run_env(run, tier, seed, base):
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(("OMP_", "VH_", "ASAN", "UBSAN", "TSAN", "GLOG"))}
    e.update(VERIF_SEED=str(seed), VERIF_TIER=tier, VH_OUT=base + ".json",
             VH_CASE=base + ".case", TEST_TMPDIR=base + ".tmp", TMPDIR=base + ".tmp",
             VH_SCALE=str(run.get("scale", 1.0)), VH_MODE=run.get("mode", ""))
    if run.get("only"):
        e["VH_ONLY"] = run["only"]
    if tier == "thorough":
        e["VH_BUDGET_S"] = str(run.get("budget", 600))
    f = run["flavour"]
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=77:"
                         "detect_stack_use_after_return=0:"
                         "allocator_may_return_null=1:symbolize=1:"
                         "hard_rss_limit_mb=10000")
    e["ASAN_SYMBOLIZER_PATH"] = LLVM + "/bin/llvm-symbolizer"
    if f == "tsan":
        e["TSAN_OPTIONS"] = ("halt_on_error=0:exitcode=66:history_size=4:"
                             "ignore_noninstrumented_modules=1:"
                             "report_signal_unsafe=0:"
                             "external_symbolizer_path=%s/bin/llvm-symbolizer:"
                             "suppressions=%s/tools/tsan.supp"
                             % (LLVM, VERIF))
        e["OMP_TOOL_LIBRARIES"] = LLVM + "/lib/libarcher.so"
        e["ARCHER_OPTIONS"] = "verbose=0"
    e["OMP_NUM_THREADS"] = str(run.get("threads", 4))
    e["OMP_DYNAMIC"] = "false"
    e["OMP_WAIT_POLICY"] = "passive"
    e["LD_LIBRARY_PATH"] = LLVM + "/lib"
    e.update(run.get("env", {}))
    return e


FRAME = re.compile(r"#\d+ (?:0x[0-9a-f]+ )?(?:in )?(.*?) (/?[^\s]*?):(\d+)(?::\d+)?")


def where(lines):
    """first frame inside the code under test"""
    for ln in lines:
        m = FRAME.search(ln)
        if not m:
            continue
        path = m.group(2)
        i = path.find("tachyon/")
        if i < 0 or "/opt/vp" in path or "/usr/" in path:
            continue
        return path[path.rindex("tachyon/") if path.count("tachyon/") == 1
                    else i:]
    return "?"


def crash_keys(run, rc, err):
    """sanitizer reports / aborts / signals -> list of (key, detail)"""
    lines = err.splitlines()
    out = []
    for i, ln in enumerate(lines):
        m = re.search(r"ERROR: AddressSanitizer: (\S+)", ln)
        if m:
            out.append(("asan:%s@%s" % (m.group(1), where(lines[i:i + 60])),
                        "\n".join(lines[i:i + 40])))
        m = re.search(r"(\S+?):\d+:\d+: runtime error: (.*)", ln)
        if m:
            p = m.group(1)
            p = p[p.find("tachyon/"):] if "tachyon/" in p else p
            if not p.startswith("tachyon/"):
                w = where(lines[i:i + 60])
                p = w if w != "?" else p
            msg = re.sub(r"-?\b(0x[0-9a-f]+|\d+)\b", "N", m.group(2))
            msg = re.sub(r"'.*?'", "T", msg)[:90]
            out.append(("ubsan:%s@%s" % (msg, p), "\n".join(lines[i:i + 25])))
        m = re.search(r"WARNING: ThreadSanitizer: (.*?) \(pid", ln)
        if m:
            j = i + 1
            while j < len(lines) and not lines[j].startswith("SUMMARY") and \
                    not lines[j].startswith("==="):
                j += 1
            out.append(("tsan:%s@%s" % (m.group(1).replace(" ", "-"),
                                        where(lines[i:j])),
                        "\n".join(lines[i:j + 1])[:6000]))
    for ln in lines:
        m = re.search(r"^F\d+ [\d:.]+ +\d+ (\S+?):\d+\] (.*)", ln)
        if m:
            out.append(("check-failed:%s@%s" % (
                re.sub(r"-?\b\d+\b", "N", m.group(2))[:80], m.group(1)), ln))
    if not out and rc not in (0, 1):
        if rc < 0:
            try:
                name = signal.Signals(-rc).name
            except ValueError:
                name = str(-rc)
            msg = ""
            m = re.search(r"(Assertion `.*?' failed|terminate called.*|"
                          r"what\(\):.*)", err)
            if m:
                msg = ":" + m.group(1)[:100]
            out.append(("signal:%s%s" % (name, msg), err[-3000:]))
        else:
            out.append(("exit:%d" % rc, err[-3000:]))
    return out


def memcheck_keys(path):
    """valgrind memcheck reports -> list of (key, detail)"""
    out = []
    try:
        text = open(path, errors="replace").read()[:4000000]
    except OSError:
        return out
    block = []
    for ln in text.splitlines() + ["== "]:
        m = re.match(r"==\d+== ?(.*)", ln)
        body = m.group(1) if m else ""
        if body.strip():
            block.append(body)
            continue
        if block and re.match(r"(Conditional jump|Use of uninit|Invalid |Syscall param|"
                              r"Source and dest|Mismatched|Jump to|Process terminating|Argument )", block[0]):
            site = "?"
            for b in block[1:]:
                if b.startswith(" Address ") or "alloc'd" in b:
                    break
                m = re.search(r"\((\S*?)(tachyon/[^()\s]*):\d+\)", b)
                if m and "/vh/" not in m.group(0):
                    site = m.group(2)
                    break
            kind = re.sub(r"[^A-Za-z]+", "-", block[0])[:40].strip("-")
            out.append(("memcheck:%s@%s" % (kind, site), "\n".join(block[:30])))
        block = []
    return out


def execute(run, tier, seed, work, idx):
    base = "%s/%02d.%s.%s" % (work, idx, run["target"], run["flavour"])
    os.makedirs(base + ".tmp", exist_ok=True)
    env = run_env(run, tier, seed, base)
    exe = "%s/%s/vh/%s" % (OUT, run["flavour"], run["target"])
    cmd = [exe]
    memcheck = run.get("tool") == "memcheck"
    if memcheck:
        cmd = ["valgrind", "--tool=memcheck", "-q", "--leak-check=no",
               "--child-silent-after-fork=yes", "--num-callers=40",
               "--fullpath-after=", "--error-limit=no",
               "--suppressions=%s/tools/memcheck.supp" % VERIF,
               "--log-file=" + base + ".vg", exe]
    tmo = run.get("timeout", 160) if tier == "quick" else \
        max(run.get("timeout", 240) * 4, run.get("budget", 600) * 4 + 600)
    r = dict(run=run, seed=seed, cmd=" ".join(
        "%s=%s" % (k, env[k]) for k in sorted(env)
        if k.startswith(("VERIF_", "VH_SC", "VH_MO", "VH_ON", "OMP_"))) +
        " " + exe, base=base)
    limit = None
    if run["flavour"] in ("rel", "omp", "avx512") and not memcheck:
        def limit():
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    for attempt in (0, 1):
        for f in (base + ".json",):
            if os.path.exists(f):
                os.unlink(f)
        t0 = time.time()
        with open(base + ".out", "wb") as o, open(base + ".err", "wb") as e:
            p = subprocess.Popen(cmd, cwd=base + ".tmp", env=env, stdout=o,
                                 stderr=e, start_new_session=True,
                                 stdin=subprocess.DEVNULL,
                                 preexec_fn=limit)
            try:
                rc = p.wait(timeout=tmo * (1 + attempt))
                hung = False
            except subprocess.TimeoutExpired:
                hung = True
                os.killpg(p.pid, signal.SIGKILL)
                rc = p.wait()
            else:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        r["wall"] = round(time.time() - t0, 2)
        err = open(base + ".err", errors="replace").read()[-400000:]
        if hung and attempt == 0:
            log("note: %s exceeded %d s, running it once more" %
                (run["target"], tmo))
            continue
        break
    case = ""
    try:
        case = open(base + ".case", "rb").read().split(b"\0")[0].decode(
            errors="replace")
    except OSError:
        pass
    r.update(rc=rc, hung=hung, case=case, violations=[], report=None, error="")
    try:
        r["report"] = json.load(open(base + ".json"))
    except (OSError, ValueError):
        pass
    rep = r["report"]
    fl = run["flavour"]
    if hung:
        r["violations"].append(dict(
            key="hang", where=case, detail="no result after %d s and %d s; "
            "last case: %s" % (tmo, 2 * tmo, case)))
        return r
    if rep and rep.get("violations"):
        r["violations"] += rep["violations"]
    ck = []
    if memcheck:
        ck = memcheck_keys(base + ".vg")
    if rc not in (0, 1) or (fl == "tsan" and "ThreadSanitizer" in err):
        ck += crash_keys(run, rc, err)
    seen = set()
    for k, d in ck:
        if k in seen:
            continue
        seen.add(k)
        r["violations"].append(dict(key=k, where=case, detail="case: %s\n%s" % (case, d)))
    if rc == -9 and not hung:
        r["error"] = "killed (out of memory?)"
        r["violations"] = []
    if any("FATAL: ThreadSanitizer" in x for x in (err[:2000],)):
        r["error"] = "ThreadSanitizer could not start: " + err[:300]
        r["violations"] = []
    if not r["violations"] and not r["error"]:
        if not rep or not rep.get("done"):
            r["error"] = "no report (rc %s): %s" % (rc, err[-500:])
        elif rep["missing"] and not memcheck:
            r["error"] = "monitors observed nothing: " + rep["missing"]
        elif rep["evaluations"] == 0:
            r["error"] = "no evaluations"
    return r


def known_findings():
    """lines: 'known: property=<id> key=<regex> | <what fails>'"""
    res = []
    try:
        for ln in open(VERIF + "/known-findings.txt"):
            m = re.match(r"known: property=(\S+) key=(.*?) \| (.*)", ln.strip())
            if m:
                res.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    except OSError:
        pass
    return res


def cpu_flags():
    try:
        for ln in open("/proc/cpuinfo"):
            if ln.startswith("flags"):
                return set(ln.split())
    except OSError:
        pass
    return set()


CPU_FLAGS = cpu_flags()


def main():
    args = sys.argv[1:]
    if args and args[0] == "--build-all":
        names = sorted({"%s.%s" % (r["target"], r["flavour"])
                        for s in SPECS.values() for r in s["runs"]
                        if r.get("tier", "quick") == "quick"})
        ok = build(names)
        log("build-all: %d harness binaries: %s" % (len(names), "ok" if ok else "FAILED"))
        return 0 if ok else 1
    pid = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    only = replay = None
    while args:
        a = args.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--only":
            only = args.pop(0)
        elif a == "--replay":
            replay = json.load(open(args.pop(0)))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = SPECS[pid]
    t0 = time.time()
    runs = []
    for r in spec["runs"]:
        if tier == "quick" and r.get("tier", "quick") != "quick":
            continue
        if r.get("cpu") and r["cpu"] not in CPU_FLAGS:
            log("skipped %s.%s: this machine has no %s" % (r["target"], r["flavour"], r["cpu"]))
            continue
        r = dict(r)
        if only:
            r["only"] = only
        if tier == "quick":
            runs.append((r, seed + r.get("seed_offset", 0)))
        else:
            for k in range(r.get("reps", 2)):
                runs.append((r, seed + 1000 * k + r.get("seed_offset", 0)))
    if replay:
        seed = replay["seed"]
        tier = replay["tier"]
        runs = [(dict(replay["run"], only=replay.get("section") or None), seed)]
    names = sorted({"%s.%s" % (r["target"], r["flavour"]) for r, _ in runs})
    if not build(names):
        log("ERROR: property=%s the harness does not build from the current tree" % pid)
        return 2
    t1 = time.time()
    work = "%s/run/%s" % (OUT, pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    # weighted parallelism
    cond = threading.Condition()
    free = [NCPU]

    def go(i, r, sd):
        w = min(NCPU, r.get("cpus", r.get("threads", 1)
                            if r["flavour"] in ("omp", "tsan") else 1))
        with cond:
            while free[0] < w:
                cond.wait()
            free[0] -= w
        try:
            return execute(r, tier, sd, work, i)
        finally:
            with cond:
                free[0] += w
                cond.notify_all()
    with cf.ThreadPoolExecutor(max(1, len(runs))) as ex:
        res = list(ex.map(lambda x: go(*x),
                          [(i, r, s) for i, (r, s) in enumerate(runs)]))
    known = known_findings()
    viol, hit, errors = [], {}, []
    for r in res:
        if r["error"]:
            errors.append("%s.%s: %s" % (r["run"]["target"], r["run"]["flavour"],
                                         r["error"]))
        for v in r["violations"]:
            for kp, kre, text in known:
                if kp == pid and kre.fullmatch(v["key"]):
                    hit[text] = hit.get(text, 0) + 1
                    break
            else:
                viol.append((r, v))
    # evidence
    mon, cnt, samples, ev, dist = {}, {}, [], 0, 0
    perrun = []
    for r in res:
        rep = r["report"]
        name = "%s.%s" % (r["run"]["target"], r["run"]["flavour"])
        if r["run"].get("mode"):
            name += "[%s]" % r["run"]["mode"]
        if r["run"]["flavour"] in ("omp", "tsan"):
            name += " threads=%s" % r["run"].get("threads", 4)
        if r["run"].get("tool"):
            name += " " + r["run"]["tool"]
        perrun.append(dict(run=name, seed=r["seed"], wall_s=r["wall"],
                           rc=r["rc"],
                           evaluations=rep["evaluations"] if rep else 0,
                           distinct=rep["distinct"] if rep else 0))
        if not rep:
            continue
        ev += rep["evaluations"]
        # the same seed in another flavour repeats the same cases
        for k, n in rep["monitors"].items():
            mon[k] = mon.get(k, 0) + n
        for k, n in rep["counts"].items():
            cnt[k] = cnt.get(k, 0) + n
        samples += rep["samples"]
    groups = {}
    for r in res:
        if r["report"]:
            k = (r["run"]["target"], r["run"].get("mode", ""), r["seed"])
            groups[k] = max(groups.get(k, 0), r["report"]["distinct"])
    dist = sum(groups.values())
    step = max(1, len(samples) // 24)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    evidence = dict(
        property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=ev, distinct_nontrivial=dist, rule=spec["rule"],
            samples=samples[::step][:24], monitors=mon, observed=cnt,
            runs=perrun, known_findings_hit=hit,
            violations=[dict(key=v["key"], where=v.get("where", ""))
                        for _, v in viol][:50], errors=errors),
        wall_s=round(time.time() - t0, 1), build_s=round(t1 - t0, 1))
    with open("%s/evidence/%s.json" % (VERIF, pid), "w") as f:
        json.dump(evidence, f, indent=1)
    log("%s %s seed=%d: %d evaluations, %d distinct cases, %d monitors, "
        "%d runs, build %.0f s, total %.0f s" % (
            pid, tier, seed, ev, dist, len(mon), len(res), t1 - t0,
            time.time() - t0))
    for t, n in sorted(hit.items()):
        log("KNOWN-FINDING: property=%s %s" % (pid, t))
    if viol:
        os.makedirs(VERIF + "/replays", exist_ok=True)
        done = set()
        for r, v in viol:
            if v["key"] in done:
                continue
            done.add(v["key"])
            h = hashlib.sha256(v["key"].encode()).hexdigest()[:10]
            path = "%s/replays/%s-%s.json" % (VERIF, pid, h)
            sec = v.get("where", "").split(" | ")[0]
            with open(path, "w") as f:
                json.dump(dict(property=pid, key=v["key"], tier=tier,
                               seed=r["seed"], run=r["run"], section=sec,
                               detail=v["detail"], cmd=r["cmd"],
                               replay="python3 tools/check.py %s --replay %s"
                               % (pid, path)), f, indent=1)
            if len(done) <= 12:
                log("  %s: %s" % (v["key"], v["detail"].replace("\n", " ")[:600]))
                log("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for e in errors:
            log("ERROR: property=%s %s" % (pid, e))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
