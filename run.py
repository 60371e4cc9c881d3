#!/usr/bin/env python3
"""Runs one check:  run.py PROPERTY [quick|thorough]
                    run.py --replay FILE      runs the failing case of a report again
                    run.py setup              checks that the tools are there
Standard library only. Everything is built from /repo's working tree into
/verif/build (ignored by git), keyed by the content of the files that go in."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("TINYFK_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
JOBS = min(8, os.cpu_count() or 4)
sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402


class CheckError(Exception):
    pass


# ------------------------------------------------------------------ building
COMMON = ["-std=c++14", "-g1", "-include", "cstddef", "-DEIGEN_MAX_CPP_VER=03", "-D_GLIBCXX_ASSERTIONS",
          "-fno-omit-frame-pointer", "-w"]
SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "asanlite": ["-fsanitize=address"],
    "tsan": ["-fsanitize=thread"],
    "plain": [],
    "fuzz": ["-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize-recover=all"],
}


def repo_includes():
    return ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "urdf_parser/include"),
            "-I" + os.path.join(REPO, "urdf_parser/tinyxml"), "-isystem", "/usr/include/eigen3"]


def repo_sources():
    out = [f for f in glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True)
           if os.path.basename(f) != "wrapper.cpp"]
    out += glob.glob(os.path.join(REPO, "urdf_parser", "**", "*.cpp"), recursive=True)
    bad = [f for f in out if re.search(r"/(tests?|examples?|bench|demo)/", f[len(REPO):])]
    out = [f for f in out if f not in bad]
    # a source with a main program of its own is not part of the library
    return sorted(f for f in out if not re.search(r"^\s*int\s+main\s*\(", open(f, errors="replace").read(), re.M))


def tree_hash():
    h = hashlib.sha256()
    fs = []
    for d in ("src", "include", "urdf_parser"):
        for base, _, names in os.walk(os.path.join(REPO, d)):
            fs += [os.path.join(base, n) for n in names if n.endswith((".cpp", ".hpp", ".h", ".cc", ".c", ".hxx", ".inl", ".ipp"))]
    for f in sorted(fs):
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def harness_hash():
    h = hashlib.sha256()
    for base, _, names in sorted(os.walk(HARNESS)):
        for n in sorted(names):
            if n.endswith((".cpp", ".hpp", ".h")):
                h.update(n.encode() + b"\0" + open(os.path.join(base, n), "rb").read() + b"\0")
    return h.hexdigest()


def compile_one(job):
    cmd, obj = job
    if os.path.exists(obj):
        return None
    tmp = obj + ".%d.tmp" % os.getpid()
    p = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        return " ".join(cmd) + "\n" + p.stdout[-4000:]
    os.replace(tmp, obj)
    return None


def build(san, tus, extra=(), lib_opt="-O1", tu_san=None, tu_opt="-O1", cxx="g++", link_extra=(), name="h"):
    """Compiles the library (flags `san`) and the harness units (flags `tu_san`), returns the program."""
    th, hh = tree_hash(), harness_hash()
    os.makedirs(BUILD, exist_ok=True)
    jobs, objs = [], []
    tu_san = tu_san or san

    def add(src, flags, key):
        hk = hashlib.sha256((" ".join([cxx] + flags) + src + key).encode()).hexdigest()[:24]
        obj = os.path.join(BUILD, os.path.basename(src) + "-" + hk + ".o")
        jobs.append(([cxx] + flags + ["-c", src], obj))
        objs.append(obj)

    for t in tus:
        add(os.path.join(HARNESS, t + ".cpp"),
            COMMON + SAN[tu_san] + [tu_opt] + list(extra) + repo_includes() + ["-I" + HARNESS], th + hh)
    n_tu = len(objs)
    for s in repo_sources():
        add(s, COMMON + SAN[san] + [lib_opt] + repo_includes(), th)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
    if errs:
        raise CheckError("the code under test or the harness does not compile:\n" + errs[0])
    hk = hashlib.sha256("".join(objs + list(link_extra)).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, name + "-" + hk)
    if not os.path.exists(exe):
        # the library first, so that its (fully instrumented) copies of inline functions are used
        cmd = [cxx] + SAN[san] + objs[n_tu:] + objs[:n_tu] + ["-lpthread"] + list(link_extra)
        e = compile_one((cmd, exe))
        if e:
            raise CheckError("linking failed:\n" + e)
    return exe


# ------------------------------------------------------------------ running
def san_env():
    env = dict(os.environ)
    for k in ("LD_PRELOAD", "LC_ALL", "LANG"):
        env.pop(k, None)
    env["LC_ALL"] = "C"
    base = "exitcode=97:handle_abort=1:abort_on_error=0:allocator_may_return_null=0"
    env["ASAN_OPTIONS"] = base + ":detect_leaks=1:hard_rss_limit_mb=3500:detect_stack_use_after_return=0"
    env["LSAN_OPTIONS"] = "exitcode=96"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=97"
    env["TSAN_OPTIONS"] = "exitcode=97:halt_on_error=1:second_deadlock_stack=1"
    return env


def run_proc(cmd, timeout, cwd=None, env=None):
    """(exit code or None on time-out, stdout, stderr); the whole process group is ended."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", cwd=cwd,
                         env=env or san_env(), start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o, e


def crash_key(rc, err):
    """A stable name of a crash: kind and innermost function of the code under test."""
    m = re.search(r"SUMMARY: (\w+Sanitizer): (\S+)", err)
    kind = None
    if m:
        kind = m.group(1)[0].lower() + "san:" + m.group(2)
    m = re.search(r"runtime error: ([^\n]*)", err)
    if m:
        kind = "ubsan:" + re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m.group(1))[:80]
    m = re.search(r"Assertion [`'](.{0,80}?)' failed", err)
    if m:
        kind = "assert:" + m.group(1)
    if "terminate called after throwing" in err:
        m = re.search(r"what\(\):\s*([^\n]{0,60})", err)
        kind = "terminate:" + (m.group(1) if m else "")
    if kind is None:
        kind = "hang" if rc in (98, None) else "leak" if rc == 96 else "crash:%s" % rc
    fn = ""
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?) (\S+?)(:\d+)*\n", err):
        if "/urdf_parser/" in m.group(2) or "/src/" in m.group(2) and "gcc" not in m.group(2) or "/include/tinyfk" in m.group(2):
            fn = re.sub(r"\(.*", "", m.group(1))
            break
    return re.sub(r"\s+", "_", kind + (":" + fn if fn else ""))


class Report:
    """Collects what the workers saw."""

    def __init__(self, prop):
        self.prop = prop
        self.violations = []  # dicts: key, msg, replay
        self.evaluations = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self.rule = ""
        self.notes = []
        self.extra = {}

    def add_stats(self, path, prefix=""):
        if not os.path.exists(path):
            return False
        d = json.load(open(path))
        self.evaluations += d["evaluations"]
        self.distinct.update(prefix + x for x in d["distinct"])
        for k, v in d["counters"].items():
            if k.startswith("max_"):
                self.counters[k] = max(self.counters.get(k, 0), v)
            else:
                self.counters[k] = self.counters.get(k, 0) + v
        for s in d["samples"]:
            if len(self.samples) < 3:
                self.samples.append(s)
        self.rule = self.rule or d["rule"]
        return True


def save_replay(prop, data, tag):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9_.-]", "_", str(tag))[:60]))
    with open(f, "w") as fp:
        json.dump(data, fp, indent=1)
    return f


def cpp_worker(exe, prop, args, scratch, deadline, seed, env=None):
    os.makedirs(scratch, exist_ok=True)
    out = os.path.join(scratch, "stats.json")
    cmd = exe + [prop, "--seed", str(seed), "--out", out, "--scratch", scratch, "--repo", REPO] + args
    rc, o, e = run_proc(cmd, deadline, cwd=scratch, env=env)
    if rc == -signal.SIGPROF:
        rc = 98  # the case's CPU time is used up
    return rc, o, e, out, cmd[len(exe) + 1:]


def launcher(cfg, work):
    """(command prefix, environment) of a worker; builds it."""
    if "tus" not in cfg:
        import pyrun
        return pyrun.launcher(sys.modules[__name__], cfg, work)
    exe = build(cfg.get("san", "asan"), cfg["tus"], cfg.get("defs", ()), lib_opt=cfg.get("lib_opt", "-O1"),
                tu_san=cfg.get("tu_san"), tu_opt=cfg.get("tu_opt", "-O1"), link_extra=cfg.get("link", ()))
    if "prepare" in cfg:
        cfg["prepare"](work)
    return [exe], san_env()


def run_cpp(rep, cfg, tier, seed, work):
    prop = rep.prop
    exe, env = launcher(cfg, work)
    total = cfg[tier]
    workers = cfg.get("workers", JOBS)
    limit = cfg.get("case_limit", 60)
    per = (total + workers - 1) // workers
    stop_after = 420 if tier == "quick" else 5400
    common = ["--tier", tier, "--case-limit", str(limit)]

    def one(i):
        a = common + ["--start", str(i * per), "--count", str(per), "--deadline", str(stop_after)]
        if i == 0:
            a.append("--directed")
        return i, cpp_worker(exe, prop, a, os.path.join(work, "w%d" % i), stop_after + 200, seed, env)

    with cf.ThreadPoolExecutor(workers) as ex:
        results = list(ex.map(one, range(workers)))
    for i, (rc, o, e, out, cmd) in results:
        rep.add_stats(out)
        scratch = os.path.join(work, "w%d" % i)
        for line in o.splitlines():
            if line.startswith("FAIL\t"):
                _, key, cs, directed, msg = line.split("\t", 4)
                note = os.path.join(scratch, "note-%s%s.txt" % (cs, "-directed" if directed == "1" else ""))
                again = common + (["--directed-only", cs] if directed == "1" else ["--case-seed", cs])
                data = {"property": prop, "key": key, "what": msg, "harness_args": again, "seed": seed,
                        "case": open(note, errors="replace").read() if os.path.exists(note) else ""}
                rep.violations.append({"key": key, "msg": msg, "data": data, "tag": cs})
        if rc in (0, 1):
            continue
        # the process ended in the middle of a case
        cur = os.path.join(scratch, "current")
        cs, directed = "0", "0"
        if os.path.exists(cur):
            parts = open(cur).read().split()
            if len(parts) >= 2:
                cs, directed = str(int(parts[0])), parts[1]
        again = common[:2] + ["--case-limit", str(limit * 3)] + (["--directed-only", cs] if directed == "1" else ["--case-seed", cs])
        rc2, o2, e2, _, _ = cpp_worker(exe, prop, again, os.path.join(work, "again%d" % i), limit * 3 + 300, seed, env)
        if rc in (98, None, -9) and rc2 in (0, 1):
            rep.notes.append("worker %d ended with %s but its case passed when run again" % (i, rc))
            rep.counters["inconclusive_workers"] = rep.counters.get("inconclusive_workers", 0) + 1
            continue
        if rc2 not in (0, 1):
            key, tail, conf = crash_key(rc2, e2), e2, "reproduced"
            data_args = again
        else:
            key, tail, conf = crash_key(rc, e), e, "in the worker's whole run"
            data_args = cmd
        msg = "%s (%s): %s" % (key, conf, summary_line(tail))
        rep.violations.append({"key": key, "msg": msg, "tag": cs + "-crash",
                               "data": {"property": prop, "key": key, "what": msg, "harness_args": data_args, "seed": seed, "stderr": tail[-12000:]}})
    rep.extra["cases"] = total
    rep.extra["workers"] = workers


def run_vg(rep, cfg, tier, seed, work):
    """Fewer cases of an uninstrumented build under valgrind memcheck (branches on uninitialised memory)."""
    exe = build("plain", cfg["tus"], cfg.get("defs", ()), lib_opt="-O1", tu_opt="-O1", name="vg")
    n = cfg["vg_" + tier]
    per = (n + JOBS - 1) // JOBS
    pre = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no", "--num-callers=25", exe, rep.prop]

    def go(args, d):
        os.makedirs(d, exist_ok=True)
        return run_proc(pre + args + ["--scratch", d, "--repo", REPO], 700 if tier == "quick" else 6000, cwd=d)

    def one(i):
        d = os.path.join(work, "v%d" % i)
        a = ["--seed", str(seed + 5000), "--start", str(i * per), "--count", str(per), "--slack", "1e4", "--case-limit", "600",
             "--deadline", "300" if tier == "quick" else "3600", "--out", os.path.join(d, "stats.json")]
        return i, d, a, go(a, d)

    with cf.ThreadPoolExecutor(JOBS) as ex:
        results = list(ex.map(one, range(JOBS)))
    for i, d, a, (rc, o, e) in results:
        st = os.path.join(d, "stats.json")
        if os.path.exists(st):
            rep.counters["memcheck_evaluations"] = rep.counters.get("memcheck_evaluations", 0) + json.load(open(st))["evaluations"]
        if rc == 0:
            continue
        cs = open(os.path.join(d, "current")).read().split()[0] if os.path.exists(os.path.join(d, "current")) else "0"
        again = ["--slack", "1e4", "--case-limit", "1200", "--case-seed", str(int(cs))]
        for line in o.splitlines():
            if line.startswith("FAIL\t"):
                _, key, cs, _, msg = line.split("\t", 4)
                again[-1] = cs
                rep.violations.append({"key": key, "msg": "under valgrind: " + msg, "tag": cs, "data": {
                    "property": rep.prop, "key": key, "what": msg, "valgrind_args": again, "seed": seed}})
        if rc == 99:
            rc2, o2, e2 = go(again, d)
            e = e2 if rc2 == 99 else e
            m = re.search(r"==\d+== ([A-Z][^\n]*)", e)
            fn = [x for x in re.findall(r"(?:at|by) 0x[0-9A-F]+: ([^\n]*)", e) if re.search(r"\((tinyxml|tinyfk|kinematics|model|link|joint|world|urdf|pose|tiny)\w*\.(cpp|h|hpp):", x)]
            key = re.sub(r"\s+", "_", "memcheck:" + (m.group(1) if m else "error") + (":" + re.sub(r"\(.*", "", fn[0]) if fn else ""))
            rep.violations.append({"key": key, "msg": key, "tag": cs + "-vg", "data": {
                "property": rep.prop, "key": key, "valgrind_args": again, "seed": seed, "stderr": e[-12000:]}})
        elif rc != 1:
            rep.notes.append("valgrind worker %d ended with %s" % (i, rc))
    if not rep.counters.get("memcheck_evaluations"):
        raise CheckError("valgrind observed nothing: " + results[0][3][2][-800:])


def summary_line(err):
    for pat in (r"SUMMARY: [^\n]*", r"[^\n]*runtime error: [^\n]*", r"[^\n]*Assertion [^\n]*", r"[^\n]*HANG[^\n]*", r"[^\n]*what\(\)[^\n]*"):
        m = re.search(pat, err)
        if m:
            return m.group(0)[:300]
    return err.strip().splitlines()[-1][:300] if err.strip() else "no output"


def run_fuzz(rep, cfg, tier, seed, work):
    """Coverage-guided part (libFuzzer): stops at the first crash."""
    exe = build("fuzz", cfg["fuzz_tus"], lib_opt="-O1", cxx="clang++", link_extra=("-fsanitize=fuzzer",), name="fz")
    if cfg.get("fuzz_seed_maker"):
        pass
    runs = cfg["fuzz_" + tier]
    n = JOBS

    def one(i):
        d = os.path.join(work, "f%d" % i)
        os.makedirs(d + "/corpus")
        cfg["fuzz_corpus"](d + "/corpus", seed * 100 + i, REPO)
        env = san_env()
        env["TINYFK_FUZZ_STATS"] = d + "/stats.json"
        cmd = [exe, "-runs=%d" % runs, "-seed=%d" % (seed * 100 + i + 1), "-max_len=%d" % cfg.get("fuzz_max_len", 4096),
               "-timeout=25", "-rss_limit_mb=3000", "-use_value_profile=%d" % (i % 2), "-print_final_stats=1",
               "-max_total_time=%d" % (300 if tier == "quick" else 3600),
               "-artifact_prefix=" + d + "/crash-", "-dict=" + os.path.join(HARNESS, "xml.dict"), d + "/corpus"]
        if i % 4 == 3:
            cmd.insert(1, "-only_ascii=1")
        rc, o, e = run_proc(cmd, 4200 if tier == "thorough" else 600, cwd=d, env=env)
        return i, d, rc, e

    with cf.ThreadPoolExecutor(n) as ex:
        results = list(ex.map(one, range(n)))
    units = feats = corp = 0
    for i, d, rc, e in results:
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", e)
        units += int(m.group(1)) if m else 0
        for m in re.finditer(r"cov: (\d+) ft: (\d+) corp: (\d+)", e):
            pass
        cov = re.findall(r"cov: (\d+) ft: (\d+) corp: (\d+)", e)
        if cov:
            rep.counters["max_fuzz_edges"] = max(rep.counters.get("max_fuzz_edges", 0), int(cov[-1][0]))
            feats = max(feats, int(cov[-1][1]))
            corp += int(cov[-1][2])
        if os.path.exists(d + "/stats.json"):
            rep.add_stats(d + "/stats.json", "f")
        if rc == 0:
            continue
        arts = glob.glob(d + "/crash-*")
        if arts:
            blob = open(arts[0], "rb").read()
            confirmed = False
            env = san_env()
            rc2, o2, e2 = run_proc([exe, "-timeout=75", "-rss_limit_mb=3000", arts[0]], 300, cwd=d, env=env)
            if rc2 == 0:
                rep.notes.append("fuzzer %d stopped (%s) but the input passes when run again" % (i, os.path.basename(arts[0])[:40]))
                continue
            e = e2
            mm = re.search(r"FUZZFAIL (\S+) ([^\n]*)", e)
            key = mm.group(1) if mm else crash_key(rc2, e)
            if "ALARM: working on the last" in e or "libFuzzer: timeout" in e:
                key = "hang"
            msg = "%s on a %d byte input: %s" % (key, len(blob), mm.group(2) if mm else summary_line(e))
            rep.violations.append({"key": key, "msg": msg, "tag": "fuzz%d" % i,
                                   "data": {"property": rep.prop, "key": key, "what": msg, "fuzz_input_hex": blob.hex(), "stderr": e[-12000:]}})
        elif rc == 96 or "LeakSanitizer" in e:
            rep.violations.append({"key": "leak", "msg": "leak: " + summary_line(e), "tag": "fuzz%d" % i, "data": {"property": rep.prop, "key": "leak", "stderr": e[-12000:]}})
        elif rc is None or rc == -9:
            rep.notes.append("fuzzer %d was ended (%s)" % (i, rc))
        else:
            raise CheckError("fuzzer %d ended with %s:\n%s" % (i, rc, e[-2000:]))
    rep.counters["fuzz_executions"] = units
    rep.counters["fuzz_corpus"] = corp
    rep.counters["max_fuzz_features"] = feats
    rep.evaluations += units


run_py = run_cpp


def known_findings():
    out = []
    f = os.path.join(VERIF, "known_findings.txt")
    for line in open(f):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
        if m:
            out.append(m.groups())
    return out


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        for t in ("g++", "clang++"):
            if not shutil.which(t):
                print("missing tool", t)
                return 1
        os.makedirs(BUILD, exist_ok=True)
        print("ready")
        return 0
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = PROPS[prop]
    t0 = time.time()
    work = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(work)
    rep = Report(prop)
    try:
        for part in cfg["parts"]:
            globals()["run_" + part](rep, cfg, tier, seed, work)
    except CheckError as e:
        print("ERROR", e)
        return 3
    finally:
        shutil.rmtree(work, ignore_errors=True)
    listed = [(k, w) for p, k, w in known_findings() if p == prop]
    new, seen = [], set()
    for v in rep.violations:
        hit = [w for k, w in listed if k == v["key"]]
        if hit:
            seen.add((v["key"], hit[0]))
        else:
            new.append(v)
    for k, w in sorted(seen):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": dict({
            "evaluations": rep.evaluations, "distinct_nontrivial": len(rep.distinct), "rule": rep.rule,
            "samples": rep.samples or ["(none)"], "observed": dict(sorted(rep.counters.items())),
            "instrumentation": cfg["instr"],
        }, **rep.extra),
        "assumptions": cfg.get("assume", []) + rep.notes,
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d evaluations, %d distinct non-trivial cases, %d violations, %.1f s" %
          (prop, tier, rep.evaluations, len(rep.distinct), len(new), time.time() - t0))
    for n in rep.notes:
        print("note:", n)
    shown = set()
    for v in new:
        if v["key"] in shown:
            continue
        shown.add(v["key"])
        f = save_replay(prop, v["data"], v["tag"])
        print("  %s: %s" % (v["key"], v["msg"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, f))
    if new:
        return 1
    # every run must have seen enough to mean anything
    if rep.evaluations < cfg.get("min_eval", 100) or len(rep.distinct) < cfg.get("min_distinct", 20):
        print("ERROR the run observed too little: %d evaluations, %d distinct" % (rep.evaluations, len(rep.distinct)))
        return 3
    for k in cfg.get("must_see", []):
        if not rep.counters.get(k):
            print("ERROR the run never observed:", k)
            return 3
    return 0


def replay(path):
    d = json.load(open(path))
    prop = d["property"]
    cfg = PROPS[prop]
    work = os.path.join(BUILD, "replay-%d" % os.getpid())
    os.makedirs(work)
    try:
        if "fuzz_input_hex" in d:
            exe = build("fuzz", cfg["fuzz_tus"], lib_opt="-O1", cxx="clang++", link_extra=("-fsanitize=fuzzer",), name="fz")
            f = os.path.join(work, "input")
            open(f, "wb").write(bytes.fromhex(d["fuzz_input_hex"]))
            rc, o, e = run_proc([exe, f], 600)
            print(o + e)
            return 1 if rc else 0
        if "harness_args" in d:
            exe, env = launcher(cfg, work)
            args = [a for a in d["harness_args"]]
            for k in ("--scratch", "--out", "--repo"):
                if k in args:
                    i = args.index(k)
                    del args[i:i + 2]
            rc, o, e = run_proc(exe + [prop, "--scratch", work, "--repo", REPO] + ([] if "--seed" in args else ["--seed", str(d["seed"])]) + args, 1200, cwd=work, env=env)
            print(o + e)
            return 1 if rc else 0
        if "valgrind_args" in d:
            exe = build("plain", cfg["tus"], cfg.get("defs", ()), lib_opt="-O1", tu_opt="-O1", name="vg")
            rc, o, e = run_proc(["valgrind", "-q", "--error-exitcode=99", exe, prop, "--scratch", work, "--repo", REPO] + d["valgrind_args"], 1200, cwd=work)
            print(o + e)
            return 1 if rc else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print(json.dumps(d, indent=1))
    return 1


if __name__ == "__main__":
    sys.exit(main())
