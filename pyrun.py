"""Builds the Python package from the working tree (with the stand-in of pybind11 in
harness/pyshim, under AddressSanitizer and UndefinedBehaviorSanitizer) and says how to start it."""
import glob
import hashlib
import os
import shutil
import subprocess

PYTHON = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python3"
FLAGS = ["-fPIC", "-fvisibility=hidden"]


def build_ext(m):
    """The extension module, compiled from src/wrapper.cpp and the library."""
    inc = subprocess.run([PYTHON, "-c", "import sysconfig; print(sysconfig.get_paths()['include'])"], stdout=subprocess.PIPE, text=True).stdout.strip()
    th, hh = m.tree_hash(), m.harness_hash()
    os.makedirs(m.BUILD, exist_ok=True)
    jobs, objs = [], []
    shim = ["-I" + os.path.join(m.HARNESS, "pyshim"), "-isystem", inc]
    for s in m.repo_sources() + [os.path.join(m.REPO, "src", "wrapper.cpp")]:
        w = s.endswith("wrapper.cpp")
        flags = m.COMMON + m.SAN["asan"] + ["-O1" if not w else "-O0"] + FLAGS + (shim if w else []) + m.repo_includes()
        hk = hashlib.sha256((" ".join(flags) + s + th + (hh if w else "")).encode()).hexdigest()[:24]
        obj = os.path.join(m.BUILD, "py-" + os.path.basename(s) + "-" + hk + ".o")
        jobs.append((["g++"] + flags + ["-c", s], obj))
        objs.append(obj)
    jobs.sort(key=lambda j: "wrapper" not in j[1])
    with m.cf.ThreadPoolExecutor(m.JOBS) as ex:
        errs = [e for e in ex.map(m.compile_one, jobs) if e]
    if errs:
        raise m.CheckError("the Python module does not compile:\n" + errs[0])
    so = os.path.join(m.BUILD, "_tinyfk-" + hashlib.sha256("".join(objs).encode()).hexdigest()[:24] + ".so")
    if not os.path.exists(so):
        e = m.compile_one((["g++", "-shared"] + m.SAN["asan"] + objs, so))
        if e:
            raise m.CheckError("linking the Python module failed:\n" + e)
    return so


def launcher(m, cfg, work):
    """(command prefix, environment) of one worker."""
    so = build_ext(m)
    pkg = os.path.join(work, "pkg", "tinyfk")
    os.makedirs(pkg)
    src = os.path.join(m.REPO, "python", "tinyfk")
    for f in glob.glob(os.path.join(src, "**", "*.py"), recursive=True):
        to = os.path.join(pkg, os.path.relpath(f, src))
        os.makedirs(os.path.dirname(to), exist_ok=True)
        shutil.copy(f, to)
    os.symlink(so, os.path.join(pkg, "_tinyfk.so"))
    home = os.path.join(work, "home")
    os.makedirs(os.path.join(home, ".tinyfk"))
    for n in ("pr2.urdf", "fetch.urdf"):
        shutil.copy(os.path.join(m.REPO, "data", n), os.path.join(home, ".tinyfk", n))
    env = m.san_env()
    pre = [subprocess.run(["g++", "-print-file-name=" + n], stdout=subprocess.PIPE, text=True).stdout.strip() for n in ("libasan.so", "libubsan.so", "libstdc++.so")]
    env["LD_PRELOAD"] = ":".join(pre)
    env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")
    env["HOME"] = home
    env["PYTHONPATH"] = os.path.join(work, "pkg")
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONMALLOC"] = "malloc"
    env["PYTHONHASHSEED"] = "0"
    for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        env[k] = "1"
    return [PYTHON] + cfg.get("py_flags", []) + [os.path.join(m.HARNESS, "py", "main.py")], env
