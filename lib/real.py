"""The compiled package for replays: /repo in place when its extensions match its sources, a scratch rebuild otherwise."""
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import sysconfig

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
SRC_EXT = (".pyx", ".pxd", ".h", ".c", ".cpp", ".hpp", ".pxi")


def digest(path):
    data = open(path, "rb").read()
    return None if data.startswith(b"/* Generated by Cython") else hashlib.sha256(data).hexdigest()


def hashes(root):
    found = {"build.py": digest(os.path.join(root, "build.py"))}
    for dp, _, fs in os.walk(os.path.join(root, "mmcore")):
        for f in fs:
            if f.endswith(SRC_EXT):
                p = os.path.join(dp, f)
                h = digest(p)
                if h:
                    found[os.path.relpath(p, root)] = h
    return found


def stale():
    """None when the in-place build is current; otherwise the list of changed files (or ['*'])"""
    try:
        old = json.load(open(os.path.join(REPO, "build", ".vp-state.json")))
    except (OSError, ValueError):
        return ["*"]
    new = hashes(REPO)
    ch = [p for p in sorted(set(old) | set(new)) if old.get(p) != new.get(p)]
    if not glob.glob(os.path.join(REPO, "mmcore", "geom", "nurbs*.so")):
        return ["*"]
    return ch or None


BUILDER = r'''
import sys, os, runpy, shutil
mode, changed = sys.argv[1], sys.argv[2].split(",")
sys.argv = ["build.py", "build_ext"]
ns = runpy.run_path("build.py", run_name="build")
exts = ns["extensions"]
full = any(c == "*" or not c.endswith(".pyx") for c in changed)
if not full:
    exts = [e for e in exts if any(s in changed for s in e.sources)]
exts = [e for e in exts if "triangle" not in e.name or any("triangle" in c for c in changed)]
dirs = dict(ns["compiler_directives"])
for e in exts:
    e.extra_compile_args = [a for a in e.extra_compile_args if not a.startswith("-O")] + ["-O1"]
    if mode == "asan":
        e.extra_compile_args += ["-fsanitize=address", "-g", "-fno-omit-frame-pointer"]
        e.extra_link_args = list(e.extra_link_args or []) + ["-fsanitize=address"]
from Cython.Build import cythonize
import numpy
mods = cythonize(exts, nthreads=8, include_path=[numpy.get_include()], compiler_directives=dirs, force=True, quiet=True)
from setuptools import Distribution
from setuptools.command.build_ext import build_ext
cmd = build_ext(Distribution({"ext_modules": mods}))
cmd.ensure_finalized()
cmd.parallel = 8
cmd.force = True
cmd.run()
for o in cmd.get_outputs():
    shutil.copyfile(o, os.path.relpath(o, cmd.build_lib))
'''


def scratch(mode, changed, tag):
    """a rebuilt copy of the package; the caller removes it"""
    root = f"/tmp/verif_real_{tag}_{os.getpid()}"
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    shutil.copytree(os.path.join(REPO, "mmcore"), os.path.join(root, "mmcore"), symlinks=True)
    for f in ("build.py", "pyproject.toml", "README.md"):
        if os.path.exists(os.path.join(REPO, f)):
            shutil.copy2(os.path.join(REPO, f), root)
    open(os.path.join(root, "_b.py"), "w").write(BUILDER)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", CFLAGS="", HOME="/root")
    p = subprocess.run([PY, "_b.py", mode, ",".join(changed)], cwd=root, env=env, capture_output=True, text=True, timeout=600)
    if p.returncode != 0:
        shutil.rmtree(root, ignore_errors=True)
        raise RuntimeError("replay build failed: " + (p.stdout + p.stderr)[-1500:])
    return root


def pyx_of(mods):
    out = []
    for m in mods:
        p = m.replace(".", "/") + ".pyx"
        if os.path.exists(os.path.join(REPO, p)):
            out.append(p)
    return out


def replay(root, jobs, asan=False, timeout=120, extra_env=None):
    """run replay.py on a list of jobs [{prop, case, tier, model, picks}] -> list of results"""
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", VERIF_REPLAY_ROOT=root, PYTHONHASHSEED="0")
    env.pop("LD_PRELOAD", None)
    if asan:
        lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
        std = subprocess.run(["gcc", "-print-file-name=libstdc++.so"], capture_output=True, text=True).stdout.strip()
        env.update(LD_PRELOAD=lib + " " + std, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=77", PYTHONMALLOC="malloc")
    env.update(extra_env or {})
    here = os.path.dirname(os.path.abspath(__file__))
    try:
        p = subprocess.run([PY, os.path.join(here, "replay.py"), "-"], input=json.dumps(jobs), env=env, capture_output=True, text=True,
                           timeout=timeout, cwd="/tmp")
    except subprocess.TimeoutExpired:
        return None, "timeout"
    out = [json.loads(l[7:]) for l in p.stdout.splitlines() if l.startswith("RESULT ")]
    return out, (p.stderr[-3000:], p.returncode)
