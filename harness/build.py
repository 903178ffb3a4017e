"""Make an importable copy of the package in /repo's working tree, extensions included.

The extension modules next to the sources are only reused when the stamp of the
build vouches for them (same sources, same binary); anything else is compiled
here, outside of /repo.
"""
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
COMMON = ["setup.py", "setup.cfg", "pyproject.toml", "README.md", "versioneer.py"]
CACHE = os.environ.get("VERIF_CACHE", "/tmp/verif-geotiepoints-cache")


def sha(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def _hashes(*patterns):
    paths = sorted(p for pat in patterns for p in glob.glob(os.path.join(REPO, pat), recursive=True)
                   if os.path.isfile(p))
    return {os.path.relpath(p, REPO): sha(p) for p in paths}


COMPILE = """
import sys, setuptools
import setup as S
names = set(sys.argv[1:])
exts = [e for e in S.EXTENSIONS if e.name in names]
assert len(exts) == len(names), (names, [e.name for e in S.EXTENSIONS])
setuptools.setup(name="x", version="0", script_args=["build_ext", "--inplace", "-j%d" % len(exts)],
                 ext_modules=exts, cmdclass={"build_ext": S.build_ext}, packages=["geotiepoints"])
"""


class BuildError(Exception):
    pass


def make(dest):
    """Put the package in dest, and return a description of what was done."""
    common = _hashes(*COMMON, *("geotiepoints/**/*." + e for e in ("pxd", "pxi", "h")))
    pyx = _hashes("geotiepoints/**/*.pyx")
    so = _hashes("geotiepoints/**/*.so")
    stamp = {}
    try:
        with open(os.path.join(REPO, "build/vp-stamp.json")) as f:
            stamp = json.load(f)
    except (OSError, ValueError):
        pass
    shutil.copytree(os.path.join(REPO, "geotiepoints"), os.path.join(dest, "geotiepoints"),
                    ignore=shutil.ignore_patterns("tests", "__pycache__", "*.so", "*.c", "*.cpp"))
    for name in COMMON:
        if os.path.exists(os.path.join(REPO, name)):
            shutil.copy2(os.path.join(REPO, name), dest)
    missing = []
    reused = []
    key = hashlib.sha256(json.dumps([common, sys.version]).encode()).hexdigest()[:12]
    for src, digest in pyx.items():
        stem = src[:-4]
        built = [p for p in so if p.startswith(stem + ".")]
        cached = glob.glob(os.path.join(CACHE, key + digest[:24], "*.so"))
        if (stamp.get("common") == common and stamp.get("pyx", {}).get(src) == digest and len(built) == 1
                and stamp.get("so", {}).get(built[0]) == so[built[0]]):
            shutil.copy2(os.path.join(REPO, built[0]), os.path.join(dest, os.path.dirname(src)))
            reused.append(src)
        elif len(cached) == 1:
            shutil.copy2(cached[0], os.path.join(dest, os.path.dirname(src)))
            reused.append(src)
        else:
            missing.append(src)
    if missing:
        names = [p[:-4].replace("/", ".") for p in missing]
        proc = subprocess.run([sys.executable, "-c", COMPILE] + names, cwd=dest, stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT, text=True, timeout=600)
        for src in missing:
            made = glob.glob(os.path.join(dest, src[:-4] + ".*.so"))
            if proc.returncode or len(made) != 1:
                raise BuildError(proc.stdout[-4000:])
            target = os.path.join(CACHE, key + pyx[src][:24])
            try:
                if not os.path.exists(target):
                    os.makedirs(CACHE, exist_ok=True)
                    tmp = tempfile.mkdtemp(dir=CACHE)
                    shutil.copy2(made[0], tmp)
                    os.rename(tmp, target)
            except OSError:
                pass
    return {"compiled": missing, "reused": reused}
