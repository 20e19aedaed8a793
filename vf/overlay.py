"""Builds a scratch copy of /repo's working tree with its extensions."""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
CFLAGS = "-DPyUnicode_GetSize=PyUnicode_GetLength"
HYPO = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".cache")


def _native_sources(root):
    out = []
    for base, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            if f == "cexpressions.c":
                continue
            if f == "setup.py" or os.path.splitext(f)[1] in (
                    ".c", ".cpp", ".h", ".pyx", ".pxd", ".pxi"):
                out.append(os.path.join(base, f))
    return out


def build(use_cache=True):
    """Returns the scratch directory holding `electrode/` ready to import"""
    top = tempfile.mkdtemp(prefix="vf-electrode-")
    shutil.copytree(
        os.path.join(REPO, "electrode"), os.path.join(top, "electrode"),
        ignore=shutil.ignore_patterns("*.so", "cexpressions.c", "__pycache__",
                                      "*.pyc"))
    for f in os.listdir(REPO):
        p = os.path.join(REPO, f)
        if os.path.isfile(p):
            shutil.copy(p, os.path.join(top, f))
    h = hashlib.sha256(CFLAGS.encode())
    for f in _native_sources(top):
        h.update(os.path.relpath(f, top).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read() + b"\0")
    key = h.hexdigest()[:32]
    cached = os.path.join(CACHE, key)
    pkg = os.path.join(top, "electrode")
    if use_cache and os.path.isdir(cached):
        sos = [f for f in os.listdir(cached) if f.endswith(".so")]
        if len(sos) >= 2:
            for f in sos:
                shutil.copy(os.path.join(cached, f), os.path.join(pkg, f))
            return top
    env = dict(os.environ, CFLAGS=CFLAGS, PYTHONDONTWRITEBYTECODE="1",
               PIP_NO_INDEX="1", MPLBACKEND="Agg")
    env.pop("PYTHONPATH", None)
    r = subprocess.run([PY, "setup.py", "build_ext", "--inplace", "--force"],
                       cwd=top, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    sos = [f for f in os.listdir(pkg) if f.endswith(".so")]
    if r.returncode or len(sos) < 2:
        sys.stderr.write(r.stdout.decode(errors="replace")[-4000:])
        shutil.rmtree(top, ignore_errors=True)
        raise SystemExit("build of the extensions failed")
    shutil.rmtree(os.path.join(top, "build"), ignore_errors=True)
    if use_cache:
        try:
            os.makedirs(CACHE, exist_ok=True)
            tmp = tempfile.mkdtemp(dir=CACHE)
            for f in sos:
                shutil.copy(os.path.join(pkg, f), os.path.join(tmp, f))
            os.rename(tmp, cached)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return top


def environment(top):
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1",
               OMP_NUM_THREADS="1", MPLCONFIGDIR=os.path.join(top, "mpl"),
               VF_OVERLAY=top, PYTHONWARNINGS="ignore",
               HOME=os.path.join(top, "home"))
    env.pop("PYTHONPATH", None)
    os.makedirs(env["MPLCONFIGDIR"], exist_ok=True)
    os.makedirs(env["HOME"], exist_ok=True)
    return env


def activate(pure=False):
    """Inside a worker: make the overlay importable and check that it is
    what gets imported; `pure`: as if the compiled extensions were missing"""
    import warnings
    warnings.simplefilter("ignore")
    top = os.environ["VF_OVERLAY"]
    sys.path.insert(0, top)
    sys.path.append(HYPO)
    if pure:
        sys.modules["electrode.cexpressions"] = None
        sys.modules["electrode._transformations"] = None
    import electrode
    if not os.path.realpath(electrode.__file__).startswith(
            os.path.realpath(top) + os.sep):
        raise SystemExit("imported the wrong electrode: %s"
                         % electrode.__file__)
    if not pure:
        import electrode.cexpressions
    if not pure and not electrode.cexpressions.__file__.startswith(top):
        raise SystemExit("wrong cexpressions")
    import logging
    logging.getLogger("electrode").setLevel(logging.CRITICAL)
    return electrode
