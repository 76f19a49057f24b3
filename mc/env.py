"""Make /repo's current working tree importable, with its C++ kernel compiled
out of tree from the current sources (never written into /repo)."""
import hashlib
import importlib.util
import os
import subprocess
import sys
import sysconfig
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, ".build")


def prepare():
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    sys.dont_write_bytecode = True
    import logging
    logging.disable(logging.CRITICAL)
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    # forcepho/_version.py is generated by the build and git-ignored; it is empty
    # of behaviour, so stand in for it when it has not been generated
    if not os.path.exists(os.path.join(REPO, "forcepho", "_version.py")):
        v = types.ModuleType("forcepho._version")
        v.__version__ = v.version = "0"
        sys.modules["forcepho._version"] = v


def _src_hash():
    d = os.path.join(REPO, "forcepho", "src")
    h = hashlib.sha256()
    for f in sorted(os.listdir(d)):
        if f.endswith(".so") or not os.path.isfile(os.path.join(d, f)):
            continue
        h.update(f.encode() + b"\0")
        with open(os.path.join(d, f), "rb") as fo:
            h.update(fo.read() + b"\0")
    return h.hexdigest()[:16]


def build_kernel(sanitize=False):
    """compile forcepho/src/compute_gaussians_kernel.cc; returns the .so path"""
    import pybind11
    tag = _src_hash() + ("-asan" if sanitize else "")
    out = os.path.join(BUILD, tag)
    so = os.path.join(out, "compute_gaussians_kernel" + sysconfig.get_config_var("EXT_SUFFIX"))
    if os.path.exists(so):
        return so
    os.makedirs(out, exist_ok=True)
    src = os.path.join(REPO, "forcepho", "src")
    tmp = so + f".tmp{os.getpid()}"
    cmd = ["g++", "-O3" if not sanitize else "-O1", "-g0" if not sanitize else "-g", "-std=c++11", "-fPIC",
           "-shared", "-DNDEBUG", "-w", "-fvisibility=hidden",
           "-I" + pybind11.get_include(), "-I" + sysconfig.get_paths()["include"], "-I" + src,
           os.path.join(src, "compute_gaussians_kernel.cc"), "-o", tmp]
    if sanitize:
        cmd[1:1] = ["-fsanitize=address", "-fno-omit-frame-pointer"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stderr[-4000:])
        raise RuntimeError("the kernel does not compile")
    os.replace(tmp, so)
    return so


def load_kernel(sanitize=False):
    """compile if needed and register as forcepho.src.compute_gaussians_kernel"""
    name = "forcepho.src.compute_gaussians_kernel"
    so = build_kernel(sanitize)
    spec = importlib.util.spec_from_file_location(name, so)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    sys.modules[name] = mod
    import forcepho
    try:
        import forcepho.src
        forcepho.src.compute_gaussians_kernel = mod
    except ImportError:
        pkg = types.ModuleType("forcepho.src")
        pkg.__path__ = [os.path.join(REPO, "forcepho", "src")]
        pkg.compute_gaussians_kernel = mod
        sys.modules["forcepho.src"] = pkg
        forcepho.src = pkg
    return mod


if __name__ == "__main__":
    prepare()
    print(build_kernel())
