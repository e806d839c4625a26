"""Builds the complete Python package (all bindings, including those the sandbox's build leaves out) from /repo's tree."""
import os, glob, sysconfig, subprocess, shutil
from vlib import *

def ext(kokkos=False, flags=None, gpu=False):
    pyinc = [sysconfig.get_paths()["include"], "/usr/include/python3.12"]
    src = []
    for f in sorted(glob.glob(f"{REPO}/symmetrix/source/cpp/*.cpp")):
        if kokkos or "kokkos" not in os.path.basename(f): src.append(f)
    src += lib_sources()
    if kokkos: src += [*lib_sources(kokkos=True), f"{VERIF}/stubs/kokkos/mk.cpp"]
    fl = list(flags or ["-std=c++20", "-O2", "-march=x86-64-v3", "-ffast-math", "-w"]) + ["-fPIC", "-fvisibility=hidden"]
    inc = INC + [f"-I{p}" for p in pyinc]
    if kokkos: inc = [f"-I{VERIF}/stubs/kokkos", *inc, "-DSYMMETRIX_KOKKOS", *(["-DMK_GPU"] if gpu else [])]
    return build("symmetrix_ext" + ("_k" if kokkos else "") + ("gpu" if gpu else ""), src, fl, inc=inc, shared=True)

def package(where, so):
    """where/symmetrix: the module built + /repo's Python files (copied, so that nothing is written into /repo)"""
    d = f"{where}/symmetrix"
    shutil.copytree(f"{REPO}/symmetrix/source/symmetrix", d, ignore=shutil.ignore_patterns("__pycache__"))
    shutil.copy(so, d + "/symmetrix" + sysconfig.get_config_var("EXT_SUFFIX"))
    return where

KF = ["-std=c++20", "-O1", "-w"]
def all_exts():
    """the plain module, the module with Kokkos, and the module with Kokkos and separate device memory"""
    with cf.ThreadPoolExecutor(3) as ex:
        return [j.result() for j in (ex.submit(ext), ex.submit(ext, kokkos=True, flags=KF), ex.submit(ext, kokkos=True, flags=KF, gpu=True))]
