"""Compile C++ drivers that instantiate the real code of /repo: to LLVM IR (for the verifier) and natively (for replay)."""
import ctypes, hashlib, os, subprocess
from . import build, ir

SRC = f"{build.REPO}/quspin/basis/basis_general/_basis_general_core/source"
IRFLAGS = ["-O2", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-ffp-contract=off", "-fcx-limited-range",
           "-fsanitize=shift,integer-divide-by-zero", "-fsanitize-trap=all", "-mllvm", "-inline-threshold=100000",
           "-fno-discard-value-names", "-S", "-emit-llvm", "-w", "-fno-strict-aliasing"]


def incs(extra=()):
    out = []
    for i in list(extra) + build.includes():
        out += ["-I", i]
    return out


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=build._env())
    if r.returncode:
        raise build.BuildFailed("compile failed: " + " ".join(cmd[-6:]) + "\n" + r.stdout[:3000])


def tmpdir():
    d = f"/tmp/vf_cpp_{os.getpid()}"
    os.makedirs(d, exist_ok=True)
    return d


def to_ir(code, name, std="c++14", include=(SRC,), flags=(), drop=()):
    d = tmpdir()
    src, out = f"{d}/{name}.cpp", f"{d}/{name}.ll"
    with open(src, "w") as f:
        f.write(code)
    fl = [x for x in IRFLAGS if x not in drop]
    _run(["clang++", f"-std={std}"] + fl + list(flags) + incs(include) + [src, "-o", out])
    with open(out) as f:
        return ir.Module(f.read())


def native(code, name, std="c++14", include=(SRC,), flags=()):
    d = tmpdir()
    src, out = f"{d}/{name}_n.cpp", f"{d}/{name}.so"
    with open(src, "w") as f:
        f.write(code)
    _run(["clang++", f"-std={std}", "-O1", "-w", "-shared", "-fPIC", "-ffp-contract=off", "-fno-strict-aliasing"] +
         list(flags) + incs(include) + [src, "-o", out])
    return ctypes.CDLL(out)
