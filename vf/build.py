"""Where to import QuSpin from, such that the compiled extensions match /repo's current sources.

/repo's own .so files are used when build/inputs.json (written by the build) says they were made from exactly the
sources that are there now; otherwise a scratch copy of the package is made and the stale extensions are rebuilt
in it with Cython and clang++.  Nothing is written below /repo."""
import hashlib, json, os, re, shutil, subprocess, sys, sysconfig, time, fcntl
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VF_REPO", "/repo")
QPY = "/opt/venv/bin/python"
CACHE = "/tmp/vf_cache"
SUF = ".cpython-312-x86_64-linux-gnu.so"
G = "quspin/basis/basis_general/_basis_general_core"
D1 = "quspin/basis/basis_1d/_basis_1d_core"
EX = "quspin/tools/expm_multiply_parallel_core"
MV = "quspin/tools/matvec"
# (extension without suffix, include dirs, extra args)
EXTS = [(f"{G}/{n}", [f"{G}/source"], ["-std=c++11"]) for n in
        ("hcb_core", "higher_spin_core", "boson_core", "spinless_fermion_core", "spinful_fermion_core", "user_core",
         "general_basis_utils")]
EXTS += [(f"{D1}/{n}", [f"{D1}/sources"], []) for n in
         ("hcp_ops", "spf_ops", "boson_ops", "hcp_basis", "spf_basis", "boson_basis")]
EXTS += [("quspin/basis/_basis_utils", ["quspin/basis/_basis_utils"], []),
         (f"{EX}/expm_multiply_parallel_wrapper", [f"{EX}/source", f"{MV}/_oputils"], []),
         (f"{EX}/csr_matvec_wrapper", [f"{EX}/source", f"{MV}/_oputils"], []),
         (f"{MV}/_oputils", [f"{MV}/_oputils"], [])]

_inc_re = re.compile(r'^\s*(?:#\s*include\s*[<"]([^>"]+)[>"]|include\s+["\']([^"\']+)["\']|cdef\s+extern\s+from\s+["\']'
                     r'([^"\']+)["\']|from\s+(\S+)\s+cimport|cimport\s+(\S+))', re.M)


class BuildFailed(Exception):
    pass


def sha(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def closure(root, ext, incs):
    """Every repository text file the extension's object depends on (textual includes, transitively)."""
    todo = [os.path.join(root, ext + ".pyx")]
    pxd = os.path.join(root, ext + ".pxd")
    if os.path.exists(pxd):
        todo.append(pxd)
    seen = set()
    while todo:
        p = os.path.normpath(todo.pop())
        if p in seen or not os.path.isfile(p):
            continue
        seen.add(p)
        txt = open(p, encoding="utf-8", errors="replace").read()
        for m in _inc_re.finditer(txt):
            name = next(g for g in m.groups() if g)
            cands = [name]
            if m.group(4) or m.group(5):
                cands = [name.lstrip(".").replace(".", "/") + ".pxd"]
            for c in cands:
                for d in [os.path.dirname(p), os.path.dirname(os.path.join(root, ext))] + [os.path.join(root, i) for i in incs]:
                    f = os.path.join(d, c)
                    if os.path.isfile(f):
                        todo.append(f)
    return sorted(seen)


def _env():
    e = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "PYTHONHOME", "CFLAGS", "CXXFLAGS")}
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", LANG="C.UTF-8", OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", KMP_DUPLICATE_LIB_OK="TRUE", MPLBACKEND="Agg",
             MPLCONFIGDIR="/tmp/vf_mpl", PYTHONHASHSEED="0")
    return e


def includes():
    if not hasattr(includes, "v"):
        npi = subprocess.run([QPY, "-c", "import numpy;print(numpy.get_include());import sysconfig;"
                              "print(sysconfig.get_paths()['include'])"], check=True, stdout=subprocess.PIPE,
                             text=True, env=_env()).stdout.split()
        includes.v = npi
    return includes.v


def tree_copy(dst):
    """Text sources of the package (no build products)."""
    src = os.path.join(REPO, "quspin")
    def ig(d, names):
        out = set()
        for n in names:
            if n == "__pycache__" or n.endswith((".so", ".pyc", ".c", ".o")) or (n.endswith(".cpp")):
                out.add(n)
        return out
    shutil.copytree(src, os.path.join(dst, "quspin"), ignore=ig)


def generate(root):
    for g in (f"{MV}/generate_oputils.py", f"{EX}/generate_source.py"):
        r = subprocess.run([QPY, os.path.join(root, g)], cwd=root, env=_env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildFailed(f"{g}: {r.stdout[-2000:]}")


def cython_to_cpp(root, ext, incs):
    out = os.path.join(root, ext + ".cpp")
    # as the repository's build does: module name and relative cimports follow from the package layout
    code = ("import sys\nfrom Cython.Build import cythonize\n"
            "cythonize([sys.argv[1]],include_path=sys.argv[2:],language_level=2,quiet=True,force=True)\n")
    r = subprocess.run([QPY, "-W", "ignore", "-c", code, ext + ".pyx"] + incs + [includes()[0]], cwd=root, env=_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(out):
        raise BuildFailed(f"cython {ext}: {r.stdout[-3000:]}")
    return out


def build_ext(root, ext, incs, args):
    t = time.time()
    cpp = cython_to_cpp(root, ext, incs)
    cmd = ["clang++", "-w", "-fPIC", "-shared", "-O0", "-fno-strict-aliasing", "-ffp-contract=off"] + args
    if "matvec" in ext or "expm" in ext or ext.endswith(("_oputils", "general_basis_utils")):
        # general_basis_utils: PyArray_GETPTR1 on 0-d arrays reads a null strides pointer unless the dead load is removed
        cmd[cmd.index("-O0")] = "-O1"
    for i in incs:
        cmd += ["-I", os.path.join(root, i)]
    for i in includes():
        cmd += ["-I", i]
    cmd += [cpp, "-o", os.path.join(root, ext + SUF)]
    r = subprocess.run(cmd, cwd=root, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=_env())
    if r.returncode:
        raise BuildFailed(f"c++ {ext}: {r.stdout[-3000:]}")
    return time.time() - t


def stale_exts(root):
    """Extensions whose .so in REPO is missing or was not built from the sources in root (a copy of REPO)."""
    try:
        rec = json.load(open(os.path.join(REPO, "build", "inputs.json")))
    except (OSError, ValueError):
        rec = {}
    out = []
    for ext, incs, args in EXTS:
        ok = os.path.exists(os.path.join(REPO, ext + SUF))
        if ok:
            for p in closure(root, ext, incs):
                rel = os.path.relpath(p, root)
                was = rec.get(os.path.join("/repo", rel)) or rec.get(os.path.join(REPO, rel))
                if not was or was[0] != sha(p):
                    ok = False
                    break
        if not ok:
            out.append((ext, incs, args))
    return out


def tree_hash():
    h = hashlib.sha256()
    files = []
    for d, ds, fs in os.walk(os.path.join(REPO, "quspin")):
        ds[:] = [x for x in ds if x != "__pycache__"]
        for f in fs:
            if f.endswith((".py", ".pyx", ".pxd", ".pxi", ".h", ".hpp")):
                files.append(os.path.join(d, f))
    for f in sorted(files):
        h.update(os.path.relpath(f, REPO).encode() + b"\0" + sha(f).encode())
    try:
        h.update(open(os.path.join(REPO, "build", "inputs.json"), "rb").read())
    except OSError:
        pass
    return h.hexdigest()[:24]


def package(log=None):
    """Directory to put first on sys.path (with QPY) so that quspin is /repo's current source, freshly compiled.
    Always a scratch copy, so that nothing is ever written under /repo. Cached by content within this sandbox."""
    log = log or (lambda *a: None)
    key = tree_hash()
    os.makedirs(CACHE, exist_ok=True)
    dst = os.path.join(CACHE, "pkg_" + key)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dst, "OK")):
            return dst
        # keep the cache small
        olds = sorted((os.path.join(CACHE, d) for d in os.listdir(CACHE) if d.startswith("pkg_")), key=os.path.getmtime)
        for d in olds[:-4]:
            shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        tree_copy(dst)
        generate(dst)
        stale = stale_exts(dst)
        for ext, _, _ in EXTS:
            if not any(ext == s[0] for s in stale):
                shutil.copy2(os.path.join(REPO, ext + SUF), os.path.join(dst, ext + SUF))
        if stale:
            log(f"rebuilding {len(stale)} extension(s): " + ", ".join(os.path.basename(s[0]) for s in stale))
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(lambda s: build_ext(dst, *s), stale))
        with open(os.path.join(dst, "OK"), "w") as f:
            json.dump({"rebuilt": [s[0] for s in stale]}, f)
    return dst


if __name__ == "__main__":
    t = time.time()
    print(package(print), round(time.time() - t, 1))
