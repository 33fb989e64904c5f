"""Compiles sources of /repo together with wrappers of /verif/cpp into a scratch folder."""
import atexit, concurrent.futures as cf, hashlib, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VH_CACHE")  # development only: keep objects by preprocessed content
INC = [f"-isystem{VERIF}/cpp/shim", f"-I{VERIF}/cpp", f"-I{REPO}"] + [
    f"-I{REPO}/third_party{x}" for x in ("", "/stb/include", "/half/include", "/dlpack/include", "/xxHash/include", "/utfcpp/include", "/json")]
BASE = ["-std=c++20", "-fPIC", "-w", "-g1", "-DFMT_HEADER_ONLY", "-DMLLM_KERNEL_USE_THREADS=1", "-DMLLM_KERNEL_THREADS_VENDOR_OPENMP=1",
        "-DXXH_DISPATCH_ENABLE=1", "-fopenmp", "-mavx2", "-mfma", "-mf16c", "-DHWY_SHIM=1"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]


class BuildError(Exception):
    pass


def _one(args):
    src, obj, flags = args
    cc = ["gcc"] if src.endswith(".c") else ["g++"]
    fl = [f for f in flags if not (src.endswith(".c") and f.startswith("-std=c++"))]
    if CACHE:
        pre = subprocess.run(cc + fl + INC + ["-E", src], capture_output=True)
        if pre.returncode == 0:
            key = hashlib.sha256(pre.stdout + "\0".join(fl).encode()).hexdigest()
            c = os.path.join(CACHE, key + ".o")
            if os.path.exists(c):
                shutil.copy(c, obj)
                return None
    r = subprocess.run(cc + fl + INC + ["-c", src, "-o", obj], capture_output=True, text=True, errors="replace")
    if r.returncode:
        return f"{src}:\n{r.stderr[-3000:]}"
    if CACHE and pre.returncode == 0:
        os.makedirs(CACHE, exist_ok=True)
        shutil.copy(obj, c + f".{os.getpid()}")
        os.replace(c + f".{os.getpid()}", c)
    return None


def build(name, repo=(), wrap=(), flags=("-O1",), san=False, libs=(), shared=True, undefined=False, unity=(), jobs_n=8):
    """Path of a shared library (or program) built from repo- and verif-relative sources.

    unity: further repo-relative sources, compiled several per translation unit
    (or one by one should that not compile)."""
    out = tempfile.mkdtemp(prefix=f"vh_{name}_")
    me = os.getpid()
    atexit.register(lambda: os.getpid() == me and shutil.rmtree(out, ignore_errors=True))
    global _dirs
    _dirs.append((me, out))
    srcs = [os.path.join(REPO, s) for s in repo] + [os.path.join(VERIF, "cpp", s) for s in wrap]
    fl = BASE + list(flags) + (SAN if san else [])
    un = [os.path.join(REPO, s) for s in unity]
    groups = [un[k::8] for k in range(8) if un[k::8]]
    for k, g in enumerate(groups):
        srcs.insert(0, os.path.join(out, f"unity{k}.cpp"))
        open(srcs[0], "w").write("".join(f'#include "{f}"\n' for f in g))
    jobs = [(s, os.path.join(out, f"{i}.o"), fl) for i, s in enumerate(srcs)]
    with cf.ThreadPoolExecutor(jobs_n) as ex:
        res = list(ex.map(_one, jobs))
        if any(res[:len(groups)]):
            again = [(s, os.path.join(out, f"u{i}.o"), fl) for i, s in enumerate(un)]
            res = res[len(groups):] + list(ex.map(_one, again))
            jobs = jobs[len(groups):] + again
        errs = [e for e in res if e]
    if errs:
        raise BuildError("\n".join(errs)[:8000])
    so = os.path.join(out, f"{name}.so" if shared else name)
    cmd = ["g++"] + (["-shared"] if shared else []) + (["-Wl,--no-undefined"] if shared and not undefined and not san else []) + (SAN if san else []) + \
        ["-fopenmp", "-o", so] + [j[1] for j in jobs] + list(libs) + ["-lpthread"]
    r = subprocess.run(cmd, capture_output=True, text=True, errors="replace")
    for j in jobs:
        os.unlink(j[1])
    if r.returncode:
        raise BuildError(r.stderr[-6000:])
    return so


_dirs = []


def cleanup():
    for pid, d in _dirs:
        if pid == os.getpid():
            shutil.rmtree(d, ignore_errors=True)


def asan_env():
    """Environment under which a Python process can load a sanitized library."""
    lib = subprocess.run(["g++", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
    ub = subprocess.run(["g++", "-print-file-name=libubsan.so"], capture_output=True, text=True).stdout.strip()
    std = subprocess.run(["g++", "-print-file-name=libstdc++.so.6"], capture_output=True, text=True).stdout.strip()
    return {"LD_PRELOAD": f"{lib} {ub} {std}", "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=1:print_summary=0:symbolize=0:quarantine_size_mb=16",
            "UBSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:print_stacktrace=0"}
