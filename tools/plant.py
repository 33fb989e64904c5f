"""Development helper: writes /verif/seeded/<id>/ and confirms it (demo without/with the patch, stable tests, the property's check)."""
import json, os, shutil, subprocess, sys, textwrap
V, R = "/verif", "/repo"
PYSH = '''#!/bin/sh
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD:$PWD/mllm-kernel PYTHONDONTWRITEBYTECODE=1 HF_HUB_OFFLINE=1 TRANSFORMERS_OFFLINE=1 CUDA_VISIBLE_DEVICES= HOME=${HOME:-/root}
exec /opt/mllm-venv/bin/python "$D/demo.py"
'''
CPPSH = '''#!/bin/sh
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -O1 -g -w %s -DFMT_HEADER_ONLY -DMLLM_KERNEL_USE_THREADS=1 -DMLLM_KERNEL_THREADS_VENDOR_OPENMP=1 -fopenmp -mavx2 -mfma -mf16c -I"$D" -I. -Ithird_party \\
  -Ithird_party/stb/include -Ithird_party/half/include -Ithird_party/dlpack/include -Ithird_party/xxHash/include -Ithird_party/utfcpp/include -Ithird_party/json \\
  "$D/demo.cpp" %s %s -lpthread -o "$T/demo" || exit 4
cd "$T" && timeout 120 ./demo
'''
RTSH = '''#!/bin/sh
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
# the runtime as a library with the symbols it does not need left open
for f in "$D"/*.cpp; do
  g++ -std=c++20 -O1 -g -w -fPIC -Dmain=demo_main -DFMT_HEADER_ONLY -DMLLM_KERNEL_USE_THREADS=1 -DMLLM_KERNEL_THREADS_VENDOR_OPENMP=1 -fopenmp -mavx2 -mfma -mf16c -include random -include numeric \\
    -I"$D" -I. -Ithird_party -Ithird_party/stb/include -Ithird_party/half/include -Ithird_party/dlpack/include -Ithird_party/xxHash/include -Ithird_party/utfcpp/include -Ithird_party/json \\
    -c "$f" -o "$T/$(basename "$f").o" &
done
wait
g++ -shared -fopenmp -Wl,-z,lazy "$T"/*.o -lpthread -ldl -o "$T/demo.so" || exit 4
cd "$T" && timeout 120 env OMP_NUM_THREADS=2 /opt/mllm-venv/bin/python -c "import ctypes, os; r = ctypes.CDLL('$T/demo.so', os.RTLD_LAZY)._Z9demo_mainv(); ctypes.CDLL(None).fflush(None); os._exit(r)"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, errors="replace", **k)


def plant(id, prop, edits, demo, needs, breaks, lang="py", srcs="", libs="_build/libMllmCPUBackend.a _build/libMllmRT.a _build/libxxhash_static.a", flags="", extra=None, checks=None, tests=True):
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    shutil.rmtree(d)
    os.makedirs(d)
    assert not sh(f"git -C {R} status --porcelain --untracked-files=no").stdout, "repo dirty"
    demo = textwrap.dedent(demo).lstrip("\n")
    open(f"{d}/demo.{lang}", "w").write(demo)
    open(f"{d}/demo.sh", "w").write(PYSH if lang == "py" else RTSH if srcs == "rt" else CPPSH % (flags, srcs, libs))
    for k, v in (extra or {}).items():
        os.makedirs(os.path.dirname(f"{d}/{k}"), exist_ok=True)
        open(f"{d}/{k}", "w").write(textwrap.dedent(v).lstrip("\n"))
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    a = sh(f"timeout 300 sh {d}/demo.sh", cwd=R)
    print(f"== {id} [{prop}] demo unpatched rc={a.returncode}", (a.stdout + a.stderr)[-1500:] if a.returncode else "", flush=True)
    if a.returncode:
        return False
    try:
        for f, old, new in edits:
            s = open(f"{R}/{f}").read()
            assert s.count(old) == 1, f"{f}: {s.count(old)} matches of {old!r}"
            open(f"{R}/{f}", "w").write(s.replace(old, new))
        open(f"{d}/patch.diff", "w").write(sh(f"git -C {R} diff").stdout)
        if lang == "cpp" or tests:
            b = sh("bash /opt/vp/build.sh")
            if b.returncode:
                print("  BUILD FAILS", b.stdout[-2000:], b.stderr[-1000:])
                return False
        b = sh(f"timeout 300 sh {d}/demo.sh", cwd=R)
        print(f"   demo patched rc={b.returncode}", (b.stdout + b.stderr)[-300:].strip(), flush=True)
        if tests:
            sh("bash /opt/vp/test.sh /tmp/plant_o.json")
            base, o = json.load(open("/opt/vp/BASELINE.json")), json.load(open("/tmp/plant_o.json"))
            lost = set(base["stable"]) - set(o["passed"])
            print("   stable tests:", "all pass" if not lost else f"LOST {lost}", flush=True)
        man = {c["property"]: c for c in json.load(open(f"{V}/MANIFEST.json"))["checks"]}
        for p in checks or [prop]:
            if p in man:
                c = sh(man[p]["quick_cmd"], cwd=V, env={**os.environ, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
                print(f"   check {p}: rc={c.returncode}", "CAUGHT" if c.returncode == 1 and "VIOLATION property=" + p in c.stdout else "MISSED",
                      c.stdout[-400:].strip(), flush=True)
    finally:
        sh(f"git -C {R} checkout -- .")
        if lang == "cpp":
            sh("bash /opt/vp/build.sh")
    return True
