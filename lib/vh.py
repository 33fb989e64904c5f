"""Shared harness for the generated-input checks of this directory.

A check is a list of Parts.  A Part has a generator `gen(src)` that builds a
JSON-able case out of recorded choices, and a function `run(case, st)` that
exercises the code in /repo and raises on a violated expectation.  `st` (Stats)
is how a case says it was non-trivial (`st.hit("label")`).  Parts are sharded
over forked processes; every random choice derives from VERIF_SEED.  A failing
case is shrunk on its choices, repeated three times in fresh processes and
written to /verif/replays/; `<check> --replay FILE` runs that case again.
"""
from __future__ import annotations

import argparse
import hashlib
import json
import mmap
import multiprocessing as mp
import os
import random
import select
import signal
import struct
import subprocess
import sys
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/mllm-venv/bin/python"
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def reexec(san=False):
    """Run under the interpreter that has mllm's Python dependencies."""
    want = {
        "HF_HUB_OFFLINE": "1", "TRANSFORMERS_OFFLINE": "1", "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1", "OMP_WAIT_POLICY": "passive", "MKL_NUM_THREADS": "1",
        "TOKENIZERS_PARALLELISM": "false", "CUDA_VISIBLE_DEVICES": "",
        "PYTHONPATH": f"{REPO}:{REPO}/mllm-kernel",
    }
    if os.environ.get("VH_REEXEC") != "1":
        env = dict(os.environ, VH_REEXEC="1", **want)
        if san:
            import cppbuild
            env.update(cppbuild.asan_env())
        env.setdefault("HOME", "/root")
        env.setdefault("LANG", "C.UTF-8")
        os.execve(PY, [PY] + sys.argv, env)
    if HYP not in sys.path:
        sys.path.append(HYP)


def seed() -> int:
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return zlib.crc32(os.environ["VERIF_SEED"].encode())


def tier() -> str:
    return "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.labels = {}
        self._hit = False

    def hit(self, label="nontrivial", n=1):
        self._hit = True
        self.labels[label] = self.labels.get(label, 0) + n

    def note(self, label, n=1):
        """Count something without calling the case non-trivial."""
        self.labels[label] = self.labels.get(label, 0) + n


class Violation(AssertionError):
    pass


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def eq(got, want, what):
    if got != want:
        raise Violation(f"{what}: got {short(got)}, want {short(want)}")


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


class Src:
    """A recorded sequence of bounded integer choices; cases are built from it.

    Random mode draws choices, replay mode reads them (0 once they run out), so
    that shrinking works on the choices and every shrunk case is a valid one.
    """

    def __init__(self, rng=None, choices=()):
        self.rng, self.src, self.pos = rng, choices, 0
        self.out, self.spans = [], []

    def _take(self, width, pick):
        if self.rng is not None:
            c = pick()
        else:
            c = self.src[self.pos] if self.pos < len(self.src) else 0
            self.pos += 1
            c = c if 0 <= c <= width else width
        self.out.append(c)
        return c

    def int(self, lo, hi):
        w = hi - lo
        return lo + self._take(w, lambda: self.rng.randint(0, w))

    def edge(self, lo, hi):
        """An integer with its bounds drawn more often."""
        w = hi - lo
        return lo + self._take(w, lambda: self.rng.choice((0, w, min(1, w), max(0, w - 1))) if self.rng.random() < .2 else self.rng.randint(0, w))

    def log(self, lo, hi):
        """An integer whose magnitude is uniform."""
        w = hi - lo

        def pick():
            b = self.rng.randint(0, w.bit_length())
            return min(w, self.rng.getrandbits(b) if b else 0)
        return lo + self._take(w, pick)

    def bool(self, p=0.5):
        return bool(self._take(1, lambda: int(self.rng.random() < p)))

    def choice(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def weighted(self, pairs):
        """pairs: [(weight, value)], the first is the simplest."""
        ws = [w for w, _ in pairs]
        return pairs[self._take(len(pairs) - 1, lambda: self.rng.choices(range(len(pairs)), ws)[0])][1]

    def real(self, lo, hi, steps=1000):
        return lo + (hi - lo) * self.int(0, steps) / steps

    def list(self, fn, lo, hi):
        out = []
        n = self.rng.randint(lo, hi) if self.rng is not None else None
        while len(out) < hi:
            start = len(self.out)
            if len(out) >= lo and not self._take(1, lambda: int(len(out) < n)):
                break
            out.append(fn(self))
            self.spans.append((start, len(self.out)))
        return out

    def ints(self, lo, hi, n0, n1):
        return self.list(lambda s: s.int(lo, hi), n0, n1)

    def perm(self, seq):
        seq, out = list(seq), []
        while seq:
            out.append(seq.pop(self.int(0, len(seq) - 1)))
        return out

    def text(self, alphabet, n0, n1):
        return "".join(self.list(lambda s: s.choice(alphabet), n0, n1))

    def seed(self):
        """A seed for bulk data (tensor contents), where element-wise shrinking is of no use."""
        return self.int(0, 2**31 - 1)


class Part:
    """gen(Src) -> JSON-able case; run(case, Stats) raises when the property fails."""

    def __init__(self, name, gen, run, quick, thorough=None, shards=4, cpu_limit=60):
        self.name, self.gen, self.run = name, gen, run
        self.quick, self.thorough = quick, thorough or quick * 20
        self.shards, self.cpu_limit = shards, cpu_limit


def _case_key(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True, default=repr).encode(), digest_size=8).hexdigest()


class _Slow(Violation):
    pass


def _attempt(part, case, st):
    """None, or (message, traceback) of the failure."""
    def on_alarm(*_):
        raise _Slow(f"the case used more than {part.cpu_limit} s of CPU time")
    signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, part.cpu_limit)
    try:
        part.run(json.loads(json.dumps(case)), st)
        return None
    except BaseException as e:  # noqa: SystemExit from the code under test counts too
        return f"{type(e).__name__}: {e}", traceback.format_exc()[-3000:]
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _shrink(choices, spans, fails, deadline):
    """Minimise a choice list; fails(choices) -> (bool, actual choices, spans)."""
    best, bs = list(choices), list(spans)

    def attempt(c):
        nonlocal best, bs
        if time.time() > deadline:
            return False
        ok, used, sp = fails(c)
        if ok and (len(used), used) < (len(best), best):
            best, bs = list(used), list(sp)
            return True
        return False
    improved = True
    while improved and time.time() < deadline:
        improved = False
        # whole list elements, biggest first
        i = 0
        cand = sorted(bs, key=lambda s: s[0] - s[1])
        while i < len(cand) and time.time() < deadline:
            a, b = cand[i]
            if b <= len(best) and attempt(best[:a] + best[b:]):
                improved = True
                cand = sorted(bs, key=lambda s: s[0] - s[1])
                continue
            i += 1
        for k in (16, 8, 4, 2, 1):
            i = len(best) - k
            while i >= 0 and time.time() < deadline:
                if attempt(best[:i] + best[i + k:]):
                    improved = True
                i -= k if k > 1 else 1
        i = 0
        while i < len(best) and time.time() < deadline:
            v = best[i]
            if v:
                lo, hi = 0, v  # smallest failing value, assuming monotone
                if attempt(best[:i] + [0] + best[i + 1:]):
                    improved = True
                else:
                    while hi - lo > 1 and i < len(best) and time.time() < deadline:
                        mid = (lo + hi) // 2
                        if attempt(best[:i] + [mid] + best[i + 1:]):
                            hi = mid
                            improved = True
                        else:
                            lo = mid
            i += 1
    return best


def _src(part, idx, i):
    base = (seed() * 1000003 + zlib.crc32(part.name.encode()) * 31 + idx) & 0xFFFFFFFFFFFF
    return Src(rng=random.Random(base * 1000003 + i))


def _shard(part, idx, n_examples, budget_s, conn, shrink_s, box):
    try:
        import torch
        torch.set_num_threads(1)
    except Exception:
        pass
    st = Stats()
    t0 = time.time()
    fail, truncated, err, kdist = None, False, None, 0

    def put(case):
        if box is not None:
            b = json.dumps(case, default=repr).encode()
            if len(b) + 16 <= len(box):
                box[8:8 + len(b)] = b
                box[0:8] = struct.pack("<q", len(b))
            else:
                box[0:8] = struct.pack("<q", -1)
    for i in range(n_examples):
        if time.time() - t0 > budget_s:
            truncated = True
            break
        src = _src(part, idx, i)
        if box is not None:
            box[-8:] = struct.pack("<q", i)
        try:
            case = part.gen(src)
        except BaseException:  # noqa
            err = "harness error in generator: " + traceback.format_exc()[-3000:]
            break
        put(case)
        st.evaluations += 1
        st._hit = False
        f = _attempt(part, case, st)
        if f is not None:
            dead = time.time() + shrink_s
            final = {"case": case, "err": f[0], "tb": f[1]}
            orig = dict(final)

            def fails(ch):
                s2 = Src(choices=ch)
                try:
                    c2 = part.gen(s2)
                except BaseException:  # noqa
                    return False, ch, []
                put(c2)
                r = _attempt(part, c2, Stats())
                if r is None or "_Slow" in r[0]:
                    return False, ch, []
                final.update(case=c2, err=r[0], tb=r[1])
                return True, s2.out, s2.spans
            if "_Slow" not in f[0]:
                _shrink_best = _shrink(src.out, src.spans, fails, dead)
                c2 = part.gen(Src(choices=_shrink_best))
                r = _attempt(part, c2, Stats())
                if r is not None:
                    final.update(case=c2, err=r[0], tb=r[1])
                else:
                    final = orig
            fail = dict(final, orig=orig["case"], orig_err=orig["err"])
            break
        if st._hit:
            k = _case_key(case)
            if k not in st.distinct:
                st.distinct.add(k)
                if len(st.samples) < 2 or (len(st.samples) < 3 and len(st.distinct) > 50):
                    st.samples.append(json.loads(json.dumps(case, default=repr)))
    out = dict(part=part.name, shard=idx, evaluations=st.evaluations, distinct=list(st.distinct)[:400000],
               samples=st.samples, labels=st.labels, fail=fail, err=err, wall=time.time() - t0, truncated=truncated)
    conn.send(out)
    conn.close()
    os._exit(0)


def _quiet():
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.filterwarnings("ignore")


def _in_child(part, case, wall=120):
    """Run one case in a forked child; None when it holds, else a message."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            f = _attempt(part, case, Stats())
            os.write(w, b"ok" if f is None else ("F" + f[0])[:60000].encode(errors="replace"))
        finally:
            os._exit(0)
    os.close(w)
    buf, t0 = b"", time.time()
    while True:
        rd, _, _ = select.select([r], [], [], 1.0)
        if rd:
            b = os.read(r, 65536)
            if not b:
                break
            buf += b
        elif time.time() - t0 > wall:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return "the case does not finish"
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if buf == b"ok":
        return None
    if buf[:1] == b"F":
        return buf[1:].decode(errors="replace")
    return f"the process died (wait status {status})"


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["findings"] if f["property"] == prop and f.get("status", "open") == "open"]


def write_replay(prop, part, case, err):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}-{part}-{_case_key(case)}.json")
    with open(p, "w") as f:
        json.dump({"property": prop, "part": part, "case": case, "error": err}, f, indent=1, default=repr)
    return p


def write_evidence(prop, coverage, wall, violations, assumptions=(), level="exploration"):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = {"property": prop, "tier": tier(), "seed": seed(), "level": level, "coverage": coverage,
          "assumptions": list(assumptions), "wall_s": round(wall, 2), "violations": violations}
    tmp = os.path.join(d, f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    os.replace(tmp, os.path.join(d, f"{prop}.json"))


def run_parts(parts, jobs=8, budget_s=None, shrink_s=20.0):
    """Run every part's shards; return list of shard results."""
    thorough = tier() == "thorough"
    budget = budget_s or (600.0 if thorough else 60.0)
    work = []
    for p in parts:
        n = p.thorough if thorough else p.quick
        sh = max(1, min(p.shards if not thorough else 8, n))
        for i in range(sh):
            work.append((p, i, max(1, n // sh)))
    ctx = mp.get_context("fork")
    running, results = [], []
    queue = list(work)

    def died(p, i, t, box, why):
        n = struct.unpack("<q", box[0:8])[0]
        r = dict(part=p.name, shard=i, evaluations=0, distinct=[], samples=[], labels={}, fail=None, err=None, wall=time.time() - t, truncated=False)
        if n > 0:
            c = json.loads(bytes(box[8:8 + n]).decode())
            case = c
            if "died" in why and shrink_s:  # shrink in fresh children
                def fails(ch):
                    s2 = Src(choices=ch)
                    try:
                        c2 = p.gen(s2)
                    except BaseException:  # noqa
                        return False, ch, []
                    return _in_child(p, c2, wall=30) is not None, s2.out, s2.spans
                src = _src(p, i, struct.unpack("<q", box[-8:])[0])
                if json.loads(json.dumps(p.gen(src), default=repr)) == c:
                    best = _shrink(src.out, src.spans, fails, time.time() + 2 * shrink_s)
                    case = p.gen(Src(choices=best))
            r["fail"] = dict(case=case, err=why, tb="", orig=c, orig_err=why)
        else:
            r["err"] = why
        return r
    while queue or running:
        while queue and len(running) < jobs:
            p, i, n = queue.pop(0)
            r, w = ctx.Pipe(False)
            box = mmap.mmap(-1, 1 << 20)
            pr = ctx.Process(target=_shard, args=(p, i, n, budget, w, shrink_s, box))
            pr.start()
            w.close()
            running.append((p, i, pr, r, time.time(), box))
        nxt = []
        for p, i, pr, r, t, box in running:
            done = False
            if r.poll(0.01):
                try:
                    results.append(r.recv())
                except EOFError:
                    pr.join()
                    results.append(died(p, i, t, box, f"the process died with exit code {pr.exitcode}"))
                done = True
            elif time.time() - t > budget + shrink_s + p.cpu_limit + 60:
                pr.kill()
                results.append(died(p, i, t, box, "a generated case did not finish"))
                done = True
            if done:
                r.close()
                pr.join()
                box.close()
            else:
                nxt.append((p, i, pr, r, t, box))
        running = nxt
    return results


def _exit(code):
    sys.stdout.flush()
    sys.stderr.flush()
    if "cppbuild" in sys.modules:
        sys.modules["cppbuild"].cleanup()
    os._exit(code)


def main(prop, parts, rule, assumptions=(), jobs=8, budget_s=None, extra=None):
    """parts: list of Part (or callable returning it, after imports)."""
    ap = argparse.ArgumentParser()
    ap.add_argument("--replay")
    ap.add_argument("--part")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--show", type=int, default=0, help="print this many generated cases per part and stop")
    a = ap.parse_args()
    t0 = time.time()
    _quiet()
    setup_error = None
    try:
        if callable(parts):
            parts = parts()
    except BaseException as e:  # the code under test cannot even be imported or set up
        setup_error = f"{type(e).__name__}: {e}"
        traceback.print_exc()
    if setup_error is not None:
        p = write_replay(prop, "setup", {"setup": True}, setup_error)
        write_evidence(prop, {"evaluations": 1, "distinct_nontrivial": 0, "rule": rule, "samples": [setup_error]}, time.time() - t0, 1, assumptions)
        print(f"VIOLATION property={prop} replay={p}")
        sys.exit(1)
    byname = {p.name: p for p in parts}
    if a.show:
        for p in parts:
            if a.part and p.name not in a.part.split(","):
                continue
            for i in range(a.show):
                print(p.name, json.dumps(p.gen(Src(rng=random.Random(i)))))
        sys.exit(0)
    if a.replay:
        r = json.load(open(a.replay))
        if r["part"] not in byname:
            print("replay: setup works now")
            sys.exit(0)
        try:
            byname[r["part"]].run(r["case"], Stats())
        except BaseException:
            traceback.print_exc()
            print(f"VIOLATION property={prop} replay={a.replay}")
            sys.stdout.flush()
            _exit(1)
        print("replay: the case holds")
        sys.stdout.flush()
        _exit(0)
    if a.part:
        parts = [byname[x] for x in a.part.split(",")]
    for f in load_known(prop):  # recorded findings: exact cases, run first
        if f.get("part") in byname and "case" in f:
            os.environ["VH_KNOWN"] = f["id"]
            if _in_child(byname[f["part"]], f["case"]) is not None:
                print(f"KNOWN-FINDING: property={prop} {f['what']}")
            os.environ.pop("VH_KNOWN", None)
    results = run_parts(parts, jobs=jobs, budget_s=budget_s)
    cov, viol, errs = merge(parts, results, rule)
    n = 0
    seen = set()
    for part, fail in viol:
        if part in seen:
            continue
        # a failure counts when it repeats in fresh processes
        case, err = None, None
        for c, e in ((fail["case"], fail["err"]), (fail["orig"], fail["orig_err"])):
            rs = [_in_child(byname[part], c, wall=byname[part].cpu_limit + 60) for _ in range(3 if "not finish" not in e and "_Slow" not in e else 1)]
            if all(r is not None for r in rs):
                case, err = c, rs[0]
                break
        if case is None:
            cov.setdefault("unrepeatable", []).append({"part": part, "case": fail["case"], "err": fail["err"]})
            print(f"[{part}] a failure did not repeat and is not reported: {fail['err']}")
            if a.verbose:
                print(fail["tb"])
            continue
        seen.add(part)
        p = write_replay(prop, part, case, err)
        print(f"[{part}] {err}\n  case: {short(case, 2000)}")
        if a.verbose:
            print(fail["tb"])
        print(f"VIOLATION property={prop} replay={p}")
        n += 1
    if extra:
        n += extra(cov) or 0
    write_evidence(prop, cov, time.time() - t0, n, assumptions)
    for e in errs:
        print("ERROR", e)
    print(f"{prop}: {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct non-trivial, {n} violations, {time.time()-t0:.1f}s")
    if a.verbose:
        print(json.dumps(cov["labels"], indent=1))
        for p in cov["parts"].items():
            print(p)
    sys.stdout.flush()
    if n:
        _exit(1)
    _exit(2 if errs else 0)


def merge(parts, results, rule):
    labels, samples, viol, errs = {}, [], [], []
    ev = 0
    per = {}
    for p in parts:
        per[p.name] = {"evaluations": 0, "distinct_nontrivial": 0, "wall_s": 0.0}
    dist = {p.name: set() for p in parts}
    for r in sorted(results, key=lambda r: (r["part"], r["shard"])):
        ev += r["evaluations"]
        per[r["part"]]["evaluations"] += r["evaluations"]
        per[r["part"]]["wall_s"] = round(max(per[r["part"]]["wall_s"], r["wall"]), 2)
        dist[r["part"]].update(r["distinct"])
        for k, v in r["labels"].items():
            k = f"{r['part']}.{k}"
            labels[k] = labels.get(k, 0) + v
        if r["samples"] and sum(1 for s in samples if s["part"] == r["part"]) < 2:
            for s in r["samples"][:1]:
                txt = json.dumps(s, default=repr)
                samples.append({"part": r["part"], "case": s if len(txt) < 3000 else txt[:3000] + "..."})
        if r["fail"]:
            viol.append((r["part"], r["fail"]))
        if r["err"]:
            errs.append(f"{r['part']}#{r['shard']}: {r['err']}")
    for k in per:
        per[k]["distinct_nontrivial"] = len(dist[k])
    trunc = [f"{r['part']}#{r['shard']}" for r in results if r.get("truncated")]
    cov = {"evaluations": ev, "distinct_nontrivial": sum(len(d) for d in dist.values()), "rule": rule,
           "samples": samples, "labels": labels, "parts": per, "stopped_by_time": trunc, "exhaustive": False}
    # smallest failing case per part first
    viol.sort(key=lambda pf: (pf[0], len(json.dumps(pf[1]["case"], default=repr))))
    return cov, viol, errs


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)
