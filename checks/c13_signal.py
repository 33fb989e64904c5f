#!/usr/bin/env python3
"""C13: resampling, Fourier transforms, audio and image preprocessing compute what they are defined to compute."""
import ctypes as C
import os, shutil, struct, sys, tempfile, zlib
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vh
vh.reexec(san=True)
import numpy as np
from rt import RT, F32
np.seterr(all="ignore")
R = L = DIR = None
F8 = np.float64


def close(got, want, tol, what, *a):
    got, want = np.asarray(got), np.asarray(want)
    vh.need(got.shape == want.shape, what + ": shape %s, expected %s", *a, got.shape, want.shape)
    bad = ~(np.abs(got - want) <= tol)
    if bad.any():
        i = tuple(int(x[0]) for x in np.nonzero(bad))
        vh.need(False, what + ": %d of %d elements differ, first at %s: %.8g, expected %.8g", *a, int(bad.sum()), bad.size, i, abs(got[i]) if np.iscomplexobj(got) else got[i],
                abs(want[i]) if np.iscomplexobj(want) else want[i])


# ---- interpolation
MODES = ["nearest", "linear", "bilinear", "bicubic", "trilinear"]


def gen_int(s):
    m = s.int(0, 4)
    sp = {0: s.choice([1, 2, 3]), 1: 1, 2: 2, 3: 2, 4: 3}[m]
    shape = [s.int(1, 3), s.int(1, 3)] + [s.weighted([(3, s.int(1, 5)), (4, s.int(2, 14))]) for _ in range(sp)]
    c = {"mode": m, "shape": shape, "align": int(s.bool(.4)), "aa": int(m in (2, 3) and s.bool(.3)), "seed": s.seed()}
    if s.bool(.6):
        c["size"] = [s.weighted([(1, 1), (2, x), (6, s.int(1, 20))]) for x in shape[2:]]
    else:
        c["scale"] = [s.weighted([(1, 1.0), (3, s.choice([.5, 2.0, 3.0, 1.5])), (2, s.real(.3, 3))]) for _ in shape[2:]]
        c["scale"] = [max(k, 1.01 / x) for k, x in zip(c["scale"], shape[2:])]
    return c


def axis_matrix(n, m, mode, align):
    """The (m, n) matrix that interpolates n samples to m; nearest returns the source positions instead."""
    o = np.arange(m, dtype=F8)
    x = (o * (n - 1) / (m - 1) if m > 1 else o * 0) if align else (o + .5) * n / m - .5
    if mode == 0:
        return x
    f = np.floor(x)
    t = x - f
    M = np.zeros((m, n))
    if mode == 3:  # Keys' cubic convolution, a = -1/2
        w = [(-.5 * t + 1) * t * t - .5 * t, (1.5 * t - 2.5) * t * t + 1, ((-1.5 * t + 2) * t + .5) * t, (.5 * t - .5) * t * t]
        k0 = -1
    else:
        w, k0 = [1 - t, t], 0
    for k, v in enumerate(w):
        np.add.at(M, (np.arange(m), np.clip(f + k + k0, 0, n - 1).astype(int)), v)
    return M


def run_int(c, st):
    g = np.random.default_rng(c["seed"])
    x = g.standard_normal(c["shape"]).astype(np.float32)
    if "size" in c:
        want = [(v, v) for v in c["size"]]
    else:
        want = [(int(np.floor(n * k)), int(np.float32(n) * np.float32(k))) for n, k in zip(c["shape"][2:], c["scale"])]
    h = R.op("interpolate", [R.new(x)], c["mode"], c["align"], c["aa"], c.get("size", []), c.get("scale", []))
    vh.need(h is not None, "interpolate refused: %s", R.error())
    y = R.get(h[0])
    vh.need(len(y.shape) == x.ndim and y.shape[:2] == x.shape[:2] and all(a in b for a, b in zip(y.shape[2:], want)),
            "output shape %s of input %s with %s", y.shape, x.shape, c.get("size", c.get("scale")))
    what = "%s to %s from %s%s" % (MODES[c["mode"]], y.shape[2:], x.shape[2:], ", aligned corners" if c["align"] else "")
    if c["aa"]:
        # the smoothing is the implementation's choice, but it may not change constants or break linearity, nor mix planes
        k = np.full(c["shape"], 2.5, np.float32)
        out = R.get(R.op("interpolate", [R.new(k)], c["mode"], c["align"], 1, c.get("size", []), c.get("scale", []))[0])
        close(out, np.full(y.shape, 2.5), 1e-4, "antialiased " + what + " of a constant")
        z = g.standard_normal(c["shape"]).astype(np.float32)
        z[0, 0] = 0
        ins = [np.float32(.5) * z, x + z]
        a, b = [R.get(R.op("interpolate", [R.new(v)], c["mode"], c["align"], 1, c.get("size", []), c.get("scale", []))[0]) for v in ins]
        close(b, y.astype(F8) + 2 * a.astype(F8), 2e-4, "antialiased " + what + " of a sum")
        close(a[0, 0], np.zeros(a.shape[2:]), 0, "antialiased " + what + " of a zero plane beside others")
        if all(m >= n for n, m in zip(x.shape[2:], y.shape[2:])):
            n = R.get(R.op("interpolate", [R.new(x)], c["mode"], c["align"], 0, c.get("size", []), c.get("scale", []))[0])
            close(y, n, 1e-6, "antialiased and plain upsampling, " + what)
        elif not (c["align"] and 1 in y.shape[2:]):
            # what a row or column flip does to the input it does to the output
            fl = R.get(R.op("interpolate", [R.new(np.ascontiguousarray(x[:, :, ::-1, ::-1]))], c["mode"], c["align"], 1, c.get("size", []), c.get("scale", []))[0])
            close(fl[:, :, ::-1, ::-1], y, 2e-4, "antialiased " + what + " of the flipped input")
        return st.hit("antialias")
    if c["mode"] == 0:
        idx = [axis_matrix(n, m, 0, c["align"]) for n, m in zip(x.shape[2:], y.shape[2:])]
        ok = np.zeros(y.shape, bool)
        lo = [np.clip(np.floor(v + .5 - 1e-4), 0, n - 1).astype(int) for v, n in zip(idx, x.shape[2:])]
        hi = [np.clip(np.floor(v + .5 + 1e-4), 0, n - 1).astype(int) for v, n in zip(idx, x.shape[2:])]
        for k in range(1 << len(idx)):  # either neighbour of a tie
            ok |= y == x[(slice(None), slice(None)) + np.ix_(*[(hi if k >> j & 1 else lo)[j] for j in range(len(idx))])]
        vh.need(ok.all(), what + ": %d of %d elements are not the nearest source element", int((~ok).sum()), ok.size)
    else:
        r = x.astype(F8)
        for d in range(2, x.ndim):
            r = np.moveaxis(np.tensordot(axis_matrix(x.shape[d], y.shape[d], c["mode"], c["align"]), r, (1, d)), 0, d)
        close(y, r, 1e-4, what)
    st.hit(MODES[c["mode"]])
    if 1 in y.shape[2:]:
        st.hit("one output sample")
    if any(m > n for n, m in zip(x.shape[2:], y.shape[2:])) and any(m < n for n, m in zip(x.shape[2:], y.shape[2:])):
        st.hit("up and down")


# ---- Fourier transforms
def gen_win(s, n):
    w = s.weighted([(3, n), (2, s.int(max(1, n // 2), n)), (1, s.int(1, n))])
    return w, s.choice(["hann", "random", "ones"])


def window(c):
    n = c["win"]
    if c["wk"] == "hann":
        return (.5 - .5 * np.cos(2 * np.pi * np.arange(n) / n)).astype(np.float32)
    if c["wk"] == "ones":
        return np.ones(n, np.float32)
    return np.random.default_rng(c["seed"] + 1).uniform(.2, 1.5, n).astype(np.float32)


def gen_stft(s):
    n = s.weighted([(3, s.choice([1, 2, 4, 8, 16, 32, 64])), (4, s.int(2, 60)), (1, s.choice([100, 128, 200, 256, 400, 512]))])
    c = {"n": n, "hop": s.weighted([(1, 0), (4, s.int(1, max(n, 1))), (1, s.int(1, 2 * n))]), "center": int(s.bool()), "pad": s.int(0, 1), "seed": s.seed(),
         "b": s.weighted([(1, 0), (2, 1), (3, s.int(2, 4))])}
    if n < 4 and not c["hop"]:
        c["hop"] = 1
    c["win"], c["wk"] = gen_win(s, n)
    c["w0"] = int(c["win"] == n and s.bool(.4))
    c["len"] = n + s.weighted([(1, 0), (4, s.int(0, 4 * n))])
    c["complex"] = int(s.bool())
    return c


def stft(x, w, c):
    n, hop = c["n"], c["hop"] or c["n"] // 4
    if c["center"]:
        x = np.pad(x, ((0, 0), (n // 2, n // 2)), mode=["constant", "reflect"][c["pad"]])
    f = np.zeros(n)
    o = (n - c["win"]) // 2
    f[o:o + c["win"]] = w
    k = 1 + (x.shape[1] - n) // hop
    return np.stack([np.fft.rfft(x[:, i * hop:i * hop + n] * f) for i in range(k)], 2)


def run_stft(c, st):
    g = np.random.default_rng(c["seed"])
    x = g.standard_normal((max(c["b"], 1), c["len"])).astype(np.float32)
    w = window(c)
    h = R.op("stft", [R.new(x if c["b"] else x[0]), R.new(w)], c["n"], c["hop"], 0 if c["w0"] else c["win"], c["center"], c["pad"], c["complex"])
    vh.need(h is not None, "stft refused: %s", R.error())
    y = R.get(h[0])
    want = stft(x.astype(F8), w.astype(F8), c)
    if not c["complex"]:
        vh.need(y.ndim == 4 and y.shape[3] == 2 and y.dtype == np.float32, "shape %s of a real-valued result", y.shape)
        y = y[..., 0] + 1j * y[..., 1]
    close(y, want, 1e-5 * c["n"] * max(1, c["n"] / 100) + 1e-5, "STFT n_fft=%d win=%d hop=%d center=%d of %d x %d", c["n"], c["win"], c["hop"], c["center"], *x.shape)
    st.hit("stft")
    if c["n"] & c["n"] - 1:
        st.hit("no power of two")
    if c["b"] > 1:
        st.hit("batch")
    if c["win"] < c["n"]:
        st.hit("short window")


def gen_istft(s):
    n = s.weighted([(3, s.choice([2, 4, 8, 16, 32, 64])), (4, s.int(2, 60)), (1, s.choice([100, 128, 200]))])
    c = {"n": n, "hop": s.int(1, n), "seed": s.seed(), "b": s.int(1, 3), "frames": s.int(1, 8), "complex": int(s.bool()), "how": s.choice(["center", "none", "same"])}
    c["win"], c["wk"] = (n, s.choice(["hann", "random", "ones"])) if c["how"] == "same" else gen_win(s, n)
    c["hop"] = min(c["hop"], c["win"])
    if c["how"] == "center":
        c["frames"] += 2
    return c


def run_istft(c, st):
    g = np.random.default_rng(c["seed"])
    n, hop, win, w = c["n"], c["hop"], c["win"], window(c)
    k = n // 2 + 1
    z = (g.standard_normal((c["b"], k, c["frames"])) + 1j * g.standard_normal((c["b"], k, c["frames"]))).astype(np.complex64)
    z[:, 0] = z[:, 0].real
    if n % 2 == 0:
        z[:, k - 1] = z[:, k - 1].real
    inv = lambda z: R.op("istft", [R.new(z) if c["complex"] else R.new(np.stack([z.real, z.imag], -1)), R.new(w)], n, hop, win, int(c["how"] == "center"), 2 if c["how"] == "same" else 1)
    h = inv(z)
    vh.need(h is not None, "istft refused: %s", R.error())
    y = R.get(h[0])
    f, o = np.zeros(n), (n - win) // 2
    f[o:o + win] = w
    full = (c["frames"] - 1) * hop + n
    acc, env = np.zeros((c["b"], full)), np.zeros(full)
    t = np.fft.irfft(z.astype(np.complex128), n, axis=1)
    for i in range(c["frames"]):
        acc[:, i * hop:i * hop + n] += t[:, :, i] * f
        env[i * hop:i * hop + n] += f * f
    cut = {"center": n // 2, "none": 0, "same": (win - hop) // 2}[c["how"]]
    acc, env = acc[:, cut:full - cut], env[cut:full - cut]
    vh.eq(y.shape, acc.shape, "shape of the ISTFT, n_fft=%d hop=%d frames=%d %s" % (n, hop, c["frames"], c["how"]))
    ok = env > 1e-3  # next to nothing covers the other samples
    close(np.where(ok, y, 0), np.where(ok, acc / np.where(ok, env, 1), 0), 2e-4 * np.where(ok, 1 / np.sqrt(np.where(ok, env, 1)), 1) + 1e-5,
          "ISTFT n_fft=%d win=%d hop=%d %s of %d frames", n, win, hop, c["how"], c["frames"])
    vh.need(np.isfinite(y).all(), "ISTFT gives %s", y)
    st.hit("istft " + c["how"])
    if c["how"] == "center" and (c["frames"] - 1) * hop > n // 2 and ok.all():  # the inverse of the forward operator
        x = g.standard_normal((c["b"], (c["frames"] - 1) * hop + n % 2)).astype(np.float32)
        s = R.op("stft", [R.new(x), R.new(w)], n, hop, win, 1, 1, c["complex"])
        q = R.get(inv(R.get(s[0]) if c["complex"] else (lambda v: v[..., 0] + 1j * v[..., 1])(R.get(s[0])))[0])
        m = min(q.shape[1], x.shape[1])
        close(q[:, :m], x[:, :m], 1e-3 / np.sqrt(env.min()) + 1e-4, "ISTFT of the STFT, n_fft=%d win=%d hop=%d", n, win, hop)
        st.hit("inverse")


# ---- audio
def gen_wav(s):
    c = {"rate": s.choice([8000, 11025, 16000, 16000, 22050, 24000, 44100, 48000]), "to": s.weighted([(4, 16000), (1, 8000), (1, 24000)]), "ch": s.weighted([(2, 1), (2, 2), (1, 3)]),
         "bits": s.weighted([(4, 16), (1, 8), (1, 32)]), "n": s.weighted([(1, s.int(1, 20)), (3, s.int(20, 600))]), "seed": s.seed(), "amp": s.real(.1, 1)}
    c["fmt"] = s.weighted([(4, 16), (1, 18), (1, 40)])
    c["extra"] = s.list(lambda s: [s.choice(["LIST", "fact", "JUNK"]), s.int(0, 9)], 0, 2)
    return c


def wav_file(c):
    """The channels (n, ch) in full-scale units, and the file that holds them."""
    g = np.random.default_rng(c["seed"])
    full = 1 << c["bits"] - 1
    q = np.rint(g.uniform(-1, 1, (c["n"], c["ch"])) * c["amp"] * full).clip(-full, full - 1).astype(np.int64)
    if c["amp"] > .9 and c["n"] > 2:
        q[0], q[1] = -full, full - 1
    raw = (q + 128).astype(np.uint8).tobytes() if c["bits"] == 8 else q.astype("<i%d" % (c["bits"] // 8)).tobytes()
    ch = lambda k, b: k.encode() + struct.pack("<I", len(b)) + b + b"\0" * (len(b) & 1)
    body = ch("fmt ", struct.pack("<HHIIHH", 1, c["ch"], c["rate"], c["rate"] * c["ch"] * c["bits"] // 8, c["ch"] * c["bits"] // 8, c["bits"]) + b"\0" * (c["fmt"] - 16))
    for k, m in c["extra"]:
        body += ch(k, g.integers(0, 256, m).astype(np.uint8).tobytes())
    body += ch("data", raw)
    f = os.path.join(DIR, "a.wav")
    open(f, "wb").write(b"RIFF" + struct.pack("<I", 4 + len(body)) + b"WAVE" + body)
    return q / F8(full), f


def resample(x, old, new):
    """The polyphase windowed-sinc resampler (width 6, roll-off 0.99, Hann window) on the rows of x."""
    g = np.gcd(old, new)
    old, new = old // g, new // g
    base = min(old, new) * .99
    width = int(np.ceil(6 * old / base))
    t = ((np.arange(-width, width + old) / old)[None] - (np.arange(new) / new)[:, None]) * base
    t = np.clip(t, -6, 6)
    k = np.sinc(t) * np.cos(t * np.pi / 12) ** 2 * base / old
    n = x.shape[1]
    p = np.pad(x, ((0, 0), (width, width + old)))
    m = (p.shape[1] - k.shape[1]) // old + 1
    fr = np.stack([p[:, i * old:i * old + k.shape[1]] for i in range(m)], 1)
    return (fr @ k.T).reshape(x.shape[0], -1)[:, :-(-new * n // old)]


def data(n):
    return np.frombuffer((C.c_char * (4 * n)).from_address(L.a_data()), np.float32).copy() if n else np.zeros(0, np.float32)


def run_wav(c, st):
    x, f = wav_file(c)
    y = data(L.a_read(f.encode(), c["to"]))
    w = x.T if c["rate"] == c["to"] else resample(x.T, c["rate"], c["to"])
    close(y, w.mean(0), 3e-4 if c["rate"] != c["to"] else 1e-6, "%d x %d samples of %d bits at %d Hz read at %d Hz", c["n"], c["ch"], c["bits"], c["rate"], c["to"])
    st.hit("wav")
    if c["rate"] != c["to"]:
        st.hit("resampled")
    if c["ch"] > 1:
        st.hit("several channels")
    if c["extra"] or c["fmt"] > 16:
        st.hit("further chunks")


def gen_clip(s):
    c = gen_wav(s)
    c["n"] = int(c["rate"] * s.weighted([(2, s.real(.01, 2)), (2, s.real(1.9, 4)), (1, s.real(4, 14))]))
    if c["n"] / c["rate"] > 4 or s.bool(.6):
        c["rate"], c["n"] = 16000, int(16000 * c["n"] / c["rate"])
    c["to"], c["ch"] = 16000, s.weighted([(3, 1), (1, 2)])
    return c


def fbank(x):
    """Kaldi's log mel energies: 25 ms Povey windows every 10 ms, 128 bins from 20 Hz to half the rate."""
    if len(x) < 400:
        return np.zeros((0, 128))
    n = 1 + (len(x) - 400) // 160
    fr = np.stack([x[i * 160:i * 160 + 400] for i in range(n)])
    fr = fr - fr.mean(1, keepdims=True)
    fr = fr - .97 * np.concatenate([fr[:, :1], fr[:, :-1]], 1)
    p = np.abs(np.fft.rfft(fr * (.5 - .5 * np.cos(2 * np.pi * np.arange(400) / 399)) ** .85, 512)[:, :256]) ** 2
    mel = lambda f: 1127 * np.log(1 + f / 700)
    m, e = mel(np.arange(256) * 16000 / 512), np.linspace(mel(20), mel(8000), 130)
    b = np.maximum(0, np.minimum((m[None] - e[:-2, None]) / (e[1:-1] - e[:-2])[:, None], (e[2:, None] - m[None]) / (e[2:] - e[1:-1])[:, None]))
    return np.log(np.maximum(p @ b.T, np.finfo(np.float32).eps))


def run_clip(c, st):
    x, f = wav_file(c)
    sh = (C.c_int * 4)()
    y = data(L.a_process(f.encode(), 16000, sh))
    vh.eq(tuple(sh), (1, 3, 128, 204), "files, clips, bins, frames")
    y = y.reshape(3, 128, 204)
    x = x.T if c["rate"] == 16000 else resample(x.T, c["rate"], 16000)
    n = x.shape[1]
    for k in range(3):
        a = int(Fraction(max(0, n - 32000), 2) * k)
        fb = fbank(x[0, a:a + 32000])
        e = np.zeros((204, 128))
        e[:len(fb)] = fb
        d = np.abs(y[k].T * 9.138 - 4.268 - e)
        # the logarithm magnifies the rounding of bins with next to no energy
        d[:len(fb)][fb < fb.max(initial=0) - 12] = 0
        i = np.unravel_index(d.argmax(), d.shape)
        vh.need(d.max() <= .05, "clip %d of %d samples at %d Hz: frame %d bin %d is %.6g, expected %.6g", k, n, c["rate"], *i, y[k].T[i] * 9.138 - 4.268, e[i])
    st.hit("clips")
    if n < 32000:
        st.hit("shorter than a clip")
    if n > 160000:
        st.hit("long")


# ---- images
def gen_img(s):
    c = {"w": s.weighted([(1, 1), (3, s.int(1, 8)), (3, s.int(2, 40))]), "h": s.weighted([(1, 1), (3, s.int(1, 8)), (3, s.int(2, 40))]), "seed": s.seed(), "src": s.choice(["rgb", "rgba", "gray", "bmp"])}
    c["ops"] = s.list(lambda s: gen_imgop(s, c), 1, 4)
    return c


def gen_imgop(s, c):
    d = lambda hi: s.weighted([(1, 1), (5, s.int(1, hi))])
    k = s.weighted([(4, "crop"), (3, "pad"), (3, "resize"), (2, "shorter"), (2, "hw"), (4, "center"), (3, "tensor"), (4, "pipe"), (3, "save"), (2, "norm")])
    if k == "crop":
        a, b = s.int(-5, c["w"] + 2), s.int(-5, c["h"] + 2)
        return [k, a, b, a + d(20), b + d(20)]
    if k == "pad":
        return [k, d(40), d(40), s.int(0, 255), s.int(0, 255), s.int(0, 255)]
    if k == "resize":
        return [k, d(40), d(40), int(s.bool())]
    if k == "shorter":
        return [k, d(30)]
    if k in ("hw", "center"):
        v = d(40)
        return [k, v, v if s.bool(.3) else d(40)]
    if k == "save":
        return [k, s.choice(["png", "bmp", "PNG", "jpg"])]
    if k == "norm":
        return [k, s.list(lambda s: s.real(-1, 1), 1, 4), int(s.bool(.5))]
    if k == "pipe":
        sq = int(s.bool(.4))
        r = s.int(0, 1 if sq else 2)
        cr = s.bool(.6)
        v = d(30)
        return [k, d(30) if r == 1 else 0, d(30) if r == 2 else 0, d(30) if r == 2 else 0, v if cr else 0, (v if sq else d(30)) if cr else 0, int(s.bool(.7)), sq]
    return [k, int(s.bool())]


def png(a, kind):
    h, w = a.shape[:2]
    if kind == "bmp":
        row = b"".join(a[y, :, ::-1].tobytes() + b"\0" * (-3 * w % 4) for y in range(h - 1, -1, -1))
        return b"BM" + struct.pack("<IHHI", 54 + len(row), 0, 0, 54) + struct.pack("<IiiHHIIiiII", 40, w, h, 1, 24, 0, len(row), 2835, 2835, 0, 0) + row
    ch = lambda k, b: struct.pack(">I", len(b)) + k + b + struct.pack(">I", zlib.crc32(k + b))
    raw = b"".join(b"\0" + a[y].tobytes() for y in range(h))
    return b"\x89PNG\r\n\x1a\n" + ch(b"IHDR", struct.pack(">IIBBBBB", w, h, 8, {"rgb": 2, "rgba": 6, "gray": 0}[kind], 0, 0, 0)) + ch(b"IDAT", zlib.compress(raw)) + ch(b"IEND", b"")


def pixels(i):
    z = (C.c_int * 3)()
    p = L.i_info(i, z)
    vh.eq(z[2], 3, "channels")
    return np.frombuffer((C.c_uint8 * (z[0] * z[1] * 3)).from_address(p), np.uint8).reshape(z[1], z[0], 3).copy()


def same(got, want, what, *a):
    vh.eq(got.shape, want.shape, "height, width, channels after " + what % a)
    bad = got != want
    if bad.any():
        i = tuple(int(v[0]) for v in np.nonzero(bad))
        vh.need(False, what + ": pixel %s is %d, expected %d", *a, i, got[i], want[i])


def crop(a, l, u, r, d):
    o = np.zeros((d - u, r - l, 3), np.uint8)
    h, w = a.shape[:2]
    y0, y1, x0, x1 = max(u, 0), min(d, h), max(l, 0), min(r, w)
    if y1 > y0 and x1 > x0:
        o[y0 - u:y1 - u, x0 - l:x1 - l] = a[y0:y1, x0:x1]
    return o


def looks(got, src, what):
    """Whatever kernel a resampler uses: constants stay, every output lies near the range of its channel, and affine images stay affine away from the border."""
    h, w = src.shape[:2]
    H, W = got.shape[:2]
    for k in range(3):
        lo, hi = int(src[..., k].min()), int(src[..., k].max())
        m = .35 * (hi - lo) + 1
        vh.need(lo - m <= got[..., k].min() and got[..., k].max() <= hi + m, what + ": channel %d ranges over %d..%d, the source over %d..%d", k, got[..., k].min(), got[..., k].max(), lo, hi)
        d = abs(got[..., k].astype(F8).mean() - src[..., k].astype(F8).mean())
        if h % H == 0 and w % W == 0 or (H % h == 0 and W % w == 0):  # whole pixels onto whole pixels: the mean stays
            vh.need(d <= .12 * (hi - lo) + 1.5, what + ": channel %d has mean %.2f, the source %.2f", k, got[..., k].mean(), src[..., k].mean())


def ramp(w, h, g):
    x, y = np.meshgrid((np.arange(w) + .5) / w, (np.arange(h) + .5) / h)
    co = [(200, 20), (-180, 30), (30, 190)]
    return np.stack([np.clip(np.rint(128 + a * (x - .5) + b * (y - .5)), 0, 255) for a, b in co], 2).astype(np.uint8), co


def run_img(c, st):
    g = np.random.default_rng(c["seed"])
    w, h = c["w"], c["h"]
    n = {"rgba": 4, "gray": 1}.get(c["src"], 3)
    a = g.integers(0, 256, (h, w, n)).astype(np.uint8)
    if g.random() < .2:
        a[:] = a[0, 0]
    f = os.path.join(DIR, "i." + ("bmp" if c["src"] == "bmp" else "png"))
    open(f, "wb").write(png(a, c["src"]))
    L.i_clear()
    i = L.i_open(f.encode())
    src = np.repeat(a, 3, 2) if n == 1 else a[..., :3]
    same(pixels(i), src, "opening a %d x %d %s image", w, h, c["src"])
    rf = os.path.join(DIR, "r.png")
    for o in c["ops"]:
        k = o[0]
        st.hit(k)
        if k == "crop":
            same(pixels(L.i_crop(i, *o[1:])), crop(src, *o[1:]), "crop %s of %d x %d", tuple(o[1:]), w, h)
        elif k == "center":
            l, u = Fraction(w - o[2], 2), Fraction(h - o[1], 2)
            got = pixels(L.i_center(i, o[1], o[2]))
            vh.eq(got.shape, (o[1], o[2], 3), "shape of the centre crop")
            opts = [crop(src, x, y, x + o[2], y + o[1]) for x in {int(np.floor(l)), int(np.ceil(l))} for y in {int(np.floor(u)), int(np.ceil(u))}]
            vh.need(any((got == v).all() for v in opts), "the %d x %d centre crop of %d x %d is no part around the centre", o[2], o[1], w, h)
        elif k in ("resize", "hw", "shorter"):
            if k == "shorter":
                W, H = (o[1], Fraction(h * o[1], w)) if w <= h else (Fraction(w * o[1], h), o[1])
                if max(W, H) > 4000:
                    continue
                do = lambda j: L.i_shorter(j, o[1])
            else:
                W, H = (o[1], o[2]) if k == "resize" else (o[2], o[1])
                do = lambda j: L.i_resize(j, *o[1:]) if k == "resize" else L.i_hw(j, o[1], o[2])
            got = pixels(do(i))
            vh.need(abs(got.shape[0] - H) < 1 and abs(got.shape[1] - W) < 1 and (k != "shorter" or min(got.shape[:2]) == o[1]),
                    "%s: %d x %d became %d x %d, expected %s x %s", o, w, h, got.shape[1], got.shape[0], W, H)
            looks(got, src, "%s of %d x %d" % (o, w, h))
            fl = np.ascontiguousarray(src[::-1, ::-1])
            open(rf, "wb").write(png(fl, "rgb"))
            got2 = pixels(do(L.i_open(rf.encode())))
            d = np.abs(got2[::-1, ::-1].astype(int) - got).max()
            vh.need(d <= 2, "%s: resizing the image turned by 180 degrees gives pixels that differ by %d", o, d)
            p, co = ramp(w, h, g)
            open(rf, "wb").write(png(p, "rgb"))
            q = pixels(do(L.i_open(rf.encode()))).astype(F8)
            H, W = q.shape[:2]
            e, _ = ramp(W, H, g)
            my, mx = int(np.ceil(3 * max(1, H / h))), int(np.ceil(3 * max(1, W / w)))
            if H > 2 * my and W > 2 * mx and h > 3 and w > 3:
                d = np.abs(q - e)[my:-my, mx:-mx]
                vh.need(d.max() <= 4, "%s: an affine image of %d x %d is off by %.0f inside", o, w, h, d.max())
                st.hit("ramp")
        elif k == "pad":
            W, H = o[1:3]
            got = pixels(L.i_pad(i, *o[1:]))
            vh.eq(got.shape, (H, W, 3), "shape after padding")
            sc = min(Fraction(W, w), Fraction(H, h))
            near = lambda v: {max(1, int(np.floor(v + Fraction(1, 2)))), max(1, int(np.ceil(v - Fraction(1, 2))))}
            ok = False
            for nw in near(w * sc):
                for nh in near(h * sc):
                    nw, nh = min(nw, W), min(nh, H)
                    x, y = (W - nw) // 2, (H - nh) // 2
                    e = np.empty((H, W, 3), np.uint8)
                    e[:] = o[3:]
                    e[y:y + nh, x:x + nw] = pixels(L.i_resize(i, nw, nh, 1))
                    ok |= (e == got).all()
            vh.need(ok, "%s of %d x %d: not the resized image centred on the colour", o, w, h)
        elif k == "tensor":
            t = R.get(L.i_tensor(i, o[1]))
            close(t, src.transpose(2, 0, 1) / 255. if o[1] else src.astype(F8), 1e-6 if o[1] else 0, "tensor of %d x %d", w, h)
        elif k == "save":
            f = os.path.join(DIR, "s." + o[1])
            L.i_save(i, f.encode())
            got = pixels(L.i_open(f.encode()))
            if o[1] == "jpg":
                vh.eq(got.shape, src.shape, "shape after a JPEG round trip")
                if (src == src[0, 0]).all():
                    vh.need(np.abs(got.astype(int) - src).max() <= 6, "a constant JPEG image came back as %s", got[0, 0])
            else:
                same(got, src, "saving to %s and opening", o[1])
        elif k == "norm":
            m = np.array(o[1], np.float32)
            sd = np.linspace(.3, 2, len(m)).astype(np.float32)
            x = g.standard_normal((len(m), h, w)).astype(np.float32)
            if o[2]:  # a strided view of a larger tensor
                big = R.new(x.transpose(1, 2, 0))
                t = R.view(big, 0, x.shape, (1, w * len(m), len(m)))
            else:
                t = R.new(x)
            y = R.get(R.op("normalize", [t], [float(v) for v in m], [float(v) for v in sd])[0])
            close(y, (x.astype(F8) - m[:, None, None]) / sd[:, None, None], 1e-5, "Normalize")
            close(R.get(t), x, 0, "input of Normalize afterwards")
        elif k == "pipe":
            sh, rh, rw, chh, cw, nm, sq = o[1:]
            if sh and sh * max(w, h) > 4000 * min(w, h):
                continue
            j = L.i_shorter(i, sh) if sh else L.i_hw(i, rh, rw) if rh else i
            j = L.i_center(j, chh, cw) if chh else j
            e = pixels(j).transpose(2, 0, 1) / 255.
            m, sd = np.array([.48, .45, .4], np.float32), np.array([.22, .25, .3], np.float32)
            if nm:
                e = (e - m[:, None, None]) / sd[:, None, None]
            t = L.i_pipe(i, sh, rh, rw, chh, cw, m.ctypes.data if nm else None, sd.ctypes.data if nm else None, sq)
            close(R.get(t), e, 1e-5, "pipeline %s of %d x %d", o[1:], w, h)
    same(pixels(i), src, "the operations (the source image itself)")


def wrapc(f):
    def run(c, st):
        try:
            f(c, st)
        finally:
            R.clear()
    return run


def parts_():
    global R, L, DIR
    P = "mllm/preprocessor/"
    R = RT("c13", None, ["c13_signal.cpp"], more_unity=[P + "visual/ImageTransform.cpp"], extra=[P + "audio/Audio.cpp", P + "visual/Image.cpp", "third_party/wenet_audio/fft.cc", "third_party/wenet_audio/feature_pipeline.cc"])
    L = R.L
    L.a_read.restype = L.a_process.restype = C.c_long
    L.a_data.restype = L.i_info.restype = C.c_void_p
    L.i_tensor.restype = L.i_pipe.restype = C.c_int64
    L.i_pipe.argtypes = [C.c_int] * 6 + [C.c_void_p] * 2 + [C.c_int]
    DIR = tempfile.mkdtemp(prefix="vh_c13d_")
    import atexit
    me = os.getpid()
    atexit.register(lambda: os.getpid() == me and shutil.rmtree(DIR, ignore_errors=True))
    return [vh.Part("interpolate", gen_int, wrapc(run_int), 8000, cpu_limit=20), vh.Part("stft", gen_stft, wrapc(run_stft), 4000, cpu_limit=20),
            vh.Part("istft", gen_istft, wrapc(run_istft), 4000, cpu_limit=20), vh.Part("wav", gen_wav, wrapc(own_dir(run_wav)), 3000, cpu_limit=20),
            vh.Part("clips", gen_clip, wrapc(own_dir(run_clip)), 160, cpu_limit=30), vh.Part("image", gen_img, wrapc(own_dir(run_img)), 5000, cpu_limit=20)]


def own_dir(f):
    """Each worker process writes its files in a folder of its own."""
    def run(c, st):
        global DIR
        if not DIR.endswith(str(os.getpid())):
            DIR = os.path.join(DIR.split("/pid")[0], "pid%d" % os.getpid())
            os.makedirs(DIR, exist_ok=True)
        f(c, st)
    return run


if __name__ == "__main__":
    vh.main("C13", parts_, "a case with a label: the interpolation mode, transform, file or image operation it exercised",
            ["Reflect padding is shorter than the signal, and a signal holds at least one frame.",
             "The kernels of Image::resize and of antialiased interpolation are the implementation's choice; only constants, linearity, symmetry, range and geometry are required of them."])
