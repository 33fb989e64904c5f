"""Worker (no sanitizer): runs the Python model-file writer of the tree under test on one JSON request per line."""
import json, sys, types
from unittest import mock
REPO = sys.argv[1]
sys.dont_write_bytecode = True
import numpy as np, torch


class MTensor:
    """What the writer uses of a runtime tensor."""
    def __init__(self, raw, shape, dtype):
        self.raw, self.shape = raw, shape
        self.dtype = types.SimpleNamespace(to_pod=lambda: dtype)

    def tobytes(self):
        return self.raw


for n in ("pymllm", "pymllm.mobile"):
    m = sys.modules[n] = types.ModuleType(n)
    m.__path__ = [REPO + "/" + n.replace(".", "/")]
ffi = sys.modules["pymllm.mobile.ffi"] = types.ModuleType("pymllm.mobile.ffi")
ffi.Tensor, ffi.MLLM_FIND_NUMPY_AVAILABLE, ffi.MLLM_FIND_TORCH_AVAILABLE = MTensor, True, True
from pymllm.mobile.convertor.model_file_v2 import ModelFileV2


def value(t):
    raw, sh = bytes.fromhex(t["raw"]), t["shape"]
    if t["src"] == "mllm":
        return MTensor(raw, sh, t["dtype"])
    a = np.frombuffer(raw, dtype=np.dtype(t["np"])).reshape(sh)
    if t["src"] == "torch":
        x = torch.from_numpy(a.copy())
        if t["lay"] == "T" and x.dim() > 1:      # same values, another memory order
            x = x.transpose(0, -1).contiguous().transpose(0, -1)
        if t["lay"] == "S" and x.dim() > 0:
            big = torch.zeros([2 * x.shape[0] + 1] + list(x.shape[1:]), dtype=x.dtype)
            big[1::2] = x
            x = big[1::2]
        if t["lay"] == "P" and x.is_floating_point():
            x = torch.nn.Parameter(x)
        return x
    a = a.copy()
    if t["lay"] == "T" and a.ndim:
        a = np.asfortranarray(a)
    if t["lay"] == "S" and a.ndim:
        big = np.zeros([2 * a.shape[0] + 1] + list(a.shape[1:]), a.dtype)
        big[1::2] = a
        a = big[1::2]
    return a


for line in sys.stdin:
    q = json.loads(line)
    out = {"refused": []}
    try:
        if q["mode"] == "static":
            f = ModelFileV2(q["path"], q["model"], "Static")
            f.static_write({t["name"]: value(t) for t in q["ts"]})
        else:
            f = ModelFileV2(q["path"], q["model"], "Streaming", max_params_descriptor_buffer_num=q["cap"])
            for i, t in enumerate(q["ts"]):
                try:
                    f.streaming_write(t["name"], value(t))
                except (AssertionError, ValueError, RuntimeError, IndexError) as e:
                    out["refused"].append([i, repr(e)])
        f.finalize()
    except Exception as e:  # noqa
        out["error"] = repr(e)
    print(json.dumps(out), flush=True)
