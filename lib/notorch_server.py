"""Serves calls to fast_bss_eval in an interpreter where some packages cannot be imported.

usage: notorch_server.py REPO MODE     (length-prefixed pickles on stdin / stdout)
"""
import importlib.abc
import os
import pickle
import struct
import sys
import traceback

repo, mode = sys.argv[1:3]
out = os.fdopen(os.dup(1), "wb")
os.dup2(2, 1)  # nothing else may write to the pipe
inp = sys.stdin.buffer
sys.dont_write_bytecode = True

BLOCK = {
    "missing": ("torch",),
    "importerror": ("torch",),
    "none": ("torch",),
    "packaging": ("packaging",),
    "packaging-and-torch": ("packaging", "torch"),
}[mode]


class Blocker(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in BLOCK:
            if mode == "importerror":
                raise ImportError(f"libtorch_cpu.so: cannot open shared object file (blocked {name})", name=name)
            raise ModuleNotFoundError(f"No module named {name!r} (blocked)", name=name)
        return None


if mode.startswith("packaging") and "torch" not in BLOCK:
    import torch

    torch.set_num_threads(1)
if mode == "none":
    sys.modules["torch"] = None
for m in list(sys.modules):
    if m.split(".")[0] in BLOCK and sys.modules[m] is not None:
        del sys.modules[m]
sys.meta_path.insert(0, Blocker())
sys.path.insert(0, repo)


def send(x):
    b = pickle.dumps(x)
    out.write(struct.pack("<q", len(b)) + b)
    out.flush()


try:
    import fast_bss_eval as F

    send(("ready", F.__file__))
except BaseException as e:
    send(("import failed", f"{type(e).__name__}: {e}"))
    sys.exit(0)

while True:
    h = inp.read(8)
    if len(h) < 8:
        break
    name, via, args, kwargs = pickle.loads(inp.read(struct.unpack("<q", h)[0]))
    try:
        f = getattr(F.numpy if via == "mod" else F, name)
        send(("ok", f(*args, **kwargs)))
    except BaseException as e:
        send(("raised", f"{type(e).__name__}: {e}"))
