"""Emulation of a default device different from that of the data, on a machine with a single device.

While the mode is active, tensors created by factory functions without an explicit device (or with the device of such
a tensor) are marked as living on another device.  Operations that pytorch refuses between devices raise, what it
allows (transfers, assignment, 0-dimensional operands, indexing by host indices) is computed normally.
"""
import torch
from torch.overrides import TorchFunctionMode
from torch.utils._device import _device_constructors

OTHER = torch.device("meta")  # what the device attribute of marked tensors returns
MARK = "_fbe_other_device"
T = torch.Tensor
_GET_DEVICE = T.device.__get__
_TRANSFER = {T.copy_, T.data.__set__}


def marked(t):
    return isinstance(t, T) and t.__dict__.get(MARK, False)


def _mark(x, on):
    if isinstance(x, T):
        if on:
            setattr(x, MARK, True)
        elif MARK in x.__dict__:
            delattr(x, MARK)
    elif isinstance(x, (tuple, list)):
        for y in x:
            _mark(y, on)
    return x


def _tensors(x, out):
    if isinstance(x, T):
        out.append(x)
    elif isinstance(x, (tuple, list)):
        for y in x:
            _tensors(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            _tensors(y, out)
    return out


def _is_device(x):
    return isinstance(x, torch.device) or (isinstance(x, str) and x.split(":")[0] in ("cpu", "meta"))


class OtherDefaultDevice(TorchFunctionMode):
    def __init__(self):
        super().__init__()
        self.constructors = set(_device_constructors())
        self.created = 0

    def error(self, func):
        raise RuntimeError(
            f"Expected all tensors to be on the same device, but {getattr(func, '__name__', func)} got tensors on the "
            "default device and on the device of the data"
        )

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = dict(kwargs or {})
        if func == _GET_DEVICE:
            return OTHER if marked(args[0]) else func(*args, **kwargs)
        if func in self.constructors:
            dev = kwargs.get("device")
            other = dev is None or torch.device(dev) == OTHER
            if other:
                kwargs["device"] = "cpu"
            self.created += other
            return _mark(func(*args, **kwargs), other)
        ts = _tensors([args, kwargs], [])
        if func is T.to or func is T.cpu or func is T.type_as:
            me, a = marked(args[0]), list(args[1:])
            dev = kwargs.pop("device", None)
            other = kwargs.get("other")
            for i, x in enumerate(a):
                if _is_device(x):
                    dev = x
                    a[i] = torch.device("cpu")
                if isinstance(x, T):
                    other = x
            if func is T.cpu:
                dev = "cpu"
            if other is not None:
                on = marked(other)
            elif dev is not None:
                on = torch.device(dev) == OTHER
            else:
                on = me
            r = func(args[0], *a, **kwargs)
            if r is args[0] and on != me:
                r = args[0].view_as(args[0])
            return _mark(r, on)
        if func in _TRANSFER:
            return func(*args, **kwargs)
        if func in (T.__getitem__, T.__setitem__):
            me = marked(args[0])
            if not me and any(marked(t) and t.dim() > 0 for t in _tensors(args[1], [])):
                self.error(func)
            r = func(*args, **kwargs)
            return _mark(r, me) if func is T.__getitem__ else r
        big = [marked(t) for t in ts if t.dim() > 0] or [marked(t) for t in ts]
        if any(big) and not all(big) and any(t.dim() > 0 for t in ts):
            self.error(func)
        r = func(*args, **kwargs)
        new = func in (T.new_zeros, T.new_ones, T.new_empty, T.new_full, T.new_tensor)
        dev = kwargs.get("device")
        if (new or "like" in getattr(func, "__name__", "")) and dev is not None:
            return _mark(r, torch.device(dev) == OTHER)
        if ts:
            on = bool(big) and all(big)
            if on or _tensors(r, []):
                _mark(r, on)
        return r
