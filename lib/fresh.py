"""Newly imported, independent copies of the package under test."""
import importlib
import importlib.machinery
import sys

_codes = {}


def _mine(k):
    return k == "fast_bss_eval" or k.startswith("fast_bss_eval.")


def fresh():
    """imports the package again without touching the copy in sys.modules"""
    orig = importlib.machinery.SourceFileLoader.get_code

    def get_code(self, name):
        if not _mine(name):
            return orig(self, name)
        if self.path not in _codes:
            _codes[self.path] = orig(self, name)
        return _codes[self.path]

    old = {k: sys.modules.pop(k) for k in list(sys.modules) if _mine(k)}
    importlib.machinery.SourceFileLoader.get_code = get_code
    try:
        return importlib.import_module("fast_bss_eval")
    finally:
        importlib.machinery.SourceFileLoader.get_code = orig
        for k in list(sys.modules):
            if _mine(k):
                del sys.modules[k]
        sys.modules.update(old)
