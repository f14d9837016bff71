"""Import the library under test only when a worker needs it."""
import importlib


class _Lazy:
    def __getattr__(self, name):
        return getattr(importlib.import_module("flory"), name)


flory = _Lazy()
