"""Which module decides which property."""
import importlib
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

MODULES = ["batch", "errors", "store", "model", "evalmods", "rotate", "cli", "handler", "catalog", "analysis"]


def _scan():
    out = {}
    for m in MODULES:
        for p in importlib.import_module("checks." + m).CHECKS:
            out[p] = f"{m}:{p}"
    return out


class _Lazy(dict):
    def __missing__(self, k):
        self.update(_scan())
        if k not in self:
            raise KeyError(k)
        return dict.__getitem__(self, k)


CHECKS = _Lazy()


def get(name):
    m, p = name.split(":")
    return importlib.import_module("checks." + m).CHECKS[p]


def load(prop):
    return get(CHECKS[prop]).spec()


def known_findings():
    path = os.path.join(HERE, "known_findings.json")
    return json.load(open(path)) if os.path.exists(path) else []
