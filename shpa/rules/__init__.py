"""Rules: one function per property, registered by id."""

import importlib
import pkgutil

RULES = {}


def rule(pid, floor=1, technique="", explain=""):
    def deco(fn):
        RULES.setdefault(pid, []).append((fn, floor, technique, explain))
        return fn

    return deco


def load():
    for m in pkgutil.iter_modules(__path__):
        importlib.import_module(f"{__name__}.{m.name}")
    return RULES
