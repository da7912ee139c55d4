"""Harness registry."""
from dataclasses import dataclass, field
from typing import Any, Callable

REG: dict = {}


@dataclass
class Harness:
    prop: str
    name: str
    fn: Callable
    params: list
    thorough: list
    consts: dict
    config: dict
    symconsts: dict
    opts: dict
    bounds: str
    assumes: list
    stubs: list
    expect: list
    preload: tuple = ()
    validate: bool = True

    def jobs(self, tier):
        return self.params + (self.thorough if tier == "thorough" else [])


def harness(prop, params=None, thorough=None, consts=None, config=None, symconsts=None,
            opts=None, bounds="", assumes=(), stubs=(), expect=(), name=None, validate=True):
    """Register a harness; props may share a function (several decorators)."""
    def deco(fn):
        h = Harness(prop, name or fn.__name__, fn, list(params or [{}]), list(thorough or []),
                    dict(consts or {}), dict(config or {}), dict(symconsts or {}), dict(opts or {}),
                    bounds, list(assumes), list(stubs), list(expect), validate=validate)
        REG.setdefault(prop, {})[h.name] = h
        return fn

    return deco


def load_all():
    import importlib
    import os
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module("harness." + f[:-3])
    return REG


def overrides(h, params):
    """(consts, config) for a job; a job may add its own through '_consts'/'_config'."""
    c = dict(h.consts)
    c.update(params.get("_consts", {}))
    g = dict(h.config)
    g.update(params.get("_config", {}))
    return c, g


def plain(params):
    return {k: v for k, v in params.items() if not k.startswith("_")}
