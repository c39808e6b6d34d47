# coding: utf-8
"""Putting stand-ins in the place of functions of the environment: in their module, and under
whatever name a module of ababe has imported them."""
import contextlib
import sys

_found = {}


def _places(module, names):
    """[(module, attribute, name of the function)] of every place that holds module.name"""
    key = (module.__name__, names, len(sys.modules))
    if key not in _found:
        old = {k: getattr(module, k) for k in names}
        out = [(module, k, k) for k in names]
        for mname, m in list(sys.modules.items()):
            if m is None or not (mname == 'ababe' or mname.startswith('ababe.')):
                continue
            for attr, v in list(vars(m).items()):
                for k, f in old.items():
                    # the functions of random are bound methods: equal, not identical
                    if v is f or (callable(v) and type(v) is type(f) and v == f):
                        out.append((m, attr, k))
                        break
        _found[key] = out
    return _found[key]


@contextlib.contextmanager
def replaced(module, fakes):
    """`fakes`: name -> stand-in for module.name"""
    done = []
    try:
        for m, attr, k in _places(module, tuple(sorted(fakes))):
            done.append((m, attr, getattr(m, attr)))
            setattr(m, attr, fakes[k])
        yield
    finally:
        for m, attr, was in reversed(done):
            setattr(m, attr, was)
