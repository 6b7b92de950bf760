"""Independent rules, decided on the current tree alone."""
REGISTRY = {}


def rule(*pids):
    def deco(f):
        for p in pids:
            REGISTRY.setdefault(p, []).append(f)
        return f
    return deco


def for_property(pid):
    from . import load_all
    load_all()
    return REGISTRY.get(pid, [])


def load_all():
    import importlib
    import pkgutil
    for m in pkgutil.iter_modules(__path__):
        importlib.import_module(f"{__name__}.{m.name}")
