import importlib
import inspect
import pkgutil

import rv.props

PROPS = {}
for m in pkgutil.iter_modules(rv.props.__path__):
    mod = importlib.import_module(f"rv.props.{m.name}")
    for _, cls in inspect.getmembers(mod, inspect.isclass):
        if hasattr(cls, "id") and hasattr(cls, "gen"):
            PROPS[cls.id] = cls
