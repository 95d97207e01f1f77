"""Which rules decide which property."""
import importlib
import json
import os
import pkgutil

from . import rules

RULES = {}
EXPLAIN = {}
for _m in sorted(m.name for m in pkgutil.iter_modules(rules.__path__)):
    _mod = importlib.import_module('sa.rules.' + _m)
    for _n in dir(_mod):
        if len(_n) >= 3 and _n[0] == 'C' and _n[1:3].isdigit() and callable(getattr(_mod, _n)):
            RULES.setdefault(_n[:3], []).append(getattr(_mod, _n))
            if getattr(_mod, _n).__doc__:
                EXPLAIN[_n[:3]] = (EXPLAIN.get(_n[:3], '') + ' ' + ' '.join(getattr(_mod, _n).__doc__.split())).strip()

_p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'minimum.json')
MINIMUM = json.load(open(_p)) if os.path.exists(_p) else {}
