"""
Single source of the property list: gen.py writes properties.jsonl and
MANIFEST.json from it, run.py finds the deciding function in it.
"""
import importlib

LEVEL = "other"
PROPS = []
NA = []
BY = {}


def P(pid, title, statement, over, quant, why, files, mechanism, decide, technique, rule, note, assumptions=(), floor=1, state=(), observe=()):
    d = dict(
        id=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mechanism=mechanism,
        decide=decide, technique=technique, rule=rule, note=note, assumptions=list(assumptions), floor=floor, state=list(state), observe=list(observe),
    )
    PROPS.append(d)
    BY[pid] = d


def N(pid, title, statement, over, quant, why, files, mechanism, reason):
    NA.append(dict(id=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mechanism=mechanism, reason=reason))


def decide(pid):
    mod, fn = BY[pid]["decide"].split(":")
    return getattr(importlib.import_module("qta." + mod), fn)


def rule(pid):
    return BY[pid]["rule"]


def assumptions(pid):
    return BY[pid]["assumptions"]


class _Floors(dict):
    def get(self, k, d=None):
        return BY[k]["floor"] if k in BY else d


FLOORS = _Floors()

from . import catalog_data  # noqa
