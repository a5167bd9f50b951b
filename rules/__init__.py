"""Rule-based analyses over the syntax trees of /repo (C26, C28, C29)."""
from . import effects, resolve, shared

RULES = {'C26': effects.run, 'C28': resolve.run, 'C29': shared.run}


def run(prop, tier):
    f = RULES.get(prop)
    return f() if f else None


def has(prop):
    return prop in RULES
