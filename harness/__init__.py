"""The harnesses: one function per job, run on the instrumented package by the symbolic
context and on the pristine one by the concrete context."""
import importlib
import os

MODULES = [f[:-3] for f in sorted(os.listdir(os.path.dirname(__file__)))
           if f.startswith("h_") and f.endswith(".py")]


def jobs(prop):
    out = []
    for m in MODULES:
        mod = importlib.import_module("harness." + m)
        out += mod.JOBS.get(prop, [])
    return out


def all_props():
    s = set()
    for m in MODULES:
        s |= set(importlib.import_module("harness." + m).JOBS)
    return sorted(s)
