import importlib
import os


def load():
    out = {}
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and f[0] == "c":
            m = importlib.import_module("sim.checks." + f[:-3])
            c = m.CHECK
            out[c.id] = c
    return out
