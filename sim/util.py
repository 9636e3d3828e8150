"""Shared pieces of the checks."""
import datetime
import pathlib

from . import boot, simfs, refgds, spec as S

dt = boot.real_datetime


class PathLike(object):
    """A foreign path object (only __fspath__)."""

    def __init__(self, p):
        self.p = p

    def __fspath__(self):
        return self.p


def as_path(kind, p):
    return {"str": lambda: p, "path": lambda: pathlib.PurePosixPath(p), "fspath": lambda: PathLike(p),
            "realpath": lambda: pathlib.Path(p)}[kind]()


PATHKINDS = ["str", "path", "fspath", "realpath"]


def rand_ts(rng):
    return [rng.choice([1970, 1999, 2000, 2020, 2038, 9999, rng.randint(1, 9999)]), rng.randint(1, 12), rng.randint(1, 28),
            rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)]


def mkts(t):
    return None if t is None else dt(*t)


def rng_from(n):
    import random
    return random.Random(n)


def bytesio_export(lib, ts, **k):
    out = S.MBytes()
    lib.write_gds(out, timestamp=mkts(ts), **k)
    return bytes(out.b)


def spec_lists(at=("spec",)):
    return [at + x for x in (("cells",), ("cells", "*", "els"), ("cells", "*", "els", "*", "s"), ("cells", "*", "els", "*", "ps"))]


def simplify_elements(plan, key="spec"):
    """Smaller variants of single elements: fewer attributes, fewer points."""
    from .runner import clone
    for i, c in enumerate(plan[key]["cells"]):
        for j, e in enumerate(c["els"]):
            for attr in ("props",):
                if attr in e:
                    q = clone(plan)
                    del q[key]["cells"][i]["els"][j][attr]
                    yield q
            for attr, v in (("r", None), ("m", None), ("x", False)):
                if e.get(attr) and e["k"] in ("label", "sref", "aref"):
                    q = clone(plan)
                    q[key]["cells"][i]["els"][j][attr] = v
                    yield q
            if e["k"] == "poly" and isinstance(e["p"], list) and len(e["p"]) > 3:
                q = clone(plan)
                del q[key]["cells"][i]["els"][j]["p"][3:]
                yield q
            if e["k"] in ("pset", "rect", "round", "text", "flex", "robust", "flexg", "robustg"):
                q = clone(plan)
                l = e["l"][0] if isinstance(e["l"], list) else e["l"]
                q[key]["cells"][i]["els"][j] = {"k": "poly", "p": [[0, 0], [9, 0], [0, 9]], "l": l, "d": 0}
                yield q
