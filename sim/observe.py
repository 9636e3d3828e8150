"""Deep observation of gdspy objects as plain data.

Only attributes that are part of the documented state (or needed to tell two
layouts apart) are read; caches are not.  `full` also calls the queries.
"""
import numpy


def arr(a):
    if a is None:
        return None
    a = numpy.asarray(a, dtype=float)
    return ("arr", a.shape, tuple(a.ravel().tolist()))


def num(v):
    if v is None or isinstance(v, (str, bool)):
        return v
    if isinstance(v, (numpy.bool_,)):
        return bool(v)
    try:
        return float(v)
    except (TypeError, ValueError):
        return repr(type(v))


def props(o):
    p = getattr(o, "properties", None)
    if p is None:
        return None
    return tuple((num(a), v) for a, v in p.items())


def val(v):
    """Any attribute value."""
    if isinstance(v, numpy.ndarray):
        return arr(v)
    if isinstance(v, (list, tuple)):
        return tuple(val(x) for x in v)
    if isinstance(v, dict):
        return tuple((val(a), val(b)) for a, b in v.items())
    if callable(v):
        return "callable"
    if v is None or isinstance(v, (str, bytes)):
        return v
    return num(v)


def refname(r):
    c = r.ref_cell
    return ("cell", c.name) if hasattr(c, "references") else ("name", c)


def element(e):
    t = type(e).__name__
    if hasattr(e, "ref_cell"):
        out = ["ref", t, refname(e), val(e.origin), val(e.rotation), val(e.magnification), bool(e.x_reflection)]
        if hasattr(e, "columns"):
            out += [num(e.columns), num(e.rows), val(e.spacing)]
        return tuple(out) + (props(e),)
    if hasattr(e, "text") and hasattr(e, "anchor"):
        return ("label", e.text, val(e.position), num(e.anchor), val(e.rotation), val(e.magnification), bool(e.x_reflection),
                num(e.layer), num(e.texttype), props(e))
    if hasattr(e, "gdsii_path"):
        out = ["path", t, num(e.n), val(e.layers), val(e.datatypes), val(e.ends), bool(e.gdsii_path), bool(e.width_transform),
               num(e.tolerance), num(e.precision), num(e.max_points)]
        if hasattr(e, "points"):
            out += [arr(e.points), arr(e.widths), arr(e.offsets), val(e.corners), val(e.bend_radius)]
        else:
            out += [val(e.x), num(len(e.paths[0]) if e.paths else 0), num(e.max_evals)]
            u = 0.0
            try:
                n = len(e)
                for i in range(n):
                    for a in range(e.n):
                        out.append(val(e(i + 0.5, a)))
                    out.append(val(e.width(i + 0.5)))
            except Exception as x:
                out.append(type(x).__name__)
        return tuple(out) + (props(e),)
    if hasattr(e, "polygons"):
        return ("polygons", t, tuple(arr(p) for p in e.polygons), val(e.layers), val(e.datatypes), props(e))
    return ("?", t)


def cell(c):
    return {"name": c.name, "polygons": [element(e) for e in c.polygons], "paths": [element(e) for e in c.paths],
            "labels": [element(e) for e in c.labels], "references": [element(e) for e in c.references]}


def library(lib, names=None):
    return {"name": lib.name, "unit": lib.unit, "precision": lib.precision,
            "cells": {k: cell(c) for k, c in lib.cells.items() if names is None or k in names}}


def diff(a, b, tol=0.0, path=""):
    """None, or a description of the first difference."""
    if isinstance(a, float) and isinstance(b, float):
        if a == b or (a != a and b != b) or (tol and abs(a - b) <= tol * max(1.0, abs(a), abs(b))):
            return None
        return "%s: %r became %r" % (path, a, b)
    if type(a) is not type(b):
        return "%s: %s became %s" % (path, sh(a), sh(b))
    if isinstance(a, dict):
        if list(a) != list(b):
            if sorted(map(repr, a)) != sorted(map(repr, b)):
                return "%s: keys %s became %s" % (path, sh(list(a)), sh(list(b)))
            return "%s: order %s became %s" % (path, sh(list(a)), sh(list(b)))
        for k in a:
            d = diff(a[k], b[k], tol, "%s[%r]" % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return "%s: %d items became %d: %s / %s" % (path, len(a), len(b), sh(a), sh(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, tol, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    return None if a == b else "%s: %s became %s" % (path, sh(a), sh(b))


def sh(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."
