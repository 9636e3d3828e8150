"""Independent GDSII stream codec: strict decoder and encoder.

Written from the format description, shares nothing with the code under test.
A decoded library is

    {"name", "unit", "precision", "stamps": (6 ints, 6 ints),
     "cells": [{"name", "stamps", "els": [element...], "raw": bytes}]}

elements are tuples (see `Decoder.element`).
"""
import struct
from fractions import Fraction


class FormatError(Exception):
    pass


HEADER, BGNLIB, LIBNAME, UNITS, ENDLIB, BGNSTR, STRNAME, ENDSTR = range(8)
BOUNDARY, PATH, SREF, AREF, TEXT, LAYER, DATATYPE, WIDTH, XY, ENDEL, SNAME, COLROW, TEXTNODE, NODE, TEXTTYPE, PRESENTATION = range(8, 24)
STRING, STRANS, MAG, ANGLE = 0x19, 0x1A, 0x1B, 0x1C
PATHTYPE, ELFLAGS, NODETYPE, PROPATTR, PROPVALUE, BOX, BOXTYPE, PLEX, BGNEXTN, ENDEXTN = 0x21, 0x26, 0x2A, 0x2B, 0x2C, 0x2D, 0x2E, 0x2F, 0x30, 0x31

DT = {HEADER: 2, BGNLIB: 2, LIBNAME: 6, UNITS: 5, ENDLIB: 0, BGNSTR: 2, STRNAME: 6, ENDSTR: 0,
      BOUNDARY: 0, PATH: 0, SREF: 0, AREF: 0, TEXT: 0, LAYER: 2, DATATYPE: 2, WIDTH: 3, XY: 3, ENDEL: 0,
      SNAME: 6, COLROW: 2, NODE: 0, TEXTTYPE: 2, PRESENTATION: 1, STRING: 6, STRANS: 1, MAG: 5, ANGLE: 5,
      PATHTYPE: 2, ELFLAGS: 1, NODETYPE: 2, PROPATTR: 2, PROPVALUE: 6, BOX: 0, BOXTYPE: 2, PLEX: 3,
      BGNEXTN: 3, ENDEXTN: 3}


def real8_decode(b):
    s = -1 if b[0] & 0x80 else 1
    e = (b[0] & 0x7F) - 64
    m = int.from_bytes(b[1:], "big")
    return s * m * 2.0 ** (4 * e - 56)


def real8_encode(v):
    if v == 0:
        return b"\0" * 8
    s = 0x80 if v < 0 else 0
    f = Fraction(abs(v))
    e = 0
    while f >= 1:
        f /= 16
        e += 1
    while f < Fraction(1, 16):
        f *= 16
        e -= 1
    m = int(f * (1 << 56))
    return bytes([s | (e + 64)]) + m.to_bytes(7, "big")


def records(data, strict=True):
    """Yields (offset, size, type, datatype, payload)."""
    pos = 0
    n = len(data)
    while pos < n:
        if pos + 4 > n:
            raise FormatError("truncated record header at %d" % pos)
        size, rt, dt = struct.unpack_from(">HBB", data, pos)
        if size < 4:
            raise FormatError("record size %d at %d" % (size, pos))
        if size % 2:
            raise FormatError("odd record size %d at %d" % (size, pos))
        if pos + size > n:
            raise FormatError("truncated record at %d" % pos)
        if strict and rt in DT and dt != DT[rt]:
            raise FormatError("data type %d for record %02X at %d" % (dt, rt, pos))
        if strict and DT.get(rt) == 0 and size != 4:
            raise FormatError("record %02X with data at %d" % (rt, pos))
        yield pos, size, rt, dt, data[pos + 4:pos + size]
        pos += size
        if rt == ENDLIB:
            if strict and pos != n:
                raise FormatError("%d bytes after the end of the library" % (n - pos))
            return


def shorts(b):
    return list(struct.unpack(">%dh" % (len(b) // 2), b))


def longs(b):
    return list(struct.unpack(">%dl" % (len(b) // 4), b))


def text(b):
    if b.endswith(b"\0"):
        b = b[:-1]
    return b.decode("ascii")


def decode(data, strict=True):
    lib = {"name": None, "cells": []}
    it = records(data, strict)

    def need(rt, what):
        try:
            r = next(it)
        except StopIteration:
            raise FormatError("missing " + what)
        if r[2] != rt:
            raise FormatError("expected %s at %d, found record %02X" % (what, r[0], r[2]))
        if r[3] != DT[rt]:
            raise FormatError("data type %d for %s at %d" % (r[3], what, r[0]))
        return r

    need(HEADER, "HEADER")
    lib["stamps"] = stamps(need(BGNLIB, "BGNLIB")[4])
    lib["name"] = text(need(LIBNAME, "LIBNAME")[4])
    u = need(UNITS, "UNITS")[4]
    if len(u) != 16:
        raise FormatError("UNITS size")
    lib["db_user"] = real8_decode(u[:8])
    lib["db_meter"] = real8_decode(u[8:])
    lib["precision"] = lib["db_meter"]
    lib["unit"] = lib["db_meter"] / lib["db_user"]
    while True:
        try:
            r = next(it)
        except StopIteration:
            raise FormatError("missing ENDLIB")
        if r[2] == ENDLIB:
            break
        if r[2] != BGNSTR:
            raise FormatError("expected BGNSTR at %d, found %02X" % (r[0], r[2]))
        start = r[0]
        cell = {"stamps": stamps(r[4]), "name": text(need(STRNAME, "STRNAME")[4]), "els": []}
        while True:
            try:
                r = next(it)
            except StopIteration:
                raise FormatError("missing ENDSTR")
            if r[2] == ENDSTR:
                break
            cell["els"].append(element(r, it))
        cell["raw"] = data[start:r[0] + 4]
        cell["span"] = (start, r[0] + 4)
        lib["cells"].append(cell)
    for _ in it:
        raise FormatError("records after ENDLIB")
    return lib


def stamps(b):
    if len(b) != 24:
        raise FormatError("timestamp size %d" % len(b))
    v = shorts(b)
    return tuple(v[:6]), tuple(v[6:])


def element(r, it):
    kind = r[2]
    names = {BOUNDARY: "B", PATH: "P", SREF: "S", AREF: "A", TEXT: "T", BOX: "X", NODE: "N"}
    if kind not in names:
        raise FormatError("unexpected record %02X at %d" % (kind, r[0]))
    g = {}
    xy = []
    props = []
    attr = None
    while True:
        try:
            p = next(it)
        except StopIteration:
            raise FormatError("missing ENDEL")
        rt, b = p[2], p[4]
        if rt not in DT:
            raise FormatError("record %02X in element at %d" % (rt, p[0]))
        if DT[rt] != p[3]:
            raise FormatError("data type %d of record %02X at %d" % (p[3], rt, p[0]))
        if rt == ENDEL:
            break
        elif rt == XY:
            xy.extend(longs(b))
        elif rt == PROPATTR:
            attr = shorts(b)[0]
        elif rt == PROPVALUE:
            if attr is None:
                raise FormatError("PROPVALUE without PROPATTR")
            props.append((attr, text(b)))
            attr = None
        elif rt in (LAYER, DATATYPE, TEXTTYPE, BOXTYPE, NODETYPE, PATHTYPE):
            if rt in g:
                raise FormatError("repeated record %02X" % rt)
            g[rt] = shorts(b)[0]
        elif rt in (WIDTH, BGNEXTN, ENDEXTN, PLEX):
            g[rt] = longs(b)[0]
        elif rt in (PRESENTATION, STRANS, ELFLAGS):
            g[rt] = struct.unpack(">H", b)[0]
        elif rt in (MAG, ANGLE):
            if len(b) != 8:
                raise FormatError("real size")
            g[rt] = real8_decode(b)
        elif rt in (SNAME, STRING):
            g[rt] = text(b)
        elif rt == COLROW:
            g[rt] = shorts(b)
        else:
            raise FormatError("record %02X in element at %d" % (rt, p[0]))
    if len(xy) % 2:
        raise FormatError("odd number of coordinates")
    pts = tuple(zip(xy[::2], xy[1::2]))
    props = tuple(sorted(props))
    st = g.get(STRANS, 0)
    k = names[kind]
    try:
        if k == "B" or k == "X":
            if len(pts) < 2 or pts[0] != pts[-1]:
                raise FormatError("boundary is not closed")
            return (k, g[LAYER], g[DATATYPE if k == "B" else BOXTYPE], pts[:-1], props)
        if k == "N":
            return (k, g[LAYER], g[NODETYPE], pts, props)
        if k == "P":
            pt = g.get(PATHTYPE, 0)
            end = pt
            if pt == 4 or BGNEXTN in g or ENDEXTN in g:
                end = (g.get(BGNEXTN, 0), g.get(ENDEXTN, 0))
            return (k, g[LAYER], g[DATATYPE], g.get(WIDTH, 0), end, pts, props)
        if k == "T":
            if len(pts) != 1:
                raise FormatError("text with %d points" % len(pts))
            return (k, g[LAYER], g[TEXTTYPE], g.get(PRESENTATION, 0), bool(st & 0x8000), g.get(MAG), g.get(ANGLE),
                    pts[0], g[STRING], props)
        if k == "S":
            if len(pts) != 1:
                raise FormatError("reference with %d points" % len(pts))
            return (k, g[SNAME], bool(st & 0x8000), g.get(MAG), g.get(ANGLE), pts[0], props)
        if len(pts) != 3:
            raise FormatError("array with %d points" % len(pts))
        c, rws = g[COLROW]
        return (k, g[SNAME], bool(st & 0x8000), g.get(MAG), g.get(ANGLE), c, rws, pts, props)
    except KeyError as e:
        raise FormatError("element %s misses record %02X" % (k, e.args[0]))


# -- encoder ---------------------------------------------------------------
def rec(rt, payload=b""):
    return struct.pack(">HBB", 4 + len(payload), rt, DT[rt]) + payload


def rs(rt, *v):
    return rec(rt, struct.pack(">%dh" % len(v), *v))


def rl(rt, *v):
    return rec(rt, struct.pack(">%dl" % len(v), *v))


def rt_(rt, s):
    b = s.encode("ascii")
    if len(b) % 2:
        b += b"\0"
    return rec(rt, b)


def rr(rt, *v):
    return rec(rt, b"".join(real8_encode(x) for x in v))


def enc_xy(pts, chunk=8000):
    out = b""
    flat = [c for p in pts for c in p]
    for i in range(0, len(flat), 2 * chunk):
        out += rl(XY, *flat[i:i + 2 * chunk])
    return out


def enc_trans(x, mag, ang, flags=0, force=False):
    out = b""
    if x or mag is not None or ang is not None or force:
        out += rec(STRANS, struct.pack(">H", (0x8000 if x else 0) | flags))
        if mag is not None:
            out += rr(MAG, mag)
        if ang is not None:
            out += rr(ANGLE, ang)
    return out


def enc_props(props):
    return b"".join(rs(PROPATTR, a) + rt_(PROPVALUE, v) for a, v in props)


def enc_element(e, opt=None):
    """opt: dict of format variations: elflags, plex, xy chunk, trans flags,
    omit (default-valued records left out)."""
    o = opt or {}
    k = e[0]
    pre = b""
    if o.get("elflags") is not None:
        pre += rec(ELFLAGS, struct.pack(">H", o["elflags"]))
    if o.get("plex") is not None:
        pre += rl(PLEX, o["plex"])
    ch = o.get("chunk", 8000)
    if k in "BX":
        body = rs(LAYER, e[1]) + rs(DATATYPE if k == "B" else BOXTYPE, e[2]) + enc_xy(e[3] + (e[3][0],), ch)
        return rec(BOUNDARY if k == "B" else BOX) + pre + body + enc_props(e[4]) + rec(ENDEL)
    if k == "N":
        return rec(NODE) + pre + rs(LAYER, e[1]) + rs(NODETYPE, e[2]) + enc_xy(e[3], ch) + enc_props(e[4]) + rec(ENDEL)
    if k == "P":
        body = rs(LAYER, e[1]) + rs(DATATYPE, e[2])
        end = e[4]
        if isinstance(end, tuple):
            body += rs(PATHTYPE, 4)
        elif end != 0 or not o.get("omit"):
            body += rs(PATHTYPE, end)
        body += rl(WIDTH, e[3])
        if isinstance(end, tuple):
            if end[0] != 0 or not o.get("omit"):
                body += rl(BGNEXTN, end[0])
            if end[1] != 0 or not o.get("omit") or end[0] == 0:
                body += rl(ENDEXTN, end[1])
        return rec(PATH) + pre + body + enc_xy(e[5], ch) + enc_props(e[6]) + rec(ENDEL)
    if k == "T":
        body = rs(LAYER, e[1]) + rs(TEXTTYPE, e[2])
        body += rec(PRESENTATION, struct.pack(">H", e[3]))
        if o.get("textwidth"):
            body += rs(PATHTYPE, 1) + rl(WIDTH, o["textwidth"])
        body += enc_trans(e[4], e[5], e[6], o.get("flags", 0), o.get("force", False))
        return rec(TEXT) + pre + body + enc_xy([e[7]]) + rt_(STRING, e[8]) + enc_props(e[9]) + rec(ENDEL)
    if k == "S":
        return (rec(SREF) + pre + rt_(SNAME, e[1]) + enc_trans(e[2], e[3], e[4], o.get("flags", 0), o.get("force", False))
                + enc_xy([e[5]]) + enc_props(e[6]) + rec(ENDEL))
    return (rec(AREF) + pre + rt_(SNAME, e[1]) + enc_trans(e[2], e[3], e[4], o.get("flags", 0), o.get("force", False))
            + rs(COLROW, e[5], e[6]) + enc_xy(e[7]) + enc_props(e[8]) + rec(ENDEL))


def encode(lib, opts=None):
    """opts: callable (cell index, element index) -> option dict."""
    out = [rs(HEADER, lib.get("version", 600)), rs(BGNLIB, *(lib["stamps"][0] + lib["stamps"][1])),
           lib.get("extra_head", b""), rt_(LIBNAME, lib["name"]), lib.get("extra_lib", b""),
           rr(UNITS, lib["db_user"], lib["db_meter"])]
    for i, c in enumerate(lib["cells"]):
        out.append(rs(BGNSTR, *(c["stamps"][0] + c["stamps"][1])) + rt_(STRNAME, c["name"]))
        for j, e in enumerate(c["els"]):
            out.append(enc_element(e, opts(i, j) if opts else None))
        out.append(rec(ENDSTR))
    out.append(rec(ENDLIB))
    return b"".join(out)


def stamp_spans(data):
    """Byte ranges of the timestamp fields."""
    return [(p + 4, p + 28) for p, s, rt, dt, b in records(data, False) if rt in (BGNLIB, BGNSTR) and s == 28]
