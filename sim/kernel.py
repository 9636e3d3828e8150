"""Allocation failures inside the compiled extension (see shim.c)."""
import ctypes
import sys

_lib = None


def lib():
    global _lib
    if _lib is None:
        from . import boot
        m = sys.modules["gdspy.clipper"]
        _lib = ctypes.PyDLL(m.__file__)
        _lib.sim_arm.argtypes = [ctypes.c_long] * 3
        _lib.sim_fill.argtypes = [ctypes.c_long]
        for f in ("sim_count", "sim_failed", "sim_live"):
            getattr(_lib, f).restype = ctypes.c_long
    return _lib


class Kernel(object):
    """arm(at, length): the at-th allocation (and length - 1 more) fails;
    at = 0 only counts."""

    def arm(self, at, length=1, mask=7):
        lib().sim_arm(at if at > 0 else 1 << 60, length, mask)

    def disarm(self):
        l = lib()
        l.sim_disarm()
        return l.sim_count(), l.sim_failed()


def fill(byte):
    """Pattern of freshly allocated memory in the extension; -1: as it comes."""
    lib().sim_fill(byte)


def live():
    """Blocks the extension holds."""
    return lib().sim_live()


class _Info(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


def heap():
    """Bytes of the C heap in use."""
    f = ctypes.CDLL(None).mallinfo2
    f.restype = _Info
    i = f()
    return i.uordblks + i.hblkhd
