"""Builds the code under test from a working tree into a scratch directory.

Nothing is written to the tree.  The extension is compiled from
gdspy/clipper.cpp with a fault-injection shim linked around its calls to
the allocator and to the allocating CPython API (--wrap): the compiled
source is the tree's own, unmodified.
"""
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")

# Functions whose failure the shim can inject (see shim.c).
WRAPPED = [
    "malloc", "calloc", "realloc",
    "_Znwm", "_Znam", "free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm",
    "PyTuple_New", "PyList_New", "PyFloat_FromDouble",
    "PyLong_FromLong", "PyDict_New",
    "PySequence_Fast", "PySequence_GetItem", "PySequence_Tuple", "PySequence_List",
    "PyFloat_AsDouble", "PyNumber_Float", "PyList_Append", "PyObject_GetIter",
    "PyUnicode_FromString", "PyObject_CallObject",
    "_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_createERmm",
]


def build(dest=None, shim=True, cxxflags=()):
    """Copy the package and compile the extension; returns the directory
    to put on sys.path."""
    dest = dest or tempfile.mkdtemp(prefix="gdspy-sim-")
    pkg = os.path.join(dest, "gdspy")
    os.makedirs(pkg, exist_ok=True)
    src = os.path.join(REPO, "gdspy")
    for root, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if d != "__pycache__"]
        rel = os.path.relpath(root, src)
        out = os.path.join(pkg, rel) if rel != "." else pkg
        os.makedirs(out, exist_ok=True)
        for f in files:
            if f.endswith((".so", ".pyc", ".o")):
                continue
            shutil.copy2(os.path.join(root, f), os.path.join(out, f))
    here = os.path.dirname(os.path.abspath(__file__))
    inc = sysconfig.get_paths()["include"]
    ext = sysconfig.get_config_var("EXT_SUFFIX")
    opt = os.environ.get("VERIF_CXXOPT", "-O1").split()
    cmd_objs = []
    procs = []
    for f in sorted(os.listdir(pkg)):
        if f.endswith((".cpp", ".cc", ".cxx", ".c")):
            obj = os.path.join(dest, f + ".o")
            procs.append(subprocess.Popen(
                ["g++", *opt, "-g0", "-fPIC", "-w", "-I" + inc, *cxxflags,
                 "-c", os.path.join(pkg, f), "-o", obj]))
            cmd_objs.append(obj)
    if shim:
        sobj = os.path.join(dest, "shim.o")
        procs.append(subprocess.Popen(
            ["gcc", "-O1", "-fPIC", "-w", "-I" + inc, "-c", os.path.join(here, "shim.c"), "-o", sobj]))
        cmd_objs.append(sobj)
    for p in procs:
        if p.wait() != 0:
            raise SystemExit("build of the extension failed")
    link = ["g++", "-shared", *cmd_objs, "-o", os.path.join(pkg, "clipper" + ext)]
    if shim:
        link += ["-Wl," + ",".join("--wrap=" + w for w in WRAPPED)]
        link += ["-Wl,--export-dynamic"]
    subprocess.run(link, check=True)
    return dest


if __name__ == "__main__":
    print(build(sys.argv[1] if len(sys.argv) > 1 else None))
