"""Simulated storage.

Virtual paths live under ROOT (which does not exist on the real disk).  The
standard `open` returns the *real* buffered/text layers of the io module on
top of a simulated raw file, so buffering, flushing, seeking and
close-time behaviour are the genuine ones, while every low-level transfer is
decided by a seeded plan: short transfers, interrupted calls, disk full, I/O
errors, and the death of the process (after which nothing reaches the disk
and user-space buffers are lost, whatever `finally` blocks run).
"""
import builtins
import errno
import io
import os
import stat as _stat

ROOT = "/__simfs__"

_real_open = builtins.open
_real_io_open = io.open
_real_stat = os.stat
_real_remove = os.remove
_real_replace = os.replace
_real_os_open = os.open


class SimKill(BaseException):
    """The simulated process dies here."""


class Hang(BaseException):
    """More work than any terminating execution would need."""


class Node(object):
    __slots__ = ("data",)

    def __init__(self, data=b""):
        self.data = bytearray(data)


class SimFS(object):
    """faults: list of dicts
        {"op": "open"|"close", "path": p?, "n": k, "err": name}
        {"op": "write", "at": byte offset counted over all written bytes of the
             file, "err": "EIO"|"ENOSPC", "sticky": bool}
        {"op": "read", "n": k-th raw read, "err": name}
        {"op": "kill", "at": k}     -- after k raw operations
        {"op": "killb", "at": b}    -- once b bytes have reached the disk
    """

    def __init__(self, rng=None, faults=(), short=0.0, eintr=0.0, bufsize=None):
        self.files = {}
        self.rng = rng
        self.faults = [dict(f) for f in faults]
        self.short = short
        self.eintr = eintr
        self.bufsize = bufsize
        self.handles = []       # strong references: garbage collection must not close files
        self.raws = []
        self.dead = False
        self.rawops = 0
        self.reads = 0
        self.read_budget = None
        self.written = 0
        self.opens = 0
        self.fired = {}
        self.touched_other = []
        self.yield_point = None  # set by the thread scheduler
        self.on_rawop = None

    # -- faults ------------------------------------------------------------
    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def _enter(self, what):
        if self.dead:
            raise SimKill()
        self.rawops += 1
        if self.on_rawop is not None:
            self.on_rawop(what)
        for f in self.faults:
            if f["op"] == "kill" and self.rawops > f["at"]:
                self.die()
        if self.yield_point is not None:
            self.yield_point("io")

    def die(self):
        self.dead = True
        self.fire("kill")
        raise SimKill()

    def _error(self, f):
        if not f.get("sticky"):
            f["done"] = True
        self.fire(f["err"] + ":" + f["op"])
        raise OSError(getattr(errno, f["err"]), os.strerror(getattr(errno, f["err"])))

    # -- namespace ---------------------------------------------------------
    def put(self, path, data):
        self.files[path] = Node(data)

    def get(self, path):
        n = self.files.get(path)
        return None if n is None else bytes(n.data)

    def open_handles(self):
        return [r for r in self.raws if not r.closed]

    def open(self, path, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        text = "b" not in mode
        m = mode.replace("b", "").replace("t", "").replace("U", "r")
        plus = "+" in m
        m = m.replace("+", "")
        if m not in ("r", "w", "a", "x"):
            raise ValueError("invalid mode: %r" % mode)
        if not text and (encoding is not None or errors is not None or newline is not None):
            raise ValueError("binary mode doesn't take text arguments")
        self._enter("open")
        self.opens += 1
        for f in self.faults:
            if f["op"] == "open" and not f.get("done") and self.opens == f.get("n", 1):
                self._error(f)
        if m == "r" and path not in self.files:
            raise FileNotFoundError(errno.ENOENT, "No such file (simulated)", path)
        if m == "x" and path in self.files:
            raise FileExistsError(errno.EEXIST, "File exists (simulated)", path)
        if m == "w" or path not in self.files:
            if m == "w" and path in self.files:
                del self.files[path].data[:]
            else:
                self.files[path] = Node()
        raw = SimRaw(self, path, self.files[path], m, plus)
        self.raws.append(raw)
        if buffering == 0:
            if text:
                raise ValueError("can't have unbuffered text I/O")
            self.handles.append(raw)
            return raw
        size = buffering if buffering > 1 else (self.bufsize or io.DEFAULT_BUFFER_SIZE)
        if plus:
            buf = io.BufferedRandom(raw, size)
        elif m == "r":
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        out = buf
        if text:
            out = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)
        self.handles.append(out)
        return out


class SimRaw(io.RawIOBase):
    def __init__(self, fs, path, node, m, plus):
        self.fs = fs
        self.path = path
        self.name = path
        self.node = node
        self.mode = {"r": "rb", "w": "wb", "a": "ab", "x": "xb"}[m] + ("+" if plus else "")
        self._r = m == "r" or plus
        self._w = m != "r" or plus
        self._a = m == "a"
        self.pos = len(node.data) if m == "a" else 0
        self._closing = False

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation("fileno (simulated file)")

    def _check(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")

    def readinto(self, b):
        self._check()
        fs = self.fs
        fs._enter("read")
        fs.reads += 1
        if fs.read_budget is not None and fs.reads > fs.read_budget:
            raise Hang("raw reads")
        for f in fs.faults:
            if f["op"] == "read" and not f.get("done") and fs.reads >= f["n"]:
                fs._error(f)
        if fs.eintr and fs.rng.random() < fs.eintr:
            fs.fire("EINTR:read")
            raise InterruptedError(errno.EINTR, "interrupted (simulated)")
        n = len(b)
        if n > 1 and fs.short and fs.rng.random() < fs.short:
            n = fs.rng.randint(1, n)
            fs.fire("short:read")
        chunk = self.node.data[self.pos:self.pos + n]
        b[:len(chunk)] = chunk
        self.pos += len(chunk)
        return len(chunk)

    def write(self, b):
        self._check()
        fs = self.fs
        data = bytes(b)
        fs._enter("write")
        n = len(data)
        if fs.eintr and fs.rng.random() < fs.eintr:
            fs.fire("EINTR:write")
            raise InterruptedError(errno.EINTR, "interrupted (simulated)")
        if n > 1 and fs.short and fs.rng.random() < fs.short:
            n = fs.rng.randint(1, n)
            fs.fire("short:write")
        for f in fs.faults:
            if f["op"] == "write" and not f.get("done"):
                room = f["at"] - fs.written
                if room <= 0:
                    fs._error(f)
                if n > room:
                    n = room
            elif f["op"] == "killb" and fs.written + n >= f["at"]:
                n = max(0, f["at"] - fs.written)
                self._store(data[:n])
                fs.die()
        self._store(data[:n])
        return n

    def _store(self, data):
        node = self.node.data
        if self._a:
            self.pos = len(node)
        if self.pos > len(node):
            node.extend(b"\0" * (self.pos - len(node)))
        node[self.pos:self.pos + len(data)] = data
        self.pos += len(data)
        self.fs.written += len(data)

    def seek(self, off, whence=0):
        self._check()
        self.fs._enter("seek")
        if whence == 0:
            new = off
        elif whence == 1:
            new = self.pos + off
        else:
            new = len(self.node.data) + off
        if new < 0:
            raise OSError(errno.EINVAL, "Invalid argument")
        self.pos = new
        return new

    def tell(self):
        self._check()
        return self.pos

    def truncate(self, size=None):
        self._check()
        self.fs._enter("truncate")
        size = self.pos if size is None else size
        node = self.node.data
        if size < len(node):
            del node[size:]
        else:
            node.extend(b"\0" * (size - len(node)))
        return size

    def close(self):
        if self.closed or self._closing:
            return super().close()
        self._closing = True
        try:
            if not self.fs.dead:
                self.fs._enter("close")
                for f in self.fs.faults:
                    if f["op"] == "close" and not f.get("done"):
                        self.fs._error(f)
        finally:
            self._closing = True
            super().close()


# -- installation ----------------------------------------------------------
current = None


def _is_sim(path):
    if hasattr(path, "__fspath__"):
        path = path.__fspath__()
    if isinstance(path, bytes):
        path = path.decode()
    if isinstance(path, str) and path.startswith(ROOT):
        return path
    return None


def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
          closefd=True, opener=None):
    p = None if isinstance(file, int) else _is_sim(file)
    if p is not None:
        if current is None:
            raise RuntimeError("no simulated file system")
        return current.open(p, mode, buffering, encoding, errors, newline, closefd, opener)
    return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)


def _stat_(path, *a, **k):
    p = None if isinstance(path, int) else _is_sim(path)
    if p is not None:
        data = current.get(p)
        if data is None:
            raise FileNotFoundError(errno.ENOENT, "No such file (simulated)", p)
        return os.stat_result((_stat.S_IFREG | 0o644, 1, 1, 1, 0, 0, len(data), 0, 0, 0))
    return _real_stat(path, *a, **k)


def _remove(path, *a, **k):
    p = _is_sim(path)
    if p is not None:
        current._enter("remove")
        if p not in current.files:
            raise FileNotFoundError(errno.ENOENT, "No such file (simulated)", p)
        del current.files[p]
        return None
    return _real_remove(path, *a, **k)


def _replace(src, dst, *a, **k):
    p, q = _is_sim(src), _is_sim(dst)
    if p is not None and q is not None:
        current._enter("rename")
        current.files[q] = current.files.pop(p)
        return None
    return _real_replace(src, dst, *a, **k)


def install():
    builtins.open = _open
    io.open = _open
    os.stat = _stat_
    os.remove = os.unlink = _remove
    os.replace = os.rename = _replace


# -- caller-supplied streams -------------------------------------------------
class SinkStream(object):
    """A caller's output stream: write-only, not seekable, counts and can fail."""

    def __init__(self, text=False, fail_at=None, err="EIO", fs=None, partial=True):
        self.parts = []
        self.n = 0
        self.text = text
        self.fail_at = fail_at
        self.err = err
        self.partial = partial
        self.closed = False
        self.close_calls = 0
        self.misuse = []
        self.fired = 0
        self.yield_point = None

    def writable(self):
        return True

    def readable(self):
        return False

    def seekable(self):
        return False

    def write(self, b):
        if self.yield_point is not None:
            self.yield_point("io")
        if self.closed:
            raise ValueError("write to closed stream")
        if self.text != isinstance(b, str):
            raise TypeError("wrong type written: %s" % type(b).__name__)
        data = b if self.text else bytes(b)
        if self.fail_at is not None and self.n + len(data) > self.fail_at:
            if self.partial:
                self.parts.append(data[:self.fail_at - self.n])
            self.fired += 1
            raise OSError(getattr(errno, self.err), os.strerror(getattr(errno, self.err)))
        self.parts.append(data)
        self.n += len(data)
        return len(data)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def flush(self):
        pass

    def close(self):
        self.close_calls += 1
        self.closed = True

    def value(self):
        return ("" if self.text else b"").join(self.parts)


class SourceStream(object):
    """A caller's input stream: full reads, not seekable, bounded."""

    def __init__(self, data, fail_read=None, budget=None):
        self.data = bytes(data)
        self.pos = 0
        self.reads = 0
        self.closed = False
        self.close_calls = 0
        self.fail_read = fail_read
        self.budget = budget
        self.yield_point = None

    def readable(self):
        return True

    def seekable(self):
        return False

    def read(self, n=-1):
        if self.yield_point is not None:
            self.yield_point("io")
        if self.closed:
            raise ValueError("read of closed stream")
        self.reads += 1
        if self.budget is not None and self.reads > self.budget:
            raise Hang("reads")
        if self.fail_read is not None and self.reads >= self.fail_read:
            raise OSError(errno.EIO, "I/O error (simulated)")
        if n is None or n < 0:
            n = len(self.data) - self.pos
        out = self.data[self.pos:self.pos + n]
        self.pos += len(out)
        return out

    def close(self):
        self.close_calls += 1
        self.closed = True
