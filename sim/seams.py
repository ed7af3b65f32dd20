"""Seams: every source of nondeterminism evoMPS can see, put under the simulator's control.

Import this module *before* evoMPS.  It replaces attributes of numpy/scipy/builtins with wrappers which behave
exactly like the originals unless the current run has armed a fault, and which are deterministic given the run.

Seams
  random      numpy's global stream, re-seeded per operation from the plan
  start       ARPACK start vectors (scipy would otherwise let ARPACK pick one from hidden global state)
  solver      eigs/eigsh/bicgstab/lgmres/gmres/bicg/cg...: no convergence, error, nonzero status
  factor      cholesky/eigh/svd/qr/inv: LinAlgError
  memory      numpy.empty/empty_like: contents chosen by the run (NaN, huge numbers, zeros, noise)
  disk        builtins.open etc. for paths under /simdisk/: in-memory disk with torn/short writes, ENOSPC, EIO
  lines       every executed line of evoMPS code: interruption points and switch points between threads
  time        time.time/sleep: virtual
"""
import builtins
import errno
import io
import os
import sys
import threading
import time as _time

import numpy as np
import scipy as sp
import scipy.linalg as la
import scipy.sparse.linalg as las

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(os.path.realpath(REPO), "evoMPS") + os.sep


class InjectedInterrupt(KeyboardInterrupt):
    """Ctrl-C delivered by the simulator."""


class InjectedMemoryError(MemoryError):
    """Allocation failure delivered by the simulator."""


class InjectedLinAlgError(np.linalg.LinAlgError):
    pass


class InjectedNoConvergence(las.ArpackNoConvergence):
    pass


class InjectedArpackError(las.ArpackError):
    def __init__(self, msg):
        RuntimeError.__init__(self, msg)


class InjectedOSError(OSError):
    pass


INJECTED = (InjectedInterrupt, InjectedMemoryError, InjectedLinAlgError, InjectedNoConvergence,
            InjectedArpackError, InjectedOSError)


class SimCrash(BaseException):
    """The simulated process dies here; nothing but the simulated disk survives."""


class State(object):
    def __init__(self):
        self.reset()

    def reset(self):
        self.start_rng = np.random.RandomState(12345)
        self.faults = []          # armed faults: dicts, see arm()
        self.counts = {}          # calls per seam site since arm()
        self.fired = []           # faults that fired since arm()
        self.total_fired = {}     # kind -> count over the run
        self.calls_total = {}     # seam site -> calls over the run
        self.garbage = None       # None | "nan" | "huge" | "zero" | "noise"
        self.garbage_rng = np.random.RandomState(999)
        self.disk = Disk()
        self.now = 0.0
        self.sim_time = 0.0


def _from_pkg(depth=2):
    """True if the caller of the wrapper is evoMPS code (directly)."""
    f = sys._getframe(depth)
    return os.path.realpath(f.f_code.co_filename).startswith(PKG) if f is not None else False


_PKGFILES = {}


def in_pkg(filename):
    r = _PKGFILES.get(filename)
    if r is None:
        r = _PKGFILES[filename] = os.path.realpath(filename).startswith(PKG)
    return r


def any_pkg_frame(depth=2, limit=12):
    try:
        f = sys._getframe(depth)
    except ValueError:
        return False
    k = 0
    while f is not None and k < limit:
        if in_pkg(f.f_code.co_filename):
            return True
        f = f.f_back
        k += 1
    return False


# ----------------------------------------------------------------------------------------------------- disk
class SimFile(io.BytesIO):
    def __init__(self, disk, path, mode, data=b""):
        io.BytesIO.__init__(self, data)
        self._disk, self._path, self._mode = disk, path, mode
        self._raw = False
        self.name = path
        if "a" in mode:
            self.seek(0, 2)

    @property
    def mode(self):
        return self._mode

    def write(self, b):
        b = bytes(b)
        kind = S.hit("disk_write")
        if kind is not None:
            k = kind["kind"]
            frac = kind.get("frac", 0.5)
            part = b[: int(len(b) * frac)]
            if k == "short" and not self._raw:
                part = b            # (the buffered layer above the device goes on with the rest)
            io.BytesIO.write(self, part)
            self._store()
            if k == "crash":
                raise SimCrash("crash in write")
            if k == "enospc":
                raise InjectedOSError(errno.ENOSPC, "No space left on device (injected)")
            if k == "eio":
                raise InjectedOSError(errno.EIO, "Input/output error (injected)")
            if k == "interrupt":
                raise InjectedInterrupt("in write")
            return len(part)
        n = io.BytesIO.write(self, b)
        self._store()
        return n

    def read(self, n=-1):
        kind = S.hit("disk_read")
        if kind is not None:
            if kind["kind"] == "eio":
                raise InjectedOSError(errno.EIO, "Input/output error (injected)")
            if kind["kind"] == "interrupt":
                raise InjectedInterrupt("in read")
            if kind["kind"] == "short" and self._raw and n is not None and n > 1:
                n = max(1, int(n * kind.get("frac", 0.5)))
        return io.BytesIO.read(self, n)

    def _store(self):
        if any(c in self._mode for c in "wax+"):
            self._disk.files[self._path] = self.getvalue()

    def flush(self):
        self._store()

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def close(self):
        if not self.closed:
            kind = S.hit("disk_close") if any(c in self._mode for c in "wax+") else None
            self._store()
            io.BytesIO.close(self)
            if kind is not None:
                raise InjectedOSError(errno.EIO, "Input/output error on close (injected)")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Disk(object):
    ROOT = "/simdisk/"

    def __init__(self):
        self.files = {}

    def owns(self, path):
        return isinstance(path, (str, bytes)) and (path if isinstance(path, str) else path.decode()).startswith(self.ROOT)

    def open(self, path, mode="r", raw=False):
        kind = S.hit("disk_open")
        if kind is not None:
            raise InjectedOSError(errno.EACCES if kind["kind"] == "eacces" else errno.EIO, "open failed (injected)")
        b = "b" in mode
        if "r" in mode:
            if path not in self.files:
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
            f = SimFile(self, path, mode, self.files[path])
        elif "x" in mode and path in self.files:
            raise FileExistsError(errno.EEXIST, "File exists", path)
        else:
            data = self.files.get(path, b"") if "a" in mode else b""
            f = SimFile(self, path, mode, data)
            f._store()
        f._raw = raw
        if not b:
            return io.TextIOWrapper(f)
        return f


S = State.__new__(State)


def _hit(self, site):
    """Counts a call of seam `site`; returns the armed fault to inject now, if any."""
    c = self.counts.get(site, 0)
    self.counts[site] = c + 1
    self.calls_total[site] = self.calls_total.get(site, 0) + 1
    for f in self.faults:
        if f["site"] == site and f["nth"] <= c < f["nth"] + f.get("count", 1):
            key = site + ":" + f["kind"]
            self.fired.append(key)
            self.total_fired[key] = self.total_fired.get(key, 0) + 1
            return f
    return None


def _arm(self, faults):
    self.faults = list(faults or [])
    self.counts = {}
    self.fired = []


def _disarm(self):
    self.faults = []
    self.counts = {}


State.hit, State.arm, State.disarm = _hit, _arm, _disarm
S.reset()

_real_open = builtins.open


def _open(file, mode="r", *a, **k):
    try:
        p = os.fspath(file)
    except TypeError:
        return _real_open(file, mode, *a, **k)
    if S.disk.owns(p):
        return S.disk.open(p, mode, raw=(k.get("buffering", a[0] if a else -1) == 0))
    return _real_open(file, mode, *a, **k)


_real = dict(exists=os.path.exists, isfile=os.path.isfile, remove=os.remove, rename=os.rename,
             replace=os.replace, getsize=os.path.getsize)


def _mk_fs():
    def exists(p):
        return (p in S.disk.files) if S.disk.owns(p) else _real["exists"](p)

    def isfile(p):
        return (p in S.disk.files) if S.disk.owns(p) else _real["isfile"](p)

    def remove(p, *a, **k):
        if S.disk.owns(p):
            if p not in S.disk.files:
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", p)
            del S.disk.files[p]
            return
        return _real["remove"](p, *a, **k)

    def rename(a, b, *x, **k):
        if S.disk.owns(a) and S.disk.owns(b):
            kind = S.hit("disk_rename")
            if kind is not None:
                if kind["kind"] == "crash":
                    raise SimCrash("crash in rename")
                raise InjectedOSError(errno.EIO, "rename failed (injected)")
            if a not in S.disk.files:
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", a)
            S.disk.files[b] = S.disk.files.pop(a)
            return
        return _real["rename"](a, b, *x, **k)

    def getsize(p):
        return len(S.disk.files[p]) if S.disk.owns(p) else _real["getsize"](p)

    os.path.exists, os.path.isfile, os.remove, os.unlink = exists, isfile, remove, remove
    os.rename = os.replace = rename
    os.path.getsize = getsize


# --------------------------------------------------------------------------------------------------- memory
_np_empty, _np_empty_like = np.empty, np.empty_like


def _fill(a):
    g = S.garbage
    if g is None or a.dtype.kind not in "fc":
        return a
    if g == "nan":
        a.fill(np.nan)
    elif g == "huge":
        a.fill(1.2345e7)
    elif g == "zero":
        a.fill(0)
    elif g == "one":
        a.fill(1)
    else:
        x = S.garbage_rng.randn(*a.shape) * 3.0
        a[...] = x + (1j * x[..., ::-1] if a.dtype.kind == "c" and a.ndim else 0)
    return a


def _empty(*a, **k):
    r = _np_empty(*a, **k)
    if S.garbage is not None and any_pkg_frame(2, 2):
        _fill(r)
    return r


def _empty_like(*a, **k):
    r = _np_empty_like(*a, **k)
    if S.garbage is not None and type(r) is np.ndarray and any_pkg_frame(2, 2):
        _fill(r)
    return r


# --------------------------------------------------------------------------------------------------- solvers
def _wrap_eigs(name, real):
    def eigs(A, k=6, M=None, sigma=None, which='LM', v0=None, *a, **kw):
        if not any_pkg_frame(2, 3):
            return real(A, k, M, sigma, which, v0, *a, **kw)
        n = A.shape[0]
        if v0 is None:
            v0 = S.start_rng.randn(n)
            dt = np.dtype(getattr(A, "dtype", np.float64))
            if dt.kind == "c":
                v0 = v0 + 1j * S.start_rng.randn(n)
            v0 = v0.astype(dt if dt.kind in "fc" else np.float64)
        f = S.hit(name)
        if f is None:
            # also reachable as a common site so that plans can target "any eigenvalue solve"
            f = S.hit("eig_any")
        if f is not None:
            kd = f["kind"]
            if kd == "noconv":
                raise InjectedNoConvergence("ARPACK error -1: No convergence (injected, %d/%d eigenvectors converged)",
                                            np.zeros(0), np.zeros((n, 0)))
            if kd == "noconv_partial":
                w = np.array([1.0 + 0j])
                v = S.start_rng.randn(n, 1) + 0j
                raise InjectedNoConvergence("ARPACK error -1: No convergence (injected, %d/%d eigenvectors converged)", w, v)
            if kd == "error":
                raise InjectedArpackError("ARPACK error 3: No shifts could be applied during a cycle (injected)")
            if kd == "interrupt":
                raise InjectedInterrupt("in " + name)
            if kd == "unlucky":
                # a legal but useless start vector direction: nearly orthogonal to what is wanted
                v0 = np.ones(n, dtype=np.asarray(v0).dtype) * 1e-3
                v0[::2] *= -1.0
            if kd == "exhaust":
                # burns matvecs as a stalled iteration does, then gives up
                op = las.aslinearoperator(A)
                x = np.array(v0)
                for _ in range(3):
                    x = op.matvec(x)
                raise InjectedNoConvergence("ARPACK error -1: No convergence (injected, %d/%d eigenvectors converged)",
                                            np.zeros(0), np.zeros((n, 0)))
        return real(A, k, M, sigma, which, v0, *a, **kw)
    eigs.__name__ = name
    eigs.__wrapped__ = real
    return eigs


def _wrap_lin(name, real):
    def solve(A, b, x0=None, *a, **kw):
        if not any_pkg_frame(2, 4):
            return real(A, b, x0, *a, **kw)
        f = S.hit(name)
        if f is None:
            f = S.hit("lin_any")
        if f is not None:
            kd = f["kind"]
            if kd == "interrupt":
                raise InjectedInterrupt("in " + name)
            if kd == "status_partial":
                # gives up after the first iterations: an unconverged iterate and a nonzero status
                kw2 = dict(kw)
                kw2["maxiter"] = 1
                x, info = real(A, b, x0, *a, **kw2)
                return x, max(1, info)
            if kd == "status_garbage":
                x = np.array(b, copy=True).ravel() * 0 + S.start_rng.randn(b.size).reshape(b.shape).ravel()
                return x.astype(np.result_type(b)), 1
            if kd == "breakdown":
                return np.array(b, copy=True) * 0, -10
            if kd == "ignore_x0":
                return real(A, b, None, *a, **kw)
        return real(A, b, x0, *a, **kw)
    solve.__name__ = name
    solve.__wrapped__ = real
    return solve


def _wrap_factor(name, real):
    def fac(*a, **kw):
        if any_pkg_frame(2, 1):
            f = S.hit(name)
            if f is not None:
                if f["kind"] == "interrupt":
                    raise InjectedInterrupt("in " + name)
                raise InjectedLinAlgError(name + " failed (injected)")
        return real(*a, **kw)
    fac.__name__ = name
    fac.__wrapped__ = real
    return fac


# ------------------------------------------------------------------------------------------------ lines/time
_cleanup_lines = {}


def in_cleanup(frame):
    """Whether the line (in this frame or a caller inside the package) belongs to cleanup code: `finally` and `except`
    bodies and the `try`/`with` lines themselves, where an interrupt defeats any program."""
    import ast
    f = frame
    while f is not None:
        fn = f.f_code.co_filename
        if in_pkg(fn):
            ls = _cleanup_lines.get(fn)
            if ls is None:
                ls = set()
                with _real_open(fn, encoding="utf-8") as h:
                    tree = ast.parse(h.read())
                for node in ast.walk(tree):
                    if isinstance(node, (ast.Try, ast.With)):
                        ls.add(node.lineno)
                    if isinstance(node, ast.Try):
                        for b in list(node.finalbody) + [x for hd in node.handlers for x in [hd] + hd.body]:
                            ls.update(range(b.lineno, (b.end_lineno or b.lineno) + 1))
                _cleanup_lines[fn] = ls
            if f.f_lineno in ls:
                return True
        f = f.f_back
    return False


class Tracer(object):
    """Counts executed evoMPS lines; raises at a chosen one, or hands the baton to another thread."""

    def __init__(self, stop_at=None, exc=None, on_line=None):
        self.n = 0
        self.stop_at, self.exc, self.on_line = stop_at, exc, on_line
        self.where = None
        self.fired = False

    def _local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.stop_at is not None and self.n >= self.stop_at and not self.fired and not in_cleanup(frame):
                self.fired = True
                self.where = (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name)
                raise self.exc
            if self.on_line is not None:
                self.on_line(self)
        return self._local

    def _global(self, frame, event, arg):
        if event == "call" and in_pkg(frame.f_code.co_filename):
            return self._local
        return None

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


_real_time = dict(time=_time.time, sleep=_time.sleep)


def _vtime():
    if any_pkg_frame(2, 2):
        return S.now
    return _real_time["time"]()


def _vsleep(x):
    if any_pkg_frame(2, 2):
        S.now += x
        return
    _real_time["sleep"](x)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    builtins.open = _open
    _mk_fs()
    np.empty, np.empty_like = _empty, _empty_like
    for m in (sp,):
        m.empty, m.empty_like = _empty, _empty_like
    for n in ("eigs", "eigsh"):
        setattr(las, n, _wrap_eigs(n, getattr(las, n)))
    for n in ("bicgstab", "lgmres", "gmres", "bicg", "cg", "cgs", "qmr", "minres", "gcrotmk"):
        if hasattr(las, n):
            setattr(las, n, _wrap_lin(n, getattr(las, n)))
    for n in ("cholesky", "eigh", "svd", "qr", "inv", "solve"):
        setattr(la, n, _wrap_factor(n, getattr(la, n)))
    _time.time, _time.sleep = _vtime, _vsleep
