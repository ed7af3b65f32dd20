"""Twins: undisturbed copies of an object, snapshots of what must not change, captured library warnings."""
import contextlib
import copy
import logging

import numpy as np

from .finite import arr


def world_twin(w):
    """The same world around a deep copy of the evoMPS object."""
    t = copy.copy(w)
    t.s = copy.deepcopy(w.s)
    return t


SKIP = ("K0_init", "eta", "etaBB", "conv_l", "conv_r", "itr_l", "itr_r", "ev_arpack_nev_last", "h_expect", "H_expect")


def params(s):
    """The scalar settings of an object (working results left out)."""
    out = {}
    for k, v in vars(s).items():
        if k.startswith("_") or k in SKIP or k in ("D", "D_", "hs", "h_expect"):
            continue
        if v is None or isinstance(v, (bool, int, str, np.bool_, np.integer)) or isinstance(v, float):
            out[k] = v
    return out


def params_changed(a, b):
    return sorted(k for k in a if k in b and not (a[k] == b[k] or (a[k] != a[k] and b[k] != b[k])) or (k in a and k not in b))


def tensors(s):
    return [None if a is None else np.array(a) for a in s.A]


def same_bits(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if (x is None) != (y is None):
            return False
        if x is not None and (x.shape != y.shape or not np.array_equal(x, y)):
            return False
    return True


def ham_copy(h):
    if h is None or callable(h):
        return h
    if isinstance(h, np.ndarray):
        return h.copy()
    return [ham_copy(x) for x in h]


def ham_same(a, b):
    if a is None or b is None or callable(a) or callable(b):
        return a is b
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.shape(a) == np.shape(b) and np.array_equal(a, b)
    return len(a) == len(b) and all(ham_same(x, y) for x, y in zip(a, b))


class _H(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self, logging.WARNING)
        self.msgs = []

    def emit(self, rec):
        try:
            self.msgs.append(rec.getMessage())
        except Exception:
            self.msgs.append(str(rec.msg))


@contextlib.contextmanager
def warnings_of_evomps():
    """Collects what the library reports through its logger at warning level or above."""
    h = _H()
    lg = logging.getLogger("evoMPS")
    old, prop, dis = lg.level, lg.propagate, logging.root.manager.disable
    keep = list(lg.handlers)
    logging.disable(logging.NOTSET)
    lg.handlers = [h]
    lg.setLevel(logging.WARNING)
    lg.propagate = False
    try:
        yield h.msgs
    finally:
        lg.handlers = keep
        lg.setLevel(old)
        lg.propagate = prop
        logging.disable(dis)


def flat(x):
    """Any (nested) result as one complex vector plus its structure."""
    if x is None:
        return np.zeros(0, complex), "N"
    if isinstance(x, (list, tuple)):
        fs = [flat(y) for y in x]
        return np.concatenate([f[0] for f in fs]) if fs else np.zeros(0, complex), "[" + ",".join(f[1] for f in fs) + "]"
    a = np.asarray(arr(x), dtype=complex)
    return a.ravel(), str(a.shape)
