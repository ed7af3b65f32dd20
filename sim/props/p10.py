"""P10: saved and exported states survive exactly; damage and storage errors are reported."""
import contextlib
import copy
import io
import logging

import numpy as np
import numpy.linalg as nla

from .. import finite as F
from .. import menu
from .. import model as M
from .. import sandwich as SD
from .. import seams
from .. import twin as T
from .. import uniform as U
from ..core import Abandon
from . import p01, p05, p09, p15
from ..seams import S

UE = [e for e in p09.UE]
TOL = 1e-7
DAMAGE = ["missing", "trunc", "trunc", "trunc", "empty", "random", "head", "tail", "text", "length", "rank", "numbers", "none", "shape", "eio", "other"]
FAULTS = ["enospc", "eio", "crash", "interrupt", "close", "open", "short"]


def shrink(plan):
    c = plan["config"]
    return (SD.shrink_scfg if "DL" in c else U.shrink_ucfg if "L" in c else F.shrink_cfg)(plan)


def gen(rng, tier, idx):
    kind = rng.choice("FFFUUUUSSS")
    if kind == "F":
        cfg = F.gen_cfg(rng, tdvp=rng.random() < 0.7, Nmax=6, Dmax=4, dmax=150)
        cls = F.cfg_class(cfg)
    elif kind == "U":
        cfg = U.gen_ucfg(rng, tdvp=True, real_ok=False, kinds=("random", "tensors", "product"), Dmax=5, Lmax=3)
        cls = U.ucfg_class(cfg)
    else:
        cfg = SD.gen_scfg(rng)
        cls = SD.scfg_class(cfg)
    ops = []
    for j in range(rng.randint(4, 9)):
        k = rng.choice(["save", "save", "load", "load", "load", "change", "change", "damage", "damage", "export", "import", "resize", "grow", "fail"])
        if j == 0:
            k = rng.choice(["save", "change"])
        d = dict(op=k, seed=rng.randrange(1 << 30), slot=rng.randrange(2), into=rng.choice(["same", "same", "fresh", "fresh", "both"]),
                 data=rng.choice(["none", "dict", "array", "number", "text"]), via=rng.choice(["path", "path", "path", "file"]),
                 how=rng.choice(DAMAGE), frac=rng.random(), edit=rng.choice(p09.FE if kind == "F" else UE),
                 mut=rng.choice(menu.FIN_MUTS if kind == "F" else menu.UNI_MUTS), fault=None, upd=rng.random() < 0.75)
        if k == "save" and rng.random() < 0.35:
            d["fault"] = dict(kind=rng.choice(FAULTS), nth=rng.choice([0, 0, 0, 1, 1, 2, 3, 5]), frac=rng.random())
        ops.append(d)
    return dict(config=cfg, ops=ops, cls=kind + cls, garbage=rng.choice(["nan", "nan", "noise", None]))


# ------------------------------------------------------------------------------------------------ three kinds of state
class Kind(object):
    """What is the same for the three kinds of states."""

    def __init__(self, ctx, cfg):
        self.ctx, self.cfg = ctx, cfg
        self.st = dict(fresh=False, canon=False)
        self.nfresh = 0

    @property
    def s(self):
        return self.w.s

    def bits(self, w=None):
        return T.tensors((w or self.w).s)

    def usable(self, w, bits, ref, what, obs=True):
        """The object holds the tensors it had, and can go on."""
        ctx = self.ctx
        ctx.check(T.same_bits(bits, self.bits(w)), "failed-load-changes-state", "%s changed the tensors" % what)
        if obs:
            self.observe(w, "failed-load-changes-object", what)
        ctx.must("update", lambda: w.s.update())
        self.same(w, ref, "failed-load-changes-state", "update after " + what)
        if obs:
            self.observe(w, "failed-load-changes-object", "update after " + what)


class Fin(Kind):
    def __init__(self, ctx, cfg):
        Kind.__init__(self, ctx, cfg)
        self.w = F.FW(ctx, cfg)
        self.can_export = False

    def settle(self, op):
        p09.settle(self.w, op)

    def ref(self, w=None):
        w = w or self.w
        return w.psi()

    def dims(self, w):
        return ([int(d) for d in w.s.D], int(w.s.N), [int(x) for x in w.s.q[1:]])

    def fresh(self, seed):
        rs = np.random.RandomState(seed)
        c = copy.deepcopy(self.cfg)
        c["D"] = [1] + [int(rs.randint(1, 5)) for _ in c["D"][1:-1]] + [1]
        c["init"] = dict(kind=["random", "tensors"][rs.randint(2)], seed=int(rs.randint(1 << 30)))
        c["cf"] = ["right", "left"][rs.randint(2)]
        return F.FW(self.ctx, c)

    def change(self, op, rs):
        w, ctx = self.w, self.ctx
        if rs.rand() < 0.5:
            psi = w.psi()
            n0 = nla.norm(psi.ravel())
            p01.do_edit(w, dict(op, op=op["edit"]), rs, psi, n0)
        else:
            f = menu.mutation(w, op["mut"], op["seed"])
            if f is not None:
                ctx.must(op["mut"], lambda: f(w.s), seed=op["seed"])
            if op["upd"]:
                ctx.must("update", lambda: w.s.update())

    def save(self, f, data):
        return lambda: self.s.save_state(f)

    def load(self, w, f, upd=True, data=None, **k):
        return (lambda: w.s.load_state(f)) if upd else (lambda: w.s.load_state(f, do_update=False))

    def same(self, w, ref, kind, what):
        w.same_state(ref, TOL, kind, what=what)

    def observe(self, w, kind, what):
        rs = np.random.RandomState(5)
        for name, fn, ref in w.observations(rs):
            self.ctx.close(self.ctx.must(name, fn), ref, 1e-6, kind, "%s: %s" % (what, name))
        if w.is_tdvp:
            self.ctx.close(complex(w.s.H_expect), w.energy(), 1e-6 * (1 + abs(w.energy())), kind, "%s: H_expect" % what)

    def userdata(self, w, ret, data, what):
        pass

    def wrong(self, how, rs):
        """A file content that is no state of this object."""
        A = np.empty((self.w.N + 1,), dtype=object)
        for n in range(1, self.w.N + 1):
            A[n] = np.array(self.s.A[n])
        if how == "length":
            A = A[:-1] if rs.rand() < 0.5 else np.array(list(A) + [A[-1]], dtype=object)
        elif how == "rank":
            A[rs.randint(1, len(A))] = np.ones((2, 2))
        elif how == "numbers":
            return np.arange(float(len(A)))
        elif how == "none":
            A[rs.randint(1, len(A))] = None
        elif how == "shape":
            n = rs.randint(1, len(A))
            x = A[n]
            ax = rs.randint(3)
            A[n] = np.concatenate([x, x.take([0], axis=ax)], axis=ax)
        elif how == "other":
            A = np.empty((5,), dtype=object)
            A[0] = np.ones((2, 2, 2))
            A[1] = A[2] = A[3] = np.eye(2)
            if self.w.N == 4:
                A = A[1:]
        return A


class Uni(Kind):
    def __init__(self, ctx, cfg):
        Kind.__init__(self, ctx, cfg)
        self.w = U.UW(ctx, cfg)
        self.can_export = True

    def settle(self, op):
        p09.settle(self.w, op)

    def ref(self, w=None):
        return (w or self.w).A()

    def dims(self, w):
        return (int(w.s.D), int(w.s.q), int(w.s.L))

    def fresh(self, seed, **k):
        rs = np.random.RandomState(seed)
        c = copy.deepcopy(self.cfg)
        c["init"] = dict(kind=["random", "tensors"][rs.randint(2)], seed=int(rs.randint(1 << 30)))
        c["symm"] = bool(rs.randint(2))
        c["route"] = ["arpack", "power", "brute"][rs.randint(3)]
        c.update(k)
        return U.UW(self.ctx, c)

    def change(self, op, rs):
        w, ctx = self.w, self.ctx
        if rs.rand() < 0.5:
            p05.edit(w, dict(op, op=op["edit"]), rs, self.st)
        else:
            f = menu.mutation(w, op["mut"], op["seed"])
            if f is not None:
                ctx.must(op["mut"], lambda: f(w.s), seed=op["seed"])
            if op["upd"]:
                if not w.good(0.97):
                    raise Abandon("ill-conditioned")
                ctx.must("update", lambda: w.s.update())

    def save(self, f, data):
        return (lambda: self.s.save_state(f)) if data is None else (lambda: self.s.save_state(f, data))

    def load(self, w, f, upd=True, data=None, **k):
        return lambda: w.s.load_state(f, **k)

    def same(self, w, ref, kind, what):
        w.same_state(ref, TOL, kind, what)

    def observe(self, w, kind, what):
        for o in w.observations(np.random.RandomState(5)):
            self.ctx.close(self.ctx.must(o[0], o[1]), o[2], max(1e-6, o[3]), kind, "%s: %s" % (what, o[0]))
        e = w.energy()
        self.ctx.close(complex(w.s.h_expect), e, 1e-6 * (1 + abs(e)), kind, "%s: h_expect" % what)

    def userdata(self, w, ret, data, what):
        if data is not None:
            got = w.s.userdata
            if isinstance(got, np.ndarray) and got.shape == ():
                got = got.item()
            same_data(self.ctx, got, data, what)

    def wrong(self, how, rs):
        e = np.empty((5,), dtype=object)
        A = np.array(self.w.A())
        if self.w.L == 1:
            A = A[0]
        D = self.w.D
        e[0], e[1], e[2], e[3] = A, np.eye(D) + 0j, np.eye(D) + 0j, np.eye(D) + 0j
        if how == "length":
            return e[:rs.randint(0, 4)]
        if how == "rank":
            e[0] = A.reshape(-1) if rs.rand() < 0.5 else A.reshape(A.shape + (1, 1))
        elif how == "numbers":
            return np.arange(5.0)
        elif how == "none":
            e[rs.randint(4)] = None
        elif how == "shape":
            i = rs.randint(4)
            x = e[i]
            ax = rs.randint(x.ndim)
            e[i] = np.concatenate([x, x.take([0], axis=ax)], axis=ax)
        elif how == "other":
            e = np.empty((5,), dtype=object)
            for n in range(1, 5):
                e[n] = np.ones((2, 1 if n == 1 else 2, 1 if n == 4 else 2)) + 0j
        return e


class San(Kind):
    def __init__(self, ctx, cfg):
        Kind.__init__(self, ctx, cfg)
        self.w = SD.SW(ctx, cfg)
        self.can_export = False
        self.st = dict(fresh=False, canon=False, bulk=False, exact_bulk=cfg["kind"] == "ident")

    def settle(self, op):
        self.up(self.w)
        if p15.well(self.w) < 0.005:
            raise Abandon("ill-conditioned")

    def up(self, w):
        if p15.well(w) < 1e-5:
            raise Abandon("ill-conditioned")
        self.ctx.must("update", lambda: w.s.update())

    def ref(self, w=None):
        return (w or self.w).sand().rdms()

    def bits(self, w=None):
        return (w or self.w).A()

    def dims(self, w):
        s = w.s
        return ([int(d) for d in s.D[:s.N + 1]], int(s.N), int(s.grown_left), int(s.grown_right), int(s.uni_l.D), int(s.uni_r.D))

    def fresh(self, seed):
        w = SD.SW(self.ctx, self.cfg)
        self.up(w)
        return w

    def change(self, op, rs):
        w, ctx = self.w, self.ctx
        k = rs.randint(4)
        if k == 0 and w.is_tdvp:
            if p15.well(w) < 0.02:
                return
            dt = 0.01 * [1.0, 1j][rs.randint(2)]
            self.up(w)
            if rs.rand() < 0.5:
                ctx.must("step", lambda: w.s.take_step(dt))
            else:
                ctx.must("rk4", lambda: w.s.take_step_RK4(dt))
        elif k == 1:
            o = F.rmat(rs, w.q) * 0.3 + np.eye(w.q)
            n = rs.randint(1, w.N + 1)
            ctx.must("apply_op_1s", lambda: w.s.apply_op_1s(o, n))
        else:
            for n in range(1, w.N + 1):
                a = w.s.A[n]
                w.s.A[n] = a + 0.2 * nla.norm(a) / a.size ** 0.5 * F.rmat(rs, a.shape[0] * a.shape[1], a.shape[2]).reshape(a.shape)
        if op["upd"]:
            self.up(w)

    def save(self, f, data):
        return (lambda: self.s.save_state(f)) if data is None else (lambda: self.s.save_state(f, data))

    def load(self, w, f, upd=True, data=None, **k):
        return lambda: w.s.load_state(f, **k)

    def same(self, w, ref, kind, what):
        w.same_rdms(ref, TOL, kind, what)

    def observe(self, w, kind, what):
        for name, fn, ref in w.observations(np.random.RandomState(5)):
            self.ctx.close(self.ctx.must(name, fn), ref, 1e-6 * (1 + abs(np.max(np.abs(ref)))) * (10 if name.startswith(("dH", "entropy")) else 1), kind, "%s: %s" % (what, name))

    def userdata(self, w, ret, data, what):
        if data is not None:
            same_data(self.ctx, ret, data, what)

    def wrong(self, how, rs):
        s = self.s
        e = np.empty((9,), dtype=object)
        A = np.empty((s.N + 3,), dtype=object)
        A[0] = [a.copy() for a in s.uni_l.A]
        for n in range(1, s.N + 1):
            A[n] = np.array(s.A[n])
        A[s.N + 1] = [a.copy() for a in s.uni_r.A]
        e[0] = A
        e[1], e[2], e[4], e[5] = [np.eye(int(d)) + 0j for d in (s.uni_l.D, s.uni_l.D, s.uni_r.D, s.uni_r.D)]
        e[7] = np.zeros((2, 2), dtype=int)
        if how == "length":
            return e[:rs.randint(0, 9)]
        if how == "rank":
            A[rs.randint(1, s.N + 1)] = np.ones((2, 2))
        elif how == "numbers":
            return np.arange(9.0)
        elif how == "none":
            A[rs.randint(0, s.N + 2)] = None
        elif how == "shape":
            n = rs.randint(1, s.N + 1)
            x = A[n]
            ax = rs.randint(3)
            A[n] = np.concatenate([x, x.take([0], axis=ax)], axis=ax)
        elif how == "other":
            e = np.empty((5,), dtype=object)
            e[0] = np.ones((2, 2, 2))
            e[1] = e[2] = e[3] = np.eye(2)
        return e


def same_data(ctx, got, data, what):
    if isinstance(data, np.ndarray):
        ok = isinstance(got, np.ndarray) and np.array_equal(got, data)
    elif isinstance(data, dict):
        ok = isinstance(got, dict) and sorted(got) == sorted(data) and all(np.array_equal(got[k], data[k]) for k in data)
    else:
        ok = np.ndim(got) == 0 and got == data
    ctx.check(bool(ok), "userdata", "%s: saved %r, got %r" % (what, data, got))


def mkdata(op):
    return {"none": None, "dict": {"t": op["seed"] % 97, "x": np.arange(3.0)}, "array": np.arange(op["seed"] % 5 + 1) * 0.5,
            "number": 1.25 + op["seed"] % 7, "text": "run %d" % (op["seed"] % 89)}[op["data"]]


# ------------------------------------------------------------------------------------------------ the runs
def execute(plan, ctx):
    cfg = plan["config"]
    k = (San if "DL" in cfg else Uni if "L" in cfg else Fin)(ctx, cfg)
    files = {}      # slot -> records that the file may hold: (dims, ref, data)
    exports = []
    for op in plan["ops"]:
        rs = np.random.RandomState(op["seed"])
        ctx.op(op["op"], (type(k).__name__, op["into"], op["how"] if op["op"] == "damage" else op["data"], (op["fault"] or {}).get("kind")))
        globals()["do_" + op["op"]](k, op, rs, files, exports)
        for e, keep, _, _, _ in exports:
            ctx.check(all(same_item(a, b) for a, b in zip(e, keep)), "snapshot-altered", "by %s" % op["op"])


def same_item(a, b):
    if b is None or a is None:
        return a is None and b is None
    a, b = np.asarray(a), np.asarray(b)
    if b.dtype == object:
        return a.dtype == object and repr(a.item() if a.shape == () else a) == repr(b.item() if b.shape == () else b)
    return a.shape == b.shape and np.array_equal(a, b)


class Talk(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.text = ""

    def emit(self, r):
        if r.levelno >= logging.WARNING:
            self.text += r.getMessage()


@contextlib.contextmanager
def listening():
    """What the library prints and logs."""
    out = io.StringIO()
    h = Talk()
    lg = logging.getLogger()
    logging.disable(logging.NOTSET)
    others, lg.handlers = lg.handlers, [h]
    try:
        with contextlib.redirect_stdout(out):
            yield lambda: (out.getvalue() + h.text).strip()
    finally:
        lg.handlers = others
        logging.disable(logging.CRITICAL)


def path(op):
    return "/simdisk/slot%d.npy" % op["slot"]


def target(op):
    return io.BytesIO() if op["via"] == "file" else path(op)


def do_change(k, op, rs, files, exports):
    k.settle(op)
    k.change(op, rs)


def do_fail(k, op, rs, files, exports):
    """A failure of the original."""
    k.settle(op)
    site, kind = [("eigs", "noconv"), ("lin_any", "interrupt"), ("eigh", "fail"), ("cholesky", "interrupt"), ("svd", "interrupt"), ("qr", "interrupt")][rs.randint(6)]
    keep = [a if a is None else a.copy() for a in k.bits()]
    w = k.w
    f = None if isinstance(k, San) else menu.mutation(w, op["mut"], op["seed"])
    f = f or (lambda s: s.update())
    _, e = k.ctx.call("failing", lambda: f(w.s), faults=[dict(site=site, kind=kind, nth=rs.randint(3), count=1, frac=0.5)], seed=op["seed"], ret_exc=True)
    if e is None:
        if isinstance(k, Uni) and not w.good(0.97):
            raise Abandon("ill-conditioned")
        return
    k.ctx.probe("original-failed")
    if rs.rand() < 0.5:
        return               # loading must put it right
    put_back(k, keep)


def put_back(k, keep):
    s = k.s
    if isinstance(k, San):
        nl, nr = len(s.uni_l.A), len(s.uni_r.A)
        s.uni_l.A, s.uni_r.A = [a.copy() for a in keep[:nl]], [a.copy() for a in keep[-nr:]]
        for n in range(1, s.N + 1):
            s.A[n] = keep[nl + n - 1].copy()
    else:
        for n, a in enumerate(keep):
            if a is not None:
                s.A[n] = a.copy()
    k.ctx.must("update", lambda: s.update())


def intact(k):
    """All tensors are finite and of moderate size (a failure may have left anything else)."""
    return all(a is None or (np.all(np.isfinite(a)) and nla.norm(a) > 1e-6) for a in k.bits())


def do_save(k, op, rs, files, exports):
    ctx = k.ctx
    if not intact(k):
        return
    k.settle(op)
    data = mkdata(op)
    rec = (k.dims(k.w), k.ref(), None if isinstance(k, Fin) else data)
    bits = [a if a is None else a.copy() for a in k.bits()]
    f = op["fault"]
    if op["via"] == "file" and f is None:
        buf = io.BytesIO()
        ctx.must("save_state", k.save(buf, data), seed=op["seed"])
        ctx.check(T.same_bits(bits, k.bits()), "save-changes-state", "save_state")
        files[op["slot"]] = [rec]
        S.disk.files[path(op)] = buf.getvalue()
        return
    if f is None:
        ctx.must("save_state", k.save(path(op), data), seed=op["seed"])
        ctx.check(T.same_bits(bits, k.bits()), "save-changes-state", "save_state")
        ctx.check(path(op) in S.disk.files, "save-lost", "no file was written")
        files[op["slot"]] = [rec]
        return
    site = dict(close="disk_close", open="disk_open").get(f["kind"], "disk_write")
    spec = [dict(site=site, kind=f["kind"], nth=f["nth"] if site == "disk_write" else 0, count=1, frac=f["frac"])]
    before = len(S.total_fired), sum(S.total_fired.values())
    crashed = False
    try:
        with listening() as said:
            v, e = ctx.call("save_state", k.save(path(op), data), faults=spec, seed=op["seed"], ret_exc=True, allow=(OSError,))
            text = said()
    except seams.SimCrash:
        crashed = True
    finally:
        S.disarm()
    hit = sum(S.total_fired.values()) != before[1]
    old = [r for r in files.get(op["slot"], []) if r is not None]
    if not hit or f["kind"] == "short":
        ctx.check(e is None, "save-failed", "save_state raised %r without a lasting storage error" % (e,))
        files[op["slot"]] = [rec]
        return
    ctx.probe("save-" + f["kind"])
    files[op["slot"]] = old + [rec, None]      # (None: or no whole state at all)
    if crashed:
        # only the disk survives
        k.w = k.fresh(op["seed"])
        k.st["fresh"] = False
        return
    ctx.check(e is not None or v is False or bool(text), "save-error-not-reported", "storage error (%s) during save_state" % f["kind"])
    k.usable(k.w, bits, rec[1], "failed save")


def do_load(k, op, rs, files, exports):
    ctx = k.ctx
    if op["slot"] not in files:
        return
    recs = [r for r in files[op["slot"]] if r is not None]
    sure = len(recs) == len(files[op["slot"]])
    ws = []
    if op["into"] != "fresh":
        ws.append(("same", k.w))
    if op["into"] != "same":
        ws.append(("fresh", k.fresh(op["seed"])))
    for name, w in ws:
        kw = {}
        if isinstance(k, San):
            if not any(r[0][1] >= w.s.N for r in recs) or not compatible(w, recs):
                continue
            if any(r[0][1] != w.s.N for r in recs):
                kw["autogrow"] = True
        src = io.BytesIO(S.disk.files.get(path(op), b"")) if op["via"] == "file" else path(op)
        if not sure and not (intact(k) or w is not k.w):
            continue
        if not sure and w is k.w:
            k.settle(op)
        bits = [a if a is None else a.copy() for a in k.bits(w)]
        ref0 = k.ref(w) if not sure else None
        dims0 = k.dims(w)
        upd = op["upd"] or isinstance(k, Uni) or isinstance(k, San)
        with listening() as said:
            v, e = ctx.call("load_state", k.load(w, src, upd=upd, **kw), seed=op["seed"], allow=() if sure else (Exception,))
            text = said()
        what = "load into the %s object" % name
        if not sure and (e is not None or T.same_bits(bits, k.bits(w))):
            ctx.check(e is not None or v is False or bool(text), "damage-not-reported", "%s of a file left by a failed save" % what)
            if name == "same":
                k.usable(w, bits, ref0, what)
            else:
                ctx.check(T.same_bits(bits, k.bits(w)), "failed-load-changes-state", what)
            ctx.probe("torn-file")
            continue
        ctx.check(v is not False, "load-failed", what)
        if kw.get("autogrow") and w.s.N != dims0[1]:
            ctx.probe("autogrow")
            w.grown(int(w.s.grown_left) - dims0[2], int(w.s.grown_right) - dims0[3])
        ok = None
        for r in recs[::-1]:
            if sure or matches(k, w, r):
                ok = r
                if sure or data_matches(k, w, v, r, what):
                    break
        ctx.check(ok is not None, "load-wrong-state", "%s: neither of the states that the file may hold" % what)
        ctx.check(k.dims(w) == ok[0], "load-dimensions", "%s: %s, saved %s" % (what, k.dims(w), ok[0]))
        k.same(w, ok[1], "load-wrong-state", what)
        k.userdata(w, v, ok[2], what)
        if not upd:
            ctx.must("update", lambda: w.s.update(), seed=op["seed"])
            k.same(w, ok[1], "load-wrong-state", what + ", update")
        settle_check(k, w, what)
        k.w = w
        k.st["fresh"] = True


def compatible(w, recs):
    return all(r[0][4] == w.s.uni_l.D and r[0][5] == w.s.uni_r.D and r[0][2] >= w.s.grown_left and r[0][3] >= w.s.grown_right for r in recs)


def settle_check(k, w, what):
    k.observe(w, "load-observables", what)


def matches(k, w, r):
    from ..core import Violation
    if k.dims(w) != r[0]:
        return False
    try:
        k.same(w, r[1], "x", "")
        return True
    except Violation:
        return False


def data_matches(k, w, v, r, what):
    from ..core import Violation
    try:
        k.userdata(w, v, r[2], what)
        return True
    except Violation:
        return False


def do_damage(k, op, rs, files, exports):
    """Load something that is not a whole state of this object."""
    ctx = k.ctx
    if not intact(k):
        return
    k.settle(op)
    w = k.w
    how = op["how"]
    good = io.BytesIO()
    ctx.must("save_state", k.save(good, None), seed=op["seed"])
    good = good.getvalue()
    p = "/simdisk/damaged.npy"
    spec = None
    data = b""
    if how == "missing":
        S.disk.files.pop(p, None)
    elif how in ("trunc", "empty", "random", "head", "tail", "text", "eio"):
        n = int(op["frac"] * (len(good) - 1))
        if how == "trunc":
            data = good[:n]
        elif how == "random":
            data = rs.bytes(max(1, n))
        elif how == "head":
            m_ = 1 + rs.randint(8, 200)
            data = (b"\0" * m_ if rs.rand() < 0.5 else rs.bytes(m_)) + good[m_:]
        elif how == "tail":
            m_ = rs.randint(1, 40)
            data = good[:-m_] + b"\0" * m_
        elif how == "text":
            data = b"no state at all\n" * 40
        elif how == "eio":
            data = good
            spec = [dict(site="disk_read", kind=["eio", "interrupt"][rs.randint(2)], nth=rs.randint(5), count=1)]
        S.disk.files[p] = data
    else:
        b = io.BytesIO()
        np.save(b, k.wrong(how, rs), allow_pickle=True)
        S.disk.files[p] = b.getvalue()
    if op["into"] == "fresh" and not isinstance(k, San):
        w = k.fresh(op["seed"])
        w0 = k.w
        k.w = w
        k.settle(op)
        k.w = w0
    bits = [a if a is None else a.copy() for a in k.bits(w)]
    ref, dims = k.ref(w), k.dims(w)
    kw = {}
    if isinstance(k, Uni) and how not in ("shape",) and rs.rand() < 0.4:
        kw = {["expand", "truncate", "expand_q", "shrink_q"][rs.randint(4)]: True}
    if isinstance(k, San) and how not in ("shape",) and rs.rand() < 0.4:
        kw = dict(autogrow=True)
    before = sum(S.total_fired.values())
    with listening() as said:
        v, e = ctx.call("load_state", k.load(w, p, **kw), faults=spec, seed=op["seed"], allow=(Exception,), ret_exc=True)
        text = said()
    if how == "eio" and sum(S.total_fired.values()) == before:
        k.same(w, ref, "load-wrong-state", "load of an undamaged file")
        if w is not k.w:
            return
        return
    ctx.probe("damage-" + how)
    what = "load of a damaged file (%s)" % how
    ctx.check(e is not None or v is False or (bool(text) and "loaded" not in text), "damage-not-reported", "%s: returned %r" % (what, v))
    ctx.check(k.dims(w) == dims, "failed-load-changes-state", "%s: %s -> %s" % (what, dims, k.dims(w)))
    k.usable(w, bits, ref, what)


def do_export(k, op, rs, files, exports):
    ctx = k.ctx
    if not k.can_export or not intact(k):
        return
    k.settle(op)
    data = mkdata(op)
    bits = k.bits()
    e = ctx.must("export_state", (lambda: k.s.export_state()) if data is None else (lambda: k.s.export_state(data)), seed=op["seed"])
    ctx.check(T.same_bits(bits, k.bits()), "export-changes-state", "export_state")
    exports.append((e, copy.deepcopy(e), k.dims(k.w), k.ref(), data))


def do_import(k, op, rs, files, exports):
    ctx = k.ctx
    if not exports:
        return
    e, keep, dims, ref, data = exports[rs.randint(len(exports))]
    for name in (("same", "fresh") if op["into"] == "both" else (op["into"],)):
        w = k.w if name == "same" else k.fresh(op["seed"])
        upd = op["upd"]
        v = ctx.must("import_state", lambda: w.s.import_state(e) if upd else w.s.import_state(e, do_update=False), seed=op["seed"])
        what = "import into the %s object" % name
        ctx.check(v is not False, "load-failed", what)
        if not upd:
            k.same(w, ref, "load-wrong-state", what + " without update")
            ctx.must("update", lambda: w.s.update(), seed=op["seed"])
        ctx.check(k.dims(w) == dims, "load-dimensions", "%s: %s, exported %s" % (what, k.dims(w), dims))
        k.same(w, ref, "load-wrong-state", what)
        k.userdata(w, None, data, what)
        settle_check(k, w, what)
        k.w = w
        # work on the restored object
        if rs.rand() < 0.5:
            w.s.A[0][:] = w.s.A[0] * 0.5
            w.s.l[-1] = np.asarray(w.s.l[-1]) * 2
            ctx.must("update", lambda: w.s.update(), seed=op["seed"])


def do_grow(k, op, rs, files, exports):
    if not isinstance(k, San) or not intact(k):
        return
    k.settle(op)
    s = k.s
    L = s.uni_l.L if rs.rand() < 0.5 else -s.uni_r.L
    if s.N + abs(L) > (8 if k.w.q == 2 else 5):
        return
    if k.w.is_tdvp and k.w.hcfg["callable"] and k.w.hcfg["window"] != "same" and k.cfg["kind"] == "tensors":
        return
    if L > 0:
        k.ctx.must("grow_left", lambda: s.grow_left(1))
    else:
        k.ctx.must("grow_right", lambda: s.grow_right(1))
    k.w.grown(max(L, 0), max(-L, 0))
    k.up(k.w)


def do_resize(k, op, rs, files, exports):
    """Into objects of other dimensions."""
    ctx = k.ctx
    if not intact(k):
        return
    k.settle(op)
    if isinstance(k, Fin):
        return from_other_finite(k, op, rs)
    if isinstance(k, San):
        return sandwich_file(k, op, rs)
    w, D, q = k.w, k.w.D, k.w.q
    f = "/simdisk/resize.npy"
    ref = k.ref()
    ctx.must("save_state", k.save(f, None), seed=op["seed"])
    j = rs.randint(7)
    if j == 0:
        from evoMPS.tdvp_uniform import EvoMPS_TDVP_Uniform
        t = ctx.must("from_file", lambda: EvoMPS_TDVP_Uniform.from_file(f, w.make_ham(), w.sites), seed=op["seed"])
        w2 = copy.copy(w)
        w2.s = t
        if w.hcfg.get("tp"):
            t.ham_tp = U.tp_of(w.h)
            ctx.must("update", lambda: t.update())
        w2.set_opts(w.route, w.symm)
        ctx.check(k.dims(w2) == k.dims(w), "load-dimensions", "from_file: %s, saved %s" % (k.dims(w2), k.dims(w)))
        k.same(w2, ref, "load-wrong-state", "from_file")
        k.observe(w2, "load-observables", "from_file")
        k.w = w2
        return
    if j == 1:
        from evoMPS.tdvp_uniform import EvoMPS_TDVP_Uniform
        bits = [a.copy() for a in w.A()]
        t = ctx.must("from_mps", lambda: EvoMPS_TDVP_Uniform.from_mps(w.s, w.make_ham(), w.sites), seed=op["seed"])
        w2 = copy.copy(w)
        w2.s = t
        if w.hcfg.get("tp"):
            t.ham_tp = U.tp_of(w.h)
        k.same(w2, ref, "load-wrong-state", "from_mps")
        t.A[0][:] = t.A[0] * 1.5
        ctx.must("update", lambda: t.update())
        ctx.check(T.same_bits(bits, k.bits(w)), "copy-alters-original", "from_mps")
        k.same(w2, ref, "load-wrong-state", "from_mps, update")
        k.observe(w2, "load-observables", "from_mps")
        return
    # objects of other bond dimension
    D2 = int(rs.randint(1, 6))
    if j in (2, 3, 4) and D2 != D:
        w2 = k.fresh(op["seed"], D=D2)
        if not w2.good(0.97):
            return
        ctx.must("update", lambda: w2.s.update())
        bits, ref2 = [a.copy() for a in w2.A()], k.ref(w2)
        flag = {} if j == 2 else dict(expand=True) if j == 3 else dict(truncate=True)
        ok = (j == 3 and D < D2) or (j == 4 and D > D2)
        v, e = ctx.call("load_state", lambda: w2.s.load_state(f, **flag), seed=op["seed"], allow=() if ok else (Exception,))
        if ok:
            ctx.check(v is not False, "load-failed", "%s from D %d to %d" % (flag, D, D2))
            ctx.check(k.dims(w2)[0] == D2, "load-dimensions", "%s from D %d to %d: %d" % (flag, D, D2, k.dims(w2)[0]))
            ctx.check(all(a.shape == (q, D2, D2) for a in w2.A()), "load-dimensions", "%s from D %d to %d" % (flag, D, D2))
            if j == 4 and w2.good(0.95):
                w2.check_fixed_points()
                # the dropped Schmidt values bound the change
                k.observe(w2, "load-observables", "truncating load")
            if j == 3 and w2.good(0.95) and w2.min_schmidt() > 1e-4:
                k.observe(w2, "load-observables", "expanding load")
        else:
            ctx.check(e is not None or v is False, "damage-not-reported", "%s from D %d to %d: %r" % (flag, D, D2, v))
            k.usable(w2, bits, ref2, "load of other dimensions")
        return
    if j in (5, 6) and not w.hcfg.get("tp") and q < 4:
        # one more level, then back
        c = copy.deepcopy(k.cfg)
        c["q"] = q + 1
        c["init"] = dict(kind="tensors", seed=op["seed"])
        c["D"] = D
        w2 = U.UW(ctx, c)
        flag = dict(expand_q=True)
        v = ctx.must("load_state", lambda: w2.s.load_state(f, **flag), seed=op["seed"])
        ctx.check(v is not False, "load-failed", "expand_q")
        ctx.check(k.dims(w2) == (D, q + 1, w.L), "load-dimensions", "expand_q: %s" % (k.dims(w2),))
        big = []
        for a in ref:
            x = np.zeros((q + 1,) + a.shape[1:], dtype=complex)
            x[:q] = a
            big.append(x)
        k.same(w2, big, "load-wrong-state", "expand_q")
        k.observe(w2, "load-observables", "expand_q")
        g = "/simdisk/bigger.npy"
        ctx.must("save_state", lambda: w2.s.save_state(g))
        w3 = k.fresh(op["seed"] + 1, D=D)
        v = ctx.must("load_state", lambda: w3.s.load_state(g, shrink_q=True), seed=op["seed"])
        ctx.check(v is not False, "load-failed", "shrink_q")
        ctx.check(k.dims(w3) == (D, q, w.L), "load-dimensions", "shrink_q: %s" % (k.dims(w3),))
        k.same(w3, ref, "load-wrong-state", "shrink_q")
        k.observe(w3, "load-observables", "shrink_q")
        k.w = w3


def from_other_finite(k, op, rs):
    """A chain of other length or site dimension is refused."""
    ctx = k.ctx
    c = copy.deepcopy(k.cfg)
    if rs.rand() < 0.5:
        c["N"] += 1
        c["q"] = c["q"] + [c["q"][-1]]
        c["D"] = c["D"][:-1] + [1, 1]
    else:
        n = rs.randint(len(c["q"]))
        c["q"][n] = c["q"][n] % 4 + 1 if c["q"][n] != 4 else 2
    c["ham"].update(missing=[], callable=False)
    c["cls"] = "mps"
    c["init"] = dict(kind="tensors", seed=op["seed"])
    o = F.FW(ctx, c)
    o.s.save_state("/simdisk/other.npy")
    w = k.w
    bits, ref, dims = [a if a is None else a.copy() for a in k.bits()], k.ref(), k.dims(w)
    with listening() as said:
        v, e = ctx.call("load_state", lambda: w.s.load_state("/simdisk/other.npy"), seed=op["seed"], allow=(Exception,))
        text = said()
    ctx.check(e is not None or v is False or bool(text), "damage-not-reported", "state of another chain: %r" % (v,))
    ctx.check(k.dims(w) == dims, "failed-load-changes-state", "state of another chain: %s -> %s" % (dims, k.dims(w)))
    k.usable(w, bits, ref, "load of the state of another chain")


def sandwich_file(k, op, rs):
    ctx, w = k.ctx, k.w
    from evoMPS.mps_sandwich import EvoMPS_MPS_Sandwich
    f = "/simdisk/resize.npy"
    ref, bits = k.ref(), k.bits()
    ctx.must("save_state", k.save(f, mkdata(op)), seed=op["seed"])
    t = ctx.must("from_file", lambda: EvoMPS_MPS_Sandwich.from_file(f), seed=op["seed"])
    w2 = copy.copy(w)
    w2.s = t
    w2.is_tdvp = False
    w2.same_rdms(ref, TOL, "load-wrong-state", "from_file")
    k.observe(w2, "load-observables", "from_file")
    ctx.must("update", lambda: t.update())
    w2.same_rdms(ref, TOL, "load-wrong-state", "from_file, update")
    ctx.check(T.same_bits(bits, k.bits()), "copy-alters-original", "from_file")
