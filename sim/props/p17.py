"""P17: excitation spectra of infinite ground states, against an independent dense effective problem."""
import copy

import numpy as np
import numpy.linalg as nla

from .. import finite as F
from .. import model as M
from .. import seams
from .. import twin as T
from .. import uniform as U
from ..core import Abandon
from . import p10

LOOKS = ["triv", "triv", "triv", "iter", "iter", "iter", "nontriv", "nontriv", "nontriv", "iter_nontriv", "iter_nontriv"]
BETWEEN = ["scramble", "phase", "step", "update", "form", "copy", "tensors", "relax", "eval"]


def shrink(plan):
    return U.shrink_ucfg(plan)


def gen(rng, tier, idx):
    kind = rng.choice(["any", "any", "sym", "sym", "parent", "ising"])
    cfg = dict(L=1, cls="tdvp", symm=rng.random() < 0.5, route=rng.choice(["arpack", "arpack", "power", "brute"]), real=False,
               sanity=rng.random() < 0.15, init=dict(kind="tensors", seed=rng.randrange(1 << 30)))
    if kind == "parent":
        cfg["q"], cfg["D"] = rng.choice([(2, 1), (3, 1), (3, 1), (4, 2)] if rng.random() < 0.5 else [(3, 2), (4, 2)])
        cfg["ham"] = dict(sites=2 if cfg["D"] ** 2 < cfg["q"] ** 2 else 3, kind="parent", seed=rng.randrange(1 << 30), callable=False, tp=False, scale=1.0)
    else:
        cfg["q"], cfg["D"] = rng.choice([(2, 1), (2, 2), (2, 3), (2, 3), (2, 3), (2, 4), (2, 4), (3, 1), (3, 2), (3, 2), (3, 2), (3, 3), (4, 1)])
        cfg["ham"] = dict(sites=3 if rng.random() < 0.4 else 2, kind=rng.choice(["rand", "rand", "real"]), seed=rng.randrange(1 << 30),
                          callable=rng.random() < 0.12, tp=False, scale=rng.choice([1.0, 1.0, 0.4, 2.0]))
        if cfg["ham"]["sites"] == 2 and not cfg["ham"]["callable"] and rng.random() < 0.3:
            cfg["ham"]["tp"] = True
    if kind == "ising":
        cfg["q"], cfg["D"] = 2, rng.choice([2, 3, 4])
        cfg["ham"].update(sites=2, kind="ising", g=rng.choice([0.4, 0.6, 1.5, 2.0]), scale=1.0)
    if kind == "sym":
        cfg["ham"]["sym"] = rng.randrange(1 << 30)
    cfg["relax"] = rng.choice([0, 5, 15]) if kind != "parent" else 0
    cfg["world"] = kind
    cfg["realA"] = kind != "parent" and rng.random() < 0.3
    if cfg["realA"] and cfg["ham"]["kind"] == "rand":
        cfg["ham"]["kind"] = "real"
    ops = []
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.5:
            ops.append(dict(op=rng.choice(BETWEEN), seed=rng.randrange(1 << 30)))
        op = dict(op=rng.choice(LOOKS), seed=rng.randrange(1 << 30), p=rng.choice([0.0, np.pi, -np.pi, 1e-3, 0.5, -0.5] + [rng.uniform(-4, 4)] * 6),
                  fault=None, H=rng.random() < 0.3, vec=rng.random() < 0.4)
        if op["op"].startswith("iter") and rng.random() < 0.45:
            op["fault"] = rng.choice([dict(site="eigsh", kind="noconv", nth=0, count=rng.choice([1, 1, 2, 9]), frac=0.5),
                                      dict(site="eigsh", kind="noconv_partial", nth=0, count=1, frac=0.5),
                                      dict(site="eigsh", kind="unlucky", nth=0, count=1, frac=0.5),
                                      dict(site="eigsh", kind="error", nth=0, count=1, frac=0.5),
                                      dict(site="eigsh", kind="interrupt", nth=rng.choice([0, 0]), count=1, frac=0.5)])
        elif rng.random() < 0.25:
            op["fault"] = rng.choice([dict(site="lin_any", kind="ignore_x0", nth=rng.randint(0, 8), count=3, frac=0.5),
                                      dict(site="lin_any", kind="status_partial", nth=rng.randint(0, 8), count=1, frac=0.5),
                                      dict(site="lin_any", kind="interrupt", nth=rng.randint(0, 8), count=1, frac=0.5)])
        ops.append(op)
    return dict(config=cfg, ops=ops, cls="q%d/D%d/%s/h%d%s%s" % (cfg["q"], cfg["D"], kind, cfg["ham"]["sites"], "t" if cfg["ham"]["tp"] else "", "c" if cfg["ham"]["callable"] else ""),
                garbage=rng.choice(["nan", "noise", "huge", None]), cpu_limit=240)


# ------------------------------------------------------------------------------------------- models
def onsite(u, n):
    x = np.eye(1)
    for _ in range(n):
        x = np.kron(x, u)
    return x


def flip(cfg):
    """The on-site symmetry, of order two."""
    q = cfg["q"]
    if cfg["ham"]["kind"] == "ising":
        return np.diag([1.0, -1.0]).astype(complex)
    rs = np.random.RandomState(cfg["ham"]["sym"])
    s = np.diag([1.0] * (q - q // 2) + [-1.0] * (q // 2))
    v = nla.qr(rs.randn(q, q) + (1j * rs.randn(q, q) if cfg["ham"]["kind"] == "rand" else 0))[0]
    return (v @ s @ v.conj().T).astype(complex)


def symmetric(h, u):
    n, q = h.ndim // 2, h.shape[0]
    x = h.reshape(q ** n, q ** n)
    g = onsite(u, n)
    return ((x + g @ x @ g.conj().T) / 2).reshape(h.shape)


def parent(A, n):
    """A positive term whose ground state is A."""
    q = A.shape[0]
    X = np.eye(A.shape[1])[None]
    for _ in range(n):
        X = np.einsum("xab,sbc->xsac", X, A).reshape(-1, A.shape[1], A.shape[2])
    Q = nla.qr(X.reshape(X.shape[0], -1))[0]
    P = np.eye(q ** n) - Q @ Q.conj().T
    return P.reshape((q,) * (2 * n))


# ------------------------------------------------------------------------------------------- the oracle
def split(h):
    """The term as an automaton: W[c, d][s', s] from 0 (not started) to the last state (done)."""
    n, q = h.ndim // 2, h.shape[0]
    e = np.eye(q)
    if n == 2:
        x = h.transpose(0, 2, 1, 3).reshape(q * q, q * q)
        u, s, v = nla.svd(x)
        k = q * q
        W = np.zeros((k + 2, k + 2, q, q), dtype=complex)
        for i in range(k):
            W[0, 1 + i] = (u[:, i] * s[i]).reshape(q, q)
            W[1 + i, k + 1] = v[i].reshape(q, q)
    else:
        k = q * q
        x = h.transpose(0, 3, 1, 4, 2, 5).reshape(k, k, k)          # (s's) of the three sites
        W = np.zeros((2 * k + 2, 2 * k + 2, q, q), dtype=complex)
        for i in range(k):
            W[0, 1 + i] = np.eye(k)[i].reshape(q, q)
            W[1 + k + i, 2 * k + 1] = np.eye(k)[i].reshape(q, q)
            for j in range(k):
                W[1 + i, 1 + k + j] = x[i, :, j].reshape(q, q)
    W[0, 0] = e
    W[-1, -1] = e
    return W


class Problem(object):
    """The effective excitation problem of A ... A B A_ A_ ... at momentum p."""

    def __init__(self, A, A_, h, p, nontriv=False, safe=True):
        D = A.shape[1]
        q = A.shape[0]
        u, v = M.Uni([A]), M.Uni([A_])
        A, A_ = A / np.sqrt(u.ev), A_ / np.sqrt(v.ev)
        u, v = M.Uni([A]), M.Uni([A_])
        n = h.ndim // 2
        eye = np.eye(q ** n).reshape(h.shape)
        W = split(h - energy(A, h) * eye)
        self.A, self.A_, self.W, self.p = A, A_, W, p
        X = W.shape[0]
        F_ = X - 1
        l, r = fixed(A)
        l_, r_ = fixed(A_)
        # left part: L[c][a', a] from the left, right part R[c][b, b']
        L = [None] * X
        R = [None] * X
        zero = np.zeros((D, D), dtype=complex)
        L[0] = l
        for d in range(1, X - 1):
            L[d] = sum((self.left(L[c], A, A, W[c, d]) for c in range(d) if np.any(W[c, d])), zero)
        src = sum((self.left(L[c], A, A, W[c, F_]) for c in range(F_)), zero)
        L[F_] = solve(lambda x: x - self.left(x, A, A), src - np.trace(src @ r) * l, r, l)
        R[F_] = r_
        for c in range(X - 2, 0, -1):
            R[c] = sum((self.right(R[d], A_, A_, W[c, d]) for d in range(c + 1, X) if np.any(W[c, d])), zero)
        src = sum((self.right(R[d], A_, A_, W[0, d]) for d in range(1, X)), zero)
        self.mismatch = abs(np.trace(l_ @ src))
        R[0] = solve(lambda x: x - self.right(x, A_, A_), src - np.trace(l_ @ src) * r_, l_, r_)
        self.L, self.R, self.l, self.r_ = L, R, l, r_
        # tangent vectors: sum_s B_s r_ A_s^+ = 0
        con = np.zeros((D * D, q, D, D), dtype=complex)
        for s in range(q):
            for a in range(D):
                # (B_s r_ A_s^+)[a, b] = sum_c B_s[a, c] (r_ A_s^+)[c, b]
                x = r_ @ A_[s].conj().T
                for b in range(D):
                    con[a * D + b, s, a, :] = x[:, b]
        self.basis = nla.svd(con.reshape(D * D, -1))[2][D * D:].conj().reshape(-1, q, D, D)
        m = len(self.basis)
        E, Ei = np.exp(1j * p), np.exp(-1j * p)
        self.triv = not nontriv
        H = np.zeros((m, m), dtype=complex)
        G = np.zeros((m, m), dtype=complex)
        mixL = superop(lambda x: self.left(x, A_, A), D)        # ket A_, bra A
        mixR = superop(lambda x: self.right(x, A, A_), D)
        inv = nla.inv
        if self.triv:
            # (the part along the fixed point plays no role)
            mixL = mixL - np.outer(l.ravel(), r.T.ravel())
            mixR = mixR - np.outer(r.ravel(), l.T.ravel())
        iL = inv(np.eye(D * D) - Ei * mixL)
        iR = inv(np.eye(D * D) - E * mixR)
        self.gap = 1 / max(nla.norm(iL, 2), nla.norm(iR, 2))
        for j, B in enumerate(self.basis):
            LB, RB = [zero] * X, [zero] * X
            for d in range(X - 1):
                x = Ei * sum((self.left(L[c], B, A, W[c, d]) for c in range(d + 1) if np.any(W[c, d])), zero)
                x = x + Ei * sum((self.left(LB[c], A_, A, W[c, d]) for c in range(d) if np.any(W[c, d])), zero)
                LB[d] = (iL @ x.ravel()).reshape(D, D) if d == 0 else x
            for c in range(X - 2, -1, -1):
                x = E * sum((self.right(R[d], B, A_, W[c, d]) for d in range(c, X) if np.any(W[c, d])), zero)
                x = x + E * sum((self.right(RB[d], A, A_, W[c, d]) for d in range(c + 1, X) if np.any(W[c, d])), zero)
                RB[c] = (iR @ x.ravel()).reshape(D, D) if c == 0 else x
            out = np.zeros_like(B)          # coefficient of conj(B')
            for c in range(X):
                for d in range(c, X):
                    if not np.any(W[c, d]):
                        continue
                    for s in range(q):
                        x = L[c] @ B[s] @ R[d] + LB[c] @ A_[s] @ R[d] + L[c] @ A[s] @ RB[d]
                        for t in range(q):
                            if W[c, d, t, s]:
                                out[t] += W[c, d, t, s] * x
            H[:, j] = [np.vdot(b, out) for b in self.basis]
            G[:, j] = [sum(np.vdot(b[s], l @ B[s] @ r_) for s in range(q)) for b in self.basis]
        self.H, self.G = H, G
        self.antiherm = nla.norm(H - H.conj().T)
        c = nla.cholesky((G + G.conj().T) / 2)
        ci = nla.inv(c)
        x = ci @ H @ ci.conj().T
        self.ev = nla.eigvalsh((x + x.conj().T) / 2)
        self.nonherm = nla.norm(x - x.conj().T)
        self.cond = nla.cond(G)

    @staticmethod
    def left(x, ket, bra, w=None):
        q = len(ket)
        if w is None:
            return sum(bra[s].conj().T @ x @ ket[s] for s in range(q))
        return sum(w[t, s] * (bra[t].conj().T @ x @ ket[s]) for s in range(q) for t in range(q) if w[t, s])

    @staticmethod
    def right(x, ket, bra, w=None):
        q = len(ket)
        if w is None:
            return sum(ket[s] @ x @ bra[s].conj().T for s in range(q))
        return sum(w[t, s] * (ket[s] @ x @ bra[t].conj().T) for s in range(q) for t in range(q) if w[t, s])


def superop(f, D):
    return np.array([f(e.reshape(D, D)).ravel() for e in np.eye(D * D)]).T


def solve(f, y, dual, fix):
    """x - E(x) = y for y without a part along the fixed point; x likewise."""
    D = len(y)
    m = superop(f, D) + np.outer(fix.ravel(), dual.T.ravel())
    return nla.solve(m, y.ravel()).reshape(D, D)


def fixed(A):
    """Fixed points l (bra, ket) and r (ket, bra), with tr(l r) = 1."""
    D = A.shape[1]
    out = []
    for f in (lambda x: Problem.left(x, A, A), lambda x: Problem.right(x, A, A)):
        ev, v = nla.eig(superop(f, D))
        x = v[:, np.argmax(abs(ev))].reshape(D, D)
        x = x / np.trace(x)
        out.append((x + x.conj().T) / 2)
    l, r = out
    return l / np.trace(l @ r).real, r


def energy(A, h):
    u = M.Uni([A])
    A = A / np.sqrt(u.ev)
    l, r = fixed(A)
    n, q = h.ndim // 2, h.shape[0]
    X = np.eye(A.shape[1])[None]
    for _ in range(n):
        X = np.einsum("xab,sbc->xsac", X, A).reshape(-1, A.shape[1], A.shape[2])
    rho = np.einsum("xab,bc,ydc,da->xy", X, r, X.conj(), l)
    return np.trace(h.reshape(q ** n, q ** n) @ rho).real


# ------------------------------------------------------------------------------------------- the run
def build(ctx, cfg):
    c = copy.deepcopy(cfg)
    rs = np.random.RandomState(c["init"]["seed"])
    q, D = c["q"], c["D"]
    if cfg["world"] == "parent":
        c["ham"]["kind"] = "rand"
    w = U.UW(ctx, c)
    for _ in range(60):
        A = rs.randn(q, D, D) + (0 if cfg["realA"] else 1j * rs.randn(q, D, D))
        A = A.astype(complex)
        if M.Uni([A]).gap < 0.85:
            break
    else:
        raise Abandon("gap")
    w.set_A([A])
    h = U.uham(c["ham"], q)
    if cfg["world"] == "parent":
        h = parent(A, c["ham"]["sites"])
    if "sym" in c["ham"] or cfg["world"] == "ising":
        h = symmetric(h, flip(cfg))
    w.s.set_ham(U.CallableUHam(h) if c["ham"]["callable"] else h.copy(), c["ham"]["sites"])
    if c["ham"]["tp"]:
        w.s.ham_tp = U.tp_of(h)
    w.h = h
    ctx.must("update", lambda: w.s.update(), seed=1)
    for _ in range(cfg["relax"]):
        ctx.must("calc_B", lambda: w.s.calc_B(), seed=2)
        ctx.must("take_step", lambda: w.s.take_step(0.05), seed=3)
        ctx.must("update", lambda: w.s.update(), seed=4)
        ctx.simtime += 0.05
    return w


def conditioned(w):
    return w.good(0.93) and w.min_schmidt() > 0.02


def execute(plan, ctx):
    cfg = plan["config"]
    w = build(ctx, cfg)
    ctx.probe(cfg["world"])
    for op in plan["ops"]:
        if not conditioned(w):
            raise Abandon("ill-conditioned")
        rs = np.random.RandomState(op["seed"])
        if op["op"] in BETWEEN:
            ctx.op(op["op"])
            between(w, op, rs)
        else:
            excite(w, op, rs, cfg)


def between(w, op, rs):
    ctx, s, k = w.ctx, w.s, op["op"]
    if k == "scramble":
        w.gauge_scramble(rs, cond=2.0)
    elif k == "phase":
        w.set_A([np.exp(2j * np.pi * rs.rand()) * w.A()[0]])
    elif k in ("step", "relax"):
        for _ in range(1 if k == "step" else 4):
            ctx.must("take_step", lambda: s.take_step(0.02 if k == "relax" else 0.02 * rs.choice([1, 1j])), seed=op["seed"])
            ctx.must("update", lambda: s.update(), seed=op["seed"])
            ctx.simtime += 0.02
        return
    elif k == "form":
        w.symm = not w.symm
        s.symm_gauge = w.symm
    elif k == "copy":
        w.s = s = copy.deepcopy(s)
    elif k == "tensors":
        if w.cfg["world"] == "parent" or w.cfg.get("realA"):
            return
        w.set_A([rs.randn(w.q, w.D, w.D) + 1j * rs.randn(w.q, w.D, w.D)])
        if M.Uni(w.A()).gap > 0.9:
            raise Abandon("gap")
    elif k == "eval":
        ctx.must("entropy", lambda: s.entropy(0), seed=3)
        ctx.must("expect_1s", lambda: s.expect_1s(F.herm(rs, w.q)), seed=3)
    ctx.must("update", lambda: s.update(), seed=op["seed"])


def aligned(A, A_):
    """Whether the phases of two states are in line, as the calculation wants; and the second's phase where they are not."""
    ev = nla.eigvals(M.cell_transfer([A], [A_]))
    ev = ev[np.argsort(-abs(ev))]
    return ev


def excite(w, op, rs, cfg):
    ctx, s, k, p = w.ctx, w.s, op["op"], op["p"]
    non = "nontriv" in k
    A0 = w.A()[0].copy()
    u = M.Uni([A0])
    donor = None
    if non:
        if "sym" in cfg["ham"] or cfg["world"] == "ising":
            g = flip(cfg)
        else:
            g = None
        if g is None:
            return
        A_ = np.tensordot(g, A0, axes=(1, 0))
        if rs.rand() < 0.6:
            x = F.rmat(rs, w.D) * 0.4 + np.eye(w.D)
            A_ = np.array([x @ a @ nla.inv(x) for a in A_])
        if rs.rand() < 0.6:
            A_ = A_ * np.exp(2j * np.pi * rs.rand())
        ev = aligned(A0 / np.sqrt(u.ev), A_ / np.sqrt(u.ev))
        if abs(ev[0]) > 0.9 or abs(ev[0]) < 0.02 or (len(ev) > 1 and abs(ev[1]) > 0.95 * abs(ev[0])):
            ctx.probe("states-too-close")
            return
        donor = copy.deepcopy(s)
        donor.A[0][:] = A_
        ctx.must("update", lambda: donor.update(), seed=op["seed"] + 1)
        dA = donor.A[0].copy()
        ev = aligned(A0, dA)
        ph = ev[0] / abs(ev[0])
        ref = Problem(A0 / ph, dA, w.h, p, nontriv=True)
        ctx.close(aligned(A0 / ph, dA)[0].imag, 0.0, 1e-8, "harness")
    else:
        ref = Problem(A0, A0, w.h, p)
    scale = max(1.0, nla.norm(w.h.ravel()), abs(ref.ev).max())
    if ref.cond > 1e6 or ref.gap < 0.02:
        ctx.probe("ill-conditioned-problem")
        return
    dim = len(ref.ev)
    ctx.op(k, (w.q, w.D, w.hcfg["sites"], bool(w.s.ham_tp), w.symm, "fault-" + op["fault"]["kind"] if op["fault"] else ""))
    tw = copy.deepcopy(s)
    it = k.startswith("iter")
    if it and dim < 6:
        it = False
    nev = rs.randint(1, 3)
    if it:
        nev = min(nev, dim - 2)
    vec = op["vec"]
    which = rs.choice(["SM", "SM", "SA", "LM"])
    kw = {}
    if it:
        kw.update(nev=nev, return_eigenvectors=vec)
        if which != "SM" or rs.rand() < 0.3:
            kw["which"] = which
        if rs.rand() < 0.3:
            kw["v0"] = F.rmat(rs, dim)[0] + 0j
        if rs.rand() < 0.2:
            kw["ncv"] = dim
    else:
        kw.update(return_eigenvectors=vec)
        if op["H"]:
            kw["return_H"] = True
    args = (donor, p) if non else (p,)
    fn = getattr(s, "excite_top_" + ("nontriv" if non else "triv") + ("" if it else "_brute"))
    faults = [op["fault"]] if op["fault"] else []
    kind = op["fault"]["kind"] if faults else None
    with p10.listening() as said:
        v, e = ctx.call("excite", lambda: fn(*args, **kw), faults=faults, seed=op["seed"], allow=(), ret_exc=True)
        fired = len(seams.S.fired)
        talk = said()
    if e is not None:
        from evoMPS.mps_uniform import EvoMPSNoConvergence
        if not fired:
            raise e
        if kind in ("noconv", "noconv_partial"):
            ctx.check(fired >= 3, "not-retried", lambda: "failed after %d failures of the solver: %r" % (fired, e))
            ctx.check(isinstance(e, EvoMPSNoConvergence), "wrong-report", lambda: "no convergence reported as %r" % (e,))
        else:
            ctx.check(isinstance(e, seams.INJECTED) or kind == "error", "wrong-report", lambda: "%s reported as %r" % (kind, e))
        ctx.probe("failed-" + kind)
        v = ctx.must("excite", lambda: fn(*args, **kw), seed=op["seed"] + 7)
    elif fired and kind == "status_partial":
        # (an unconverged linear solution is reported)
        ctx.check(talk, "silent", "unconverged environments not reported")
        ctx.probe("reported-" + kind)
        v = ctx.must("excite", lambda: fn(*args, **kw), seed=op["seed"] + 7)
    elif fired:
        ctx.probe("survived-" + kind)
    judge(w, ctx, op, ref, v, it, nev, kw, scale, p)
    if not it and not non and cfg["realA"] and np.isrealobj(np.real_if_close(w.h)) and nla.norm(A0.imag) < 1e-10 * nla.norm(A0):
        v2 = ctx.must("excite", lambda: s.excite_top_triv_brute(-p), seed=op["seed"] + 9)
        ctx.close(np.sort(np.real(v2)), ref.ev, 2e-7 * scale, "momentum-reversal", "energies at -p")
        ctx.probe("reversal")
    if cfg["world"] == "parent" and not it:
        ctx.check(ref.ev[0] > -1e-7, "harness", "negative oracle energies")
    untouched(w, ctx, tw, A0, donor, dA if non else None, non, op, rs)


def judge(w, ctx, op, ref, v, it, nev, kw, scale, p):
    H = None
    if kw.get("return_H"):
        v, H = v
    if kw.get("return_eigenvectors"):
        ev, V = v
    else:
        ev, V = v, None
    ev = np.asarray(ev)
    tol = 2e-7 * scale / min(1.0, 10 * ref.gap)
    ctx.log("ev", np.round(np.asarray(ev, dtype=complex), 5))
    ctx.check(np.all(np.isfinite(ev)), "energies", "energies not finite")
    ctx.check(nla.norm(np.imag(ev)) <= tol, "energies-complex", lambda: "energies %s" % ev)
    e = np.sort(np.real(ev))
    if it:
        ctx.check(len(e) == nev, "energies", "%d energies, not %d" % (len(e), nev))
        wh = kw.get("which", "SM")
        x = ref.ev[np.argsort(abs(ref.ev) if wh == "SM" else -abs(ref.ev) if wh == "LM" else ref.ev, kind="stable")]
        key = (lambda y: abs(y)) if wh in ("SM", "LM") else (lambda y: y)
        got = np.sort(key(e))
        want = np.sort(key(x[:nev]))
        ctx.close(got, want, tol, "energies", "energies (%s, p=%.3f)" % (wh, p))
        # each of them is one of the spectrum
        for y in e:
            ctx.check(np.min(abs(ref.ev - y)) <= tol, "energies", lambda: "energy %r is not one of %s" % (y, ref.ev))
    else:
        ctx.check(len(e) == len(ref.ev), "energies", "%d energies, not %d" % (len(e), len(ref.ev)))
        ctx.close(e, ref.ev, tol, "energies", "spectrum at p=%.3f" % p)
    if V is not None:
        ctx.check(V.shape == (len(ref.ev), len(ev)), "vectors", "shape %s" % (V.shape,))
        ctx.close(V.conj().T @ V, np.eye(len(ev)), 1e-7, "vectors", "orthonormal vectors")
    if H is not None:
        ctx.close(H, H.conj().T, tol, "energies-complex", "effective Hamiltonian, not Hermitian")
        ctx.close(nla.eigvalsh((H + H.conj().T) / 2), ref.ev, tol, "energies", "effective Hamiltonian")
        if V is not None:
            ctx.close(H @ V, V * ev[None, :], tol, "vectors", "eigenvectors")
    if it and V is not None and op["fault"] is None:
        tw = copy.deepcopy(w.s)
        if "nontriv" not in op["op"]:
            H = ctx.must("excite", lambda: tw.excite_top_triv_brute(p, return_H=True)[1], seed=4)
            ctx.close(H @ V, V * ev[None, :], 10 * tol, "vectors", "eigenvectors of the iterative route")
    ctx.probe(("iterative-" if it else "direct-") + ("kink" if "nontriv" in op["op"] else "trivial"))


def untouched(w, ctx, tw, A0, donor, dA, non, op, rs):
    """The ground state is what it was, and what follows is as without the calculation."""
    s = w.s
    A1 = np.asarray(s.A[0])
    if non:
        ph = np.vdot(A0, A1)
        ph /= abs(ph)
        ctx.check(abs(abs(ph) - 1) < 1e-9, "touched", "norm")
        ctx.close(A1, ph * A0, 1e-12, "touched", "state changed beyond its phase")
        ctx.check(T.same_bits([np.ascontiguousarray(donor.A[0])], [np.ascontiguousarray(dA)]), "touched", "the other ground state changed")
    else:
        ctx.check(T.same_bits([np.ascontiguousarray(A1)], [np.ascontiguousarray(A0)]), "touched", "state changed")
    for nm in ("h_expect",):
        ctx.close(complex(np.ravel(getattr(s, nm))[0]), complex(np.ravel(getattr(tw, nm))[0]), 1e-10, "touched", nm)
    o = F.rmat(rs, w.q)
    ctx.close(ctx.must("expect_1s", lambda: s.expect_1s(o), seed=5), ctx.must("expect_1s", lambda: tw.expect_1s(o), seed=5), 1e-9, "touched", "expectation value")
    if rs.rand() < 0.6:
        dt = 0.02 * rs.choice([1, 1j])
        for x in (s, tw):
            ctx.must("take_step", lambda: x.take_step(dt), seed=6)
            ctx.must("update", lambda: x.update(), seed=7)
        ctx.close(complex(np.ravel(s.h_expect)[0]), complex(np.ravel(tw.h_expect)[0]), 1e-7, "touched", "energy after a later step")
        ctx.close(1 - M_fid(s, tw), 0.0, 1e-8, "touched", "state after a later step")
        ctx.simtime += 0.02


def M_fid(a, b):
    ua, ub = M.Uni([a.A[0]]), M.Uni([b.A[0]])
    ev = nla.eigvals(M.cell_transfer([a.A[0]], [b.A[0]]))
    return abs(ev).max() / np.sqrt(abs(ua.ev) * abs(ub.ev))
