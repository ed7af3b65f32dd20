"""Infinite-chain world: configurations, edits, observations and oracles shared by the infinite-chain properties."""
import copy

import numpy as np
import numpy.linalg as nla

from . import model as M
from .core import Abandon, Violation
from .finite import arr, rmat, herm, unitary, _padsort
from .seams import S


# ------------------------------------------------------------------------------------------------ configuration
def gen_ucfg(rng, tdvp=True, Lmax=4, Dmax=7, qmax=3, ham_sites=None, callable_ok=True, tp_ok=True, real_ok=True, Dmin=1,
             kinds=("random", "tensors", "tensors", "product", "biased", "lowrank")):
    L = rng.choice([l for l in (1, 1, 1, 2, 2, 3, 3, 4) if l <= Lmax])
    q = rng.choice([x for x in (2, 2, 2, 3, 4) if x <= qmax])
    D = rng.choice([d for d in (1, 2, 2, 3, 3, 4, 4, 5, 6, 7) if Dmin <= d <= Dmax])
    cfg = dict(L=L, q=q, D=D, cls="tdvp" if tdvp else rng.choice(["tdvp", "mps"]))
    hs = ham_sites or (3 if rng.random() < 0.3 else 2)
    cfg["ham"] = gen_ham(rng, hs, callable_ok, tp_ok)
    cfg["symm"] = rng.random() < 0.5
    cfg["route"] = rng.choice(["arpack", "arpack", "arpack", "power", "brute"])
    cfg["real"] = bool(real_ok and rng.random() < 0.08)
    cfg["sanity"] = rng.random() < 0.1
    kind = rng.choice(list(kinds))
    cfg["init"] = dict(kind=kind, seed=rng.randrange(1 << 30))
    if cfg["real"]:
        cfg["ham"].update(kind="real", callable=False, tp=False)
        cfg["init"]["kind"] = "tensors"
    return cfg


def gen_ham(rng, hs, callable_ok=True, tp_ok=True):
    h = dict(sites=hs, kind=rng.choice(["rand", "rand", "real"]), seed=rng.randrange(1 << 30),
             callable=bool(callable_ok and rng.random() < 0.15), tp=False, scale=rng.choice([1.0, 1.0, 0.3, 2.0]))
    if tp_ok and hs == 2 and not h["callable"] and rng.random() < 0.12:
        h["tp"] = True
    return h


def ucfg_class(cfg):
    return "L%d/q%d/D%d/%s/%s/%s/%s/h%d%s%s%s" % (
        cfg["L"], cfg["q"], cfg["D"], "sym" if cfg["symm"] else "rgt", cfg["route"], cfg["cls"], cfg["init"]["kind"][:4],
        cfg["ham"]["sites"], "c" if cfg["ham"]["callable"] else "", "t" if cfg["ham"].get("tp") else "", "R" if cfg.get("real") else "")


def shrink_ucfg(plan):
    out = []
    c = plan["config"]

    def w(**k):
        p = copy.deepcopy(plan)
        p["config"].update(k)
        out.append(p)
    if c.get("sanity"):
        w(sanity=False)
    if c.get("real"):
        w(real=False)
    if c["ham"].get("callable") or c["ham"].get("tp"):
        w(ham=dict(c["ham"], callable=False, tp=False))
    if c["ham"].get("kind") != "rand":
        w(ham=dict(c["ham"], kind="rand"))
    if c["ham"].get("sites") == 3:
        w(ham=dict(c["ham"], sites=2))
    if c["route"] != "brute":
        w(route="brute")
    if c["symm"]:
        w(symm=False)
    if c["init"]["kind"] not in ("tensors", "u1"):
        w(init=dict(c["init"], kind="tensors"))
    if c["L"] > 1:
        w(L=c["L"] - 1)
    if c["q"] > 2 and c["init"]["kind"] != "u1":
        w(q=2)
    if c["D"] > 1:
        w(D=c["D"] - 1)
    return out


def uham(h, q):
    """The local term, a real or complex Hermitian array with 2*sites indices (bra..., ket...)."""
    rs = np.random.RandomState(h["seed"])
    d = q ** h["sites"]
    if h["kind"] == "ising":       # -XX - g Z
        X, Z, I = np.array([[0, 1], [1, 0]]), np.diag([1, -1]), np.eye(2)
        x = -np.kron(X, X) - h["g"] / 2 * (np.kron(Z, I) + np.kron(I, Z))
        return (x * h["scale"]).astype(complex).reshape((q,) * 4)
    if h["kind"] == "aklt":
        Sz = np.diag([1, 0, -1])
        Sp = np.sqrt(2) * np.diag([1, 1], 1)
        SS = np.kron(Sz, Sz) + (np.kron(Sp, Sp.T) + np.kron(Sp.T, Sp)) / 2
        return ((SS + SS @ SS / 3) * h["scale"]).astype(complex).reshape((q,) * 4)
    x = herm(rs, d)
    if h["kind"] == "real":
        x = x.real
        x = (x + x.T) / 2
    return (x * h["scale"]).reshape((q,) * (2 * h["sites"]))


class CallableUHam(object):
    """Function-valued Hamiltonian term ham(s, t, ..., u, v, ...)."""

    def __init__(self, t):
        self.t = t

    def __call__(self, *idx):
        return self.t[tuple(int(i) for i in idx)]


def tp_of(h4):
    """Tensor-product decomposition [[a, b], ...] of a two-site operator, sum_i a_i (x) b_i."""
    q = h4.shape[0]
    m = h4.transpose(0, 2, 1, 3).reshape(q * q, q * q)
    U, s, V = nla.svd(m)
    return [[(U[:, i] * s[i]).reshape(q, q).copy(), V[i].reshape(q, q).copy()] for i in range(len(s)) if s[i] > 1e-13]


def rand_cell(rs, L, q, D, real=False, fac=1.0):
    out = []
    for _ in range(L):
        a = rs.randn(q, D, D)
        if not real:
            a = a + 1j * rs.randn(q, D, D)
        out.append(a * fac / np.sqrt(2 * q * D))
    return out


def biased_cell(rs, L, q, D, w=0.35):
    """A weakly entangled, well gapped state: a product state plus a perturbation."""
    out = []
    for _ in range(L):
        v = rmat(rs, q, 1).ravel()
        v /= nla.norm(v)
        a = rmat(rs, D * q, D).reshape(q, D, D) * w / np.sqrt(q * D)
        a[:, 0, 0] += v
        out.append(a)
    return out


def u1_cell(rs, L, q, D):
    """A random state conserving the charge diag(-j..j), j = (q - 1) / 2 (q odd); returns (tensors, bond charges)."""
    ch = np.arange(q) - (q - 1) / 2.0
    lo = -(D // 2)
    n = np.array([lo + i for i in range(D)], dtype=float)
    if D > 3:
        n = np.array(sorted([(i % 3) - 1 for i in range(D)]), dtype=float)
    out = []
    for _ in range(L):
        a = rmat(rs, D * q, D).reshape(q, D, D)
        for s in range(q):
            mask = (n[None, :] == n[:, None] + ch[s])
            a[s] *= mask
        out.append(a / np.sqrt(q * D))
    return out, n


def own_scf(A):
    """Independent symmetric canonical form: list of (A in that form, schmidt values per bond after site k)."""
    u = M.Uni(A)
    L = u.L
    ls, rs = u.env_l(), u.env_r()
    ev = abs(u.ev)
    A = [a.copy() for a in u.A]
    X, Xi, sv = [None] * L, [None] * L, [None] * L
    for k in range(L):
        D = A[k].shape[2]
        l = ls[(k + 1) % L].reshape(D, D)
        r = rs[k].reshape(D, D)
        l, r = psd_phase(l), psd_phase(r)
        wr, vr = nla.eigh(r)
        wl, vl = nla.eigh(l.T)                      # l.T acts as the usual (bra, ket) left matrix
        wr, wl = np.clip(wr, 0, None), np.clip(wl, 0, None)
        R = vr * np.sqrt(wr)                        # r = R R^+
        Lm = (vl * np.sqrt(wl)).conj().T            # l = Lm^+ Lm
        U, s, V = nla.svd(Lm @ R)
        keep = s > s[0] * 1e-12
        si = np.where(keep, 1 / np.sqrt(np.where(keep, s, 1)), 0)
        X[k] = (si[:, None] * (U.conj().T @ Lm))    # g
        Xi[k] = (R @ V.conj().T) * si               # g^-1
        sv[k] = s / nla.norm(s)
    out = []
    for k in range(L):
        out.append(np.einsum('ab,sbc,cd->sad', X[(k - 1) % L], A[k], Xi[k]))
    return out, sv


def psd_phase(m):
    t = np.trace(m)
    m = m * (abs(t) / t)
    return (m + m.conj().T) / 2


# ------------------------------------------------------------------------------------------------------ the world
class UW(object):
    """One evoMPS infinite chain plus everything needed to say what it should be."""

    def __init__(self, ctx, cfg, name="u", build=True):
        self.ctx, self.cfg, self.name = ctx, cfg, name
        self.L, self.q = cfg["L"], cfg["q"]
        self.is_tdvp = cfg["cls"] == "tdvp"
        self.charges = None
        if build:
            self.build()

    def build(self):
        from evoMPS.mps_uniform import EvoMPS_MPS_Uniform
        from evoMPS.tdvp_uniform import EvoMPS_TDVP_Uniform
        ctx, cfg = self.ctx, self.cfg
        dt = np.float64 if cfg.get("real") else None
        if self.is_tdvp:
            self.set_model(cfg["ham"])
            self.s = ctx.must("new", lambda: EvoMPS_TDVP_Uniform(cfg["D"], self.q, self.make_ham(), ham_sites=cfg["ham"]["sites"],
                                                                 L=self.L, dtype=dt, do_update=False), seed=cfg["init"]["seed"])
            if cfg["ham"].get("tp"):
                self.s.ham_tp = tp_of(self.h)
        else:
            self.h = None
            self.s = ctx.must("new", lambda: EvoMPS_MPS_Uniform(cfg["D"], self.q, L=self.L, dtype=dt, do_update=False), seed=cfg["init"]["seed"])
        self.set_opts(cfg["route"], cfg["symm"])
        self.s.sanity_checks = bool(cfg["sanity"])
        self.init_state(cfg["init"])

    def set_opts(self, route=None, symm=None):
        if route is not None:
            self.s.ev_brute = route == "brute"
            self.s.ev_use_arpack = route == "arpack"
            self.route = route
        if symm is not None:
            self.s.symm_gauge = bool(symm)
            self.symm = bool(symm)

    def set_model(self, h):
        self.hcfg = h
        self.h = uham(h, self.q)
        self.sites = h["sites"]

    def make_ham(self):
        return CallableUHam(self.h) if self.hcfg["callable"] else self.h.copy()

    def apply_ham(self, via_set=True):
        """Give the (new) Hamiltonian to the object."""
        s = self.s
        if via_set:
            self.ctx.must("set_ham", lambda: s.set_ham(self.make_ham(), self.sites))
        else:
            s.ham = self.make_ham()
            s.ham_sites = self.sites
        s.ham_tp = tp_of(self.h) if self.hcfg.get("tp") else None

    # -- state access
    def A(self):
        return [np.array(a) for a in self.s.A]

    def uni(self):
        return M.Uni(self.A())

    @property
    def D(self):
        return self.s.A[0].shape[1]

    def set_A(self, T):
        for k in range(self.L):
            self.s.A[k][:] = T[k]

    def init_state(self, ini):
        rs = np.random.RandomState(ini["seed"] % (2 ** 32))
        k, s, ctx = ini["kind"], self.s, self.ctx
        D, q, L = int(s.D), self.q, self.L
        real = bool(self.cfg.get("real"))
        if k == "random":
            ctx.call("randomize", lambda: s.randomize(do_update=False), seed=ini["seed"])
        elif k == "tensors":
            self.set_A(rand_cell(rs, L, q, D, real, fac=rs.choice([0.3, 1.0, 3.0])))
        elif k == "biased":
            self.set_A(biased_cell(rs, L, q, D))
        elif k == "u1":
            T, self.charges = u1_cell(rs, L, q, D)
            self.set_A(T)
        elif k == "product":
            T = np.zeros((L, q, D, D), dtype=complex)
            for j in range(L):
                v = rmat(rs, q, 1).ravel()
                T[j][:, 0, 0] = v / nla.norm(v)
            if D > 1:
                T += 0.3 * np.array(rand_cell(rs, L, q, D))
            self.set_A(T)
        elif k == "lowrank":
            d = max(1, D - 1)
            T = rand_cell(rs, L, q, d)
            g = [unitary(rs, D) for _ in range(L)]
            T2 = []
            for j in range(L):
                x = np.zeros((q, D, D), dtype=complex)
                x[:, :d, :d] = T[j]
                T2.append(np.einsum('ab,sbc,cd->sad', g[j - 1].conj().T, x, g[j]))
            self.set_A(T2)

    def good(self, gap=0.96):
        """Generic enough to be decided: finite, not badly degenerate."""
        A = self.A()
        if not all(np.all(np.isfinite(a)) for a in A):
            return False
        u = self.uni()
        return u.gap < gap and 1e-10 < abs(u.ev) < 1e10

    # -- oracles
    def check_fixed_points(self, tol=1e-9, kind="fixed-point"):
        ctx, s, L = self.ctx, self.s, self.L
        A = self.A()
        u = M.Uni(A)
        ctx.close(abs(u.ev), 1.0, tol, "transfer-eigenvalue", "largest eigenvalue of the unit-cell transfer operator")
        ctx.check(len(s.l) == L and len(s.r) == L and len(s.A) == L, kind, "wrong number of environments")
        for k in range(L):
            l0, l1 = arr(s.l[(k - 1) % L]), arr(s.l[k])
            r0, r1 = arr(s.r[(k - 1) % L]), arr(s.r[k])
            D = A[k].shape[1]
            for nm, x in (("l", l1), ("r", r1)):
                ctx.check(x.shape == (D, D), kind + "-" + nm, "shape %s at %d" % (x.shape, k))
            a = A[k]
            scl = max(nla.norm(l0), nla.norm(l1), 1e-300)
            scr = max(nla.norm(r0), nla.norm(r1), 1e-300)
            ctx.close(np.einsum('sab,ac,scd->bd', a.conj(), l0, a), l1, tol, kind + "-l", "left equation across site %d" % k, scale=scl)
            ctx.close(np.einsum('sab,bc,sdc->ad', a, r1, a.conj()), r0, tol, kind + "-r", "right equation across site %d" % k, scale=scr)
            ctx.close(np.sum(l1.conj() * r1), 1.0, tol, "fixed-point-overlap", "bond after site %d" % k)
            ctx.close(l1, l1.conj().T, tol, kind + "-l", "Hermitian, bond %d" % k, scale=scl)
            ctx.close(r1, r1.conj().T, tol, kind + "-r", "Hermitian, bond %d" % k, scale=scr)
            ctx.check(nla.eigvalsh(l1 / scl).min() > -1e-8 and nla.eigvalsh(r1 / scr).min() > -1e-8, kind + "-positive", "bond %d" % k)

    def check_canonical(self, tol=1e-9, form=None, full_rank=True):
        """form: 'sym', 'right' or 'left'."""
        ctx, s, L = self.ctx, self.s, self.L
        form = form or ("sym" if s.symm_gauge else "right")
        A = self.A()
        for k in range(L):
            l, r = arr(s.l[k]), arr(s.r[k])
            D = l.shape[0]
            eye = np.eye(D)
            sv = np.sort(M.Uni(A).schmidt_sq(k))[::-1]
            if form == "sym":
                ctx.close(l, r, tol, "canonical-sym", "l == r at bond %d" % k)
                ctx.close(l, np.diag(np.diag(l)), tol, "canonical-diagonal", "bond %d" % k)
                d = np.diag(l).real
                ctx.check(np.all(np.diff(d) <= 1e-9), "canonical-order", "bond %d: %s" % (k, d))
                ctx.close(d ** 2, sv, tol, "schmidt-spectrum", "bond %d" % k)
            else:
                e, dg = (r, l) if form == "right" else (l, r)
                if full_rank:
                    ctx.close(e, eye, tol, "canonical-identity", "bond %d, %s form" % (k, form))
                else:
                    ctx.close(e @ e, e, max(tol, 1e-7), "canonical-identity", "bond %d, %s form (projector)" % (k, form))
                ctx.close(dg, np.diag(np.diag(dg)), tol, "canonical-diagonal", "bond %d" % k)
                d = np.diag(dg).real
                ctx.check(np.all(np.diff(d) >= -1e-9), "canonical-order", "bond %d: %s" % (k, d))
                ctx.close(np.sort(d)[::-1], sv, tol, "schmidt-spectrum", "bond %d" % k)

    def window(self, q=None):
        q = q or self.q
        n = 1
        while q ** (n + 1) <= 32:
            n += 1
        return n

    def rdms(self, A=None):
        u = M.Uni(self.A() if A is None else A)
        n = self.window(u.A[0].shape[0])
        return [u.rdm(k, n) for k in range(u.L)]

    def same_state(self, A0, tol, kind, what=""):
        """All local density matrices are those of the tensors A0, and so is the overlap per cell."""
        ctx = self.ctx
        A1 = self.A()
        ctx.check(all(np.all(np.isfinite(a)) for a in A1), kind, what + ": tensors are not finite")
        u0, u1 = M.Uni(A0), M.Uni(A1)
        n = self.window(u0.A[0].shape[0])
        for k in range(self.L):
            ctx.close(u1.rdm(k, n), u0.rdm(k, n), tol, kind, "%s: %d-site density matrix at offset %d" % (what, n, k))
        f = M.fid_per_cell(A0, A1)
        ctx.close(f, 1.0, tol, kind, "%s: overlap per cell" % what)

    def min_schmidt(self):
        u = self.uni()
        m = 1.0
        for k in range(self.L):
            w = np.clip(u.schmidt_sq(k), 0, None)
            m = min(m, float(np.sqrt(w.min() / w.max())))
        return m

    def energy(self, A=None):
        u = self.uni() if A is None else M.Uni(A)
        return u.energy(self.h, self.sites).real

    # -- edits which keep the state
    def gauge_scramble(self, rs, cond=3.0, scale=True, real=False):
        L, s = self.L, self.s
        A = self.A()
        D = A[0].shape[1]
        g = []
        for _ in range(L):
            u1, u2 = unitary(rs, D), unitary(rs, D)
            if real:
                u1, u2 = nla.qr(rs.randn(D, D))[0], nla.qr(rs.randn(D, D))[0]
            g.append(u1 @ np.diag(np.exp(rs.uniform(-0.5, 0.5, D) * np.log(cond))) @ u2)
        for k in range(L):
            s.A[k] = np.ascontiguousarray(np.einsum('ab,sbc,cd->sad', nla.inv(g[k - 1]), A[k], g[k]))
            if scale:
                f = np.exp(rs.uniform(-1, 1))
                if not real:
                    f = f * np.exp(2j * np.pi * rs.rand())
                s.A[k] = s.A[k] * f
        return g

    def rand_op(self, rs, kind="any"):
        if self.cfg.get("real"):
            return nla.qr(rs.randn(self.q, self.q))[0] if kind == "unitary" else rs.randn(self.q, self.q) / self.q
        if kind == "herm":
            return herm(rs, self.q)
        if kind == "unitary":
            return unitary(rs, self.q)
        return rmat(rs, self.q) / self.q

    # -- observations
    def observations(self, rs, many=True, skip=()):
        """[(name, evo_fn, reference, tolerance)] for the current, up-to-date state."""
        s, L, q = self.s, self.L, self.q
        u = self.uni()
        out = []

        def add(nm, fn, ref, tol=1e-8):
            out.append((nm, fn, ref, tol))

        def asfun(o):
            if self.cfg.get("real"):
                return o
            return lambda *i: o[tuple(int(x) for x in i)]
        offs = range(L) if many else [rs.randint(L)]
        for k in offs:
            o = self.rand_op(rs)
            f = asfun(o) if rs.rand() < 0.3 else o
            add("expect_1s(%d)" % k, lambda f=f, k=k: s.expect_1s(f, k), u.expect(o, k, 1))
            add("density_1s(%d)" % k, lambda k=k: s.density_1s(k), u.rdm(k, 1).T)
            add("basis_occupancy(%d)" % k, lambda k=k: s.basis_occupancy(k), np.diag(u.rdm(k, 1)).real)
            o2 = (rmat(rs, q * q) / q).reshape((q,) * 4)
            if self.cfg.get("real"):
                o2 = o2.real
            f2 = asfun(o2) if rs.rand() < 0.2 else o2
            add("expect_2s(%d)" % k, lambda f=f2, k=k: s.expect_2s(f, k), u.expect(o2, k, 2))
            tp = tp_of(o2)
            add("expect_2s_tp(%d)" % k, lambda tp=tp, k=k: s.expect_2s_tp(tp, k), u.expect(o2, k, 2))
            if q <= 3 and (many and rs.rand() < 0.6):
                o3 = (rmat(rs, q ** 3) / q).reshape((q,) * 6)
                if self.cfg.get("real"):
                    o3 = o3.real
                f3 = asfun(o3) if (rs.rand() < 0.15 and q == 2) else o3
                add("expect_3s(%d)" % k, lambda f=f3, k=k: s.expect_3s(f, k), u.expect(o3, k, 3))
            d = rs.randint(1, 2 * L + 3)
            oa, ob = self.rand_op(rs), self.rand_op(rs)
            same = rs.rand() < 0.2
            if same:
                ob = oa
            eye = np.eye(q)
            cf = [u.expect(oa @ ob, k, 1)] + [u.string([oa] + [eye] * (j - 1) + [ob], k) for j in range(1, d + 1)]
            fa = asfun(oa) if rs.rand() < 0.3 else oa
            fb = fa if same else (asfun(ob) if rs.rand() < 0.3 else ob)
            add("expect_1s_1s(%d,%d)" % (k, d), lambda fa=fa, fb=fb, d=d, k=k: s.expect_1s_1s(fa, fb, d, k=k), cf[-1])
            add("intermediates(%d,%d)" % (k, d), lambda fa=fa, fb=fb, d=d, k=k: s.expect_1s_1s(fa, fb, d, k=k, return_intermediates=True), np.array(cf))
            e1 = [u.expect(oa, k + j, 1) for j in range(d + 1)]
            e2 = [u.expect(ob, k + j, 1) for j in range(d + 1)]
            cc = np.array([cf[j] - e1[0] * e2[j] for j in range(d + 1)])
            add("correlation(%d,%d)" % (k, d), lambda fa=fa, fb=fb, d=d, k=k: s.correlation_1s_1s(fa, fb, d, k=k), cc)
            add("correlation_exvals(%d,%d)" % (k, d),
                lambda fa=fa, fb=fb, d=d, k=k: np.array(s.correlation_1s_1s(fa, fb, d, k=k, return_exvals=True)), np.array([cc, e1, e2]))
            o = self.rand_op(rs, "unitary")
            f = asfun(o) if rs.rand() < 0.3 else o
            add("string(%d,%d)" % (k, d), lambda f=f, k=k, d=d: s.expect_string_1s(f, k, d), np.array([u.string([o] * (j + 1), k) for j in range(d + 1)]))
            w = np.sort(u.schmidt_sq(k))[::-1]
            add("schmidt_sq(%d)" % k, lambda k=k: np.sort(np.asarray(s.schmidt_sq(k)).real)[::-1], w)
            if w.min() > 1e-9:
                add("entropy(%d)" % k, lambda k=k: s.entropy(k), float(-np.sum(w * np.log2(w))))
                add("entropy_sq(%d)" % k, lambda k=k: np.sort(np.asarray(s.entropy(k, ret_schmidt_sq=True)[1]).real)[::-1], w)
        o = self.rand_op(rs, "unitary")
        T = None
        for a in u.A:
            t = M.site_transfer(a, a, o)
            T = t if T is None else T @ t
        ev = nla.eigvals(T)
        ev = ev[np.argsort(-np.abs(ev))]
        f = asfun(o) if rs.rand() < 0.3 else o
        if len(ev) == 1 or abs(ev[1]) < 0.97 * abs(ev[0]):
            # the root is only defined up to the branch: compare the L-th power
            add("string_per_site", lambda f=f: np.asarray(s.expect_string_per_site_1s(f)).ravel()[0] ** L, ev[0] / abs(u.ev))
        evs = np.sort(np.abs(u.evs))[::-1] / np.abs(u.ev)
        if len(evs) > 1:
            add("E_gap", lambda: s.calc_E_gap(), evs[0] - evs[1], 1e-7)
            if 1e-6 < evs[1] < 0.95:
                add("correlation_length", lambda: s.correlation_length(), -L / np.log(evs[1]), 1e-6)
        else:
            add("correlation_length", lambda: s.correlation_length(), 0.0)
        if self.is_tdvp:
            add("h_expect", lambda: s.h_expect, u.energy(self.h, self.sites))
            if not self.hcfg["callable"]:
                for k in offs:
                    f = s.expect_2s if self.sites == 2 else s.expect_3s
                    add("expect_ham(%d)" % k, lambda f=f, k=k: f(s.ham, k), u.expect(self.h, k, self.sites))
        return [x for x in out if x[0].split("(")[0] not in skip]

    def observe(self, rs, many=True, skip=(), tolfac=1.0):
        ctx = self.ctx
        for name, fn, ref, tol in self.observations(rs, many, skip):
            v = ctx.must(name, fn)
            ctx.close(v, ref, tol * tolfac, name.split("(")[0], name)
            ctx.log(name, np.asarray(v, dtype=complex))
