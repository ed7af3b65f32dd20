"""Finite-chain world: configurations, operations and oracles shared by the finite-chain properties."""
import copy

import numpy as np
import numpy.linalg as nla

from . import model as M
from .core import Abandon, Violation
from .seams import S


def arr(x):
    """Dense array of whatever evoMPS stores (eye / diagonal wrapper / ndarray)."""
    if x is None:
        return None
    a = getattr(x, "A", None)
    if a is not None and not isinstance(x, np.ndarray):
        return np.array(a, dtype=complex)
    return np.array(x, dtype=complex)


def rmat(rs, n, m=None):
    m = n if m is None else m
    return rs.randn(n, m) + 1j * rs.randn(n, m)


def herm(rs, d):
    x = rmat(rs, d)
    x = (x + x.conj().T) / 2
    return x / nla.norm(x, 2)


def unitary(rs, d):
    q, r = nla.qr(rmat(rs, d))
    return q


# ------------------------------------------------------------------------------------------------ configuration
def gen_cfg(rng, tdvp=True, Nmax=6, dmax=260, Dmax=4, Nmin=2, ham_sites=None, left_ok=True, callable_ok=True,
            none_ok=True, kinds=("random", "tensors", "product", "lowrank", "overcomplete", "default")):
    while True:
        N = rng.choice([n for n in (2, 3, 3, 4, 4, 4, 5, 5, 5, 6, 6, 7) if Nmin <= n <= Nmax])
        u = rng.random()
        if u < 0.5:
            q = [2] * N
        elif u < 0.6:
            q = [3] * N
        else:
            q = [rng.choice([2, 2, 3, 3, 4]) for _ in range(N)]
        if int(np.prod(q)) <= dmax:
            break
    Dm = rng.randint(1, Dmax)
    if rng.random() < 0.5:
        D = [1] + [Dm] * (N - 1) + [1]
    else:
        D = [1] + [rng.randint(1, max(1, Dm)) for _ in range(N - 1)] + [1]
    cfg = dict(N=N, q=q, D=D, cls="tdvp" if tdvp else rng.choice(["tdvp", "mps"]))
    hs = ham_sites or (3 if (N >= 3 and rng.random() < 0.35) else 2)
    nt = N - hs + 1
    hk = rng.choice(["rand", "rand", "real", "ti" if len(set(q)) == 1 else "rand"])
    cfg["ham"] = dict(sites=hs, kind=hk, seed=rng.randrange(1 << 30), callable=bool(callable_ok and rng.random() < 0.15),
                      missing=[n for n in range(1, nt + 1) if none_ok and rng.random() < 0.08], scale=rng.choice([1.0, 1.0, 0.3, 2.0]))
    if cfg["ham"]["callable"] or len(cfg["ham"]["missing"]) == nt or 1 in cfg["ham"]["missing"]:
        cfg["ham"]["missing"] = []
    cfg["cf"] = rng.choice(["right", "right", "left"]) if left_ok else "right"
    cfg["gf"] = cfg["cf"] if rng.random() < 0.7 or not left_ok else rng.choice(["right", "left"])
    cfg["sanity"] = rng.random() < 0.15
    cfg["init"] = dict(kind=rng.choice(list(kinds)), seed=rng.randrange(1 << 30))
    return cfg


def cfg_class(cfg):
    return "N%d/%s/%s/%s%s/%s/%s/h%d%s%s" % (
        cfg["N"], "q" + ("u" if len(set(cfg["q"])) == 1 else "n"), "D%d" % max(cfg["D"]), cfg["cf"][0], cfg["gf"][0], cfg["cls"],
        cfg["init"]["kind"][:4], cfg["ham"]["sites"], "c" if cfg["ham"]["callable"] else "", "m" if cfg["ham"]["missing"] else "")


def shrink_cfg(plan):
    """Simpler configurations for the minimiser."""
    out = []
    c = plan["config"]

    def w(**k):
        p = copy.deepcopy(plan)
        p["config"].update(k)
        out.append(p)
    if c.get("sanity"):
        w(sanity=False)
    if c["ham"].get("callable"):
        w(ham=dict(c["ham"], callable=False))
    if c["ham"].get("missing"):
        w(ham=dict(c["ham"], missing=[]))
    if c["ham"].get("kind") != "rand":
        w(ham=dict(c["ham"], kind="rand"))
    if c["gf"] != c["cf"]:
        w(gf=c["cf"])
    if c["cf"] == "left":
        w(cf="right", gf="right")
    if c["init"]["kind"] != "random":
        w(init=dict(c["init"], kind="random"))
    if c["N"] > 2 and (c["ham"]["sites"] == 2 or c["N"] > 3):
        w(N=c["N"] - 1, q=c["q"][:-1], D=c["D"][:-2] + [1])
    if len(set(c["q"])) > 1 or max(c["q"]) > 2:
        w(q=[2] * c["N"])
    if max(c["D"]) > 1:
        w(D=[min(d, max(c["D"]) - 1) for d in c["D"]])
    return out


def ham_terms(h, q, N):
    """list over n=1..N-sites+1 of arrays (bra..., ket...) or None"""
    rs = np.random.RandomState(h["seed"])
    k = h["sites"]
    out = []
    base = None
    for n in range(1, N - k + 2):
        qs = q[n - 1:n - 1 + k]
        d = int(np.prod(qs))
        if h["kind"] == "ti":
            if base is None:
                base = herm(rs, d)
            x = base
        elif h["kind"] == "real":
            x = herm(rs, d).real
            x = (x + x.T) / 2
        else:
            x = herm(rs, d)
        x = x * h["scale"]
        out.append(None if n in h["missing"] else np.array(x, dtype=complex).reshape(tuple(qs) * 2))
    return out


class CallableHam(object):
    """Function-valued Hamiltonian ham(n, s, t, ..., u, v, ...)."""

    def __init__(self, terms):
        self.terms = terms

    def __call__(self, n, *idx):
        return self.terms[int(n) - 1][tuple(int(i) for i in idx)]


def rand_tensors(rs, q, D, fac=1.0):
    return [(rs.randn(q[n], D[n], D[n + 1]) + 1j * rs.randn(q[n], D[n], D[n + 1])) * fac / np.sqrt(q[n] * D[n]) for n in range(len(q))]


def maxD(q, n):
    return int(min(np.prod(q[:n]), np.prod(q[n:])))


class FW(object):
    """One evoMPS finite chain plus everything needed to say what it should be."""

    def __init__(self, ctx, cfg, name="s"):
        from evoMPS.mps_gen import EvoMPS_MPS_Generic
        from evoMPS.tdvp_gen import EvoMPS_TDVP_Generic
        self.ctx, self.cfg, self.name = ctx, cfg, name
        self.N, self.q = cfg["N"], list(cfg["q"])
        q = np.array([cfg.get("q0", cfg["q"][0])] + cfg["q"])
        D = np.array(cfg["D"])
        self.is_tdvp = cfg["cls"] in ("tdvp", "diss")
        if self.is_tdvp:
            self.set_model(cfg["ham"])
            ham = self.make_ham()
            if cfg["cls"] == "diss":
                from evoMPS.tdvp_gen_diss import EvoMPS_TDVP_Generic_Dissipative
                self.s = ctx.must("new", lambda: EvoMPS_TDVP_Generic_Dissipative(
                    self.N, D, q, ham, self.make_linds(cfg["linds"], ham), ham_sites=cfg["ham"]["sites"]))
            else:
                self.s = ctx.must("new", lambda: EvoMPS_TDVP_Generic(self.N, D, q, ham, ham_sites=cfg["ham"]["sites"]))
            self.s.gauge_fixing = cfg["gf"]
        else:
            self.terms = []
            self.hterms = None
            self.s = ctx.must("new", lambda: EvoMPS_MPS_Generic(self.N, D, q))
        self.s.canonical_form = cfg["cf"]
        self.s.sanity_checks = bool(cfg["sanity"])
        self.init_state(cfg["init"])

    # -- Hamiltonian
    def set_model(self, h):
        self.hcfg = h
        self.hterms = ham_terms(h, self.q, self.N)
        self.sites = h["sites"]
        self.terms = [(n, h["sites"], t) for n, t in enumerate(self.hterms) if t is not None]

    def make_ham(self):
        if self.hcfg["callable"]:
            return CallableHam(self.hterms)
        return [None] + [None if t is None else t.copy() for t in self.hterms] + [None] * (self.hcfg["sites"] - 1)

    def make_linds(self, linds, ham):
        """Jump operators (n, array) of the range of the model's terms."""
        out = []
        for c in linds:
            rs = np.random.RandomState(c["seed"])
            k = self.sites
            n = 1 + int(c["pos"] * (self.N - k + 1))
            qs = self.q[n - 1:n - 1 + k]
            d = int(np.prod(qs))
            if c["kind"] == "term" and not callable(ham) and ham[n] is not None:
                out.append((n, ham[n]))             # (the very array of the model)
                continue
            if c["kind"] == "local":                # one site's operator
                j = rs.randint(k)
                x = np.kron(np.kron(np.eye(int(np.prod(qs[:j]))), rmat(rs, qs[j])), np.eye(int(np.prod(qs[j + 1:]))))
            elif c["kind"] == "herm":
                x = herm(rs, d)
            else:
                x = rmat(rs, d)
            if c["kind"] == "real":
                x = x.real.copy()
            out.append((n, (c["scale"] * x).reshape(tuple(qs) * 2)))
        return out

    # -- state access (tensors are public attributes)
    def A(self):
        return [np.array(self.s.A[n], dtype=complex) for n in range(1, self.N + 1)]

    def psi(self):
        return M.vec_from_tensors(self.A())

    def finite_ok(self):
        return all(np.all(np.isfinite(a)) for a in self.A())

    def init_state(self, ini):
        rs = np.random.RandomState(ini["seed"] % (2 ** 32))
        k = ini["kind"]
        s = self.s
        D = [int(x) for x in s.D]
        ctx = self.ctx
        if k == "random":
            ctx.call("randomize", lambda: s.randomize(do_update=False), seed=ini["seed"])
        elif k == "tensors":
            T = rand_tensors(rs, self.q, D, fac=rs.choice([0.3, 1.0, 3.0]))
            ctx.must("set_tensors", lambda: s.set_state_from_tensors([None] + T, do_update=False))
        elif k == "product":
            v = [rmat(rs, self.q[n], 1).ravel() for n in range(self.N)]
            v = [x / nla.norm(x) for x in v]
            self.prod = v
            ctx.must("set_product", lambda: s.set_state_product(v, do_update=False))
        elif k == "lowrank":
            Dl = [1] + [max(1, d - 1) for d in D[1:-1]] + [1]
            T = rand_tensors(rs, self.q, Dl)
            T2 = []
            for n in range(self.N):
                x = np.zeros((self.q[n], D[n], D[n + 1]), dtype=complex)
                x[:, :Dl[n], :Dl[n + 1]] = T[n]
                T2.append(x)
            g = [np.eye(1)] + [unitary(rs, d) for d in D[1:-1]] + [np.eye(1)]
            T2 = [np.einsum('ab,sbc,cd->sad', g[n].conj().T, T2[n], g[n + 1]) for n in range(self.N)]
            ctx.must("set_tensors", lambda: s.set_state_from_tensors([None] + T2, do_update=False))
        elif k == "overcomplete":
            Do = [1] + [min(maxD(self.q, n) + rs.randint(0, 3), d + 2) for n, d in list(enumerate(D))[1:-1]] + [1]
            T = rand_tensors(rs, self.q, Do)
            ctx.must("set_tensors", lambda: s.set_state_from_tensors([None] + T, do_update=False))
        elif k == "default":
            pass

    # -- own environments
    def envs(self, A=None):
        A = A or self.A()
        l = [np.eye(1, dtype=complex)]
        for a in A:
            l.append(np.einsum('sab,ac,scd->bd', a.conj(), l[-1], a))
        r = [None] * (self.N + 1)
        r[self.N] = np.eye(1, dtype=complex)
        for n in range(self.N, 0, -1):
            a = A[n - 1]
            r[n - 1] = np.einsum('sab,bc,sdc->ad', a, r[n], a.conj())
        return l, r

    # -- oracles
    def check_envs(self, tol=1e-10, kind="environment"):
        ctx, s = self.ctx, self.s
        l, r = self.envs()
        for n in range(self.N + 1):
            ctx.close(arr(s.l[n]), l[n], tol, kind + "-l", "left environment at bond %d" % n)
            ctx.close(arr(s.r[n]), r[n], tol, kind + "-r", "right environment at bond %d" % n)

    def check_D(self):
        s, ctx = self.s, self.ctx
        A = self.A()
        ctx.check(len(s.D) == self.N + 1 and int(s.D[0]) == 1 and int(s.D[self.N]) == 1, "bond-dimension-record", "D=%s" % (s.D,))
        for n in range(self.N):
            ctx.check(A[n].shape == (self.q[n], int(s.D[n]), int(s.D[n + 1])), "bond-dimension-record",
                      "site %d has shape %s but D=%s" % (n + 1, A[n].shape, list(s.D)))

    def check_canonical(self, norm=True, tol=1e-10, diag=True, form=None, strict=True, psi=None):
        """Canonical conditions.  strict: full-rank isometries expected at every site."""
        ctx, s = self.ctx, self.s
        form = form or s.canonical_form
        A = self.A()
        psi = self.psi() if psi is None else psi
        n2 = float(np.vdot(psi, psi).real)
        if norm:
            ctx.close(n2, 1.0, tol, "norm", "squared norm after normalising update")
        for n in range(self.N):
            a = A[n]
            g = np.einsum('sab,sdb->ad', a, a.conj()) if form == "right" else np.einsum('sab,sac->bc', a.conj(), a)
            end = 0 if form == "right" else self.N - 1
            want = np.eye(g.shape[0]) * (n2 if n == end else 1.0)
            if strict:
                ctx.close(g, want, tol, "canonical-orthonormality", "site %d, %s form" % (n + 1, form))
            else:
                # rank-deficient: orthonormal on the occupied subspace: g must be a projector
                if n != end:
                    ctx.close(g @ g, g, max(tol, 1e-6), "canonical-orthonormality", "site %d, %s form (projector)" % (n + 1, form))
        if diag:
            for n in range(self.N + 1):
                x = arr(s.l[n] if form == "right" else s.r[n])
                sv = np.sort(M.schmidt(psi, n) ** 2)[::-1] if 0 < n < self.N else np.array([n2 if (n == self.N) == (form == "right") else 1.0])
                d = np.diag(x)
                ctx.close(x - np.diag(d), np.zeros_like(x), max(tol, 1e-9) * max(1, n2), "canonical-diagonal", "bond %d" % n)
                got = np.sort(d.real)[::-1]
                k = max(len(got), len(sv))
                got = np.pad(got, (0, k - len(got)))
                want = np.pad(sv, (0, k - len(sv)))
                ctx.close(got, want, max(tol, 1e-9), "schmidt-spectrum", "bond %d" % n, scale=max(1.0, n2))
                ctx.check(np.all(np.diff(d.real) >= -1e-9 * max(1, n2)), "canonical-order", "bond %d: %s" % (n, d))

    def same_state(self, before, tol, kind, phase=True, norm=None, what=""):
        """before: dense vector. phase: global phase must agree too. norm: None -> ray only."""
        psi = self.psi()
        ctx = self.ctx
        nb = nla.norm(before.ravel())
        na = nla.norm(psi.ravel())
        ctx.check(np.isfinite(na) and na > 0, kind, "%s: norm of the state is %r" % (what, na))
        if norm is not None:
            ctx.close(na, norm, tol, kind + "-norm", what + ": norm")
        if phase:
            d = nla.norm((psi / na - before / nb).ravel())
            ctx.check(d <= tol, kind, "%s: state vector moved by %.3g" % (what, d))
        else:
            d = M.ray_dist(before, psi)
            ctx.check(d <= tol, kind, "%s: state moved by %.3g" % (what, d))
        return d

    def min_schmidt(self, psi=None):
        """smallest Schmidt value relative to the largest over bonds, counting D[n] values"""
        psi = self.psi() if psi is None else psi
        psi = psi / nla.norm(psi.ravel())
        m = 1.0
        for n in range(1, self.N):
            sv = M.schmidt(psi, n)
            d = int(self.s.D[n])
            m = min(m, sv[d - 1] if d <= len(sv) else 0.0)
        return m

    def energy(self, psi=None):
        psi = self.psi() if psi is None else psi
        return M.inner(psi, M.ham_apply(psi, self.terms)).real / float(np.vdot(psi, psi).real)

    # -- generic operations ---------------------------------------------------------------------------------
    def rand_op(self, rs, n, kind=None):
        d = self.q[n - 1]
        kind = kind or rs.choice(["herm", "any", "unitary", "proj"])
        if kind == "herm":
            return herm(rs, d)
        if kind == "unitary":
            return unitary(rs, d)
        if kind == "proj":
            # invertible but far from unitary
            u = unitary(rs, d)
            return u @ np.diag(np.linspace(1, 0.2, d)) @ u.conj().T
        return rmat(rs, d) / d

    def rand_mpo(self, rs, n1, k, m=2):
        """List of MPO tensors [mL, mR, bra, ket] on sites n1..n1+k-1, and the dense operator."""
        dims = [1] + [int(rs.randint(1, m + 1)) for _ in range(k - 1)] + [1]
        out = []
        for i in range(k):
            d = self.q[n1 - 1 + i]
            w = np.array([[rmat(rs, d) / d for _ in range(dims[i + 1])] for _ in range(dims[i])])
            if i < k:
                w[0, 0] = w[0, 0] + np.eye(d)
            out.append(w)
        return out, self.mpo_dense(out)

    @staticmethod
    def mpo_dense(mpo):
        x = np.ones((1, 1, 1), dtype=complex)      # m, bra, ket
        for w in mpo:
            x = np.einsum('mbk,mnst->nbskt', x, w)
            x = x.reshape(x.shape[0], x.shape[1] * x.shape[2], x.shape[3] * x.shape[4])
        return x[0]

    def gauge_scramble(self, rs, cond=3.0, scale=True):
        """A user edit of the tensors which keeps the state (up to a known factor). Returns the factor."""
        s = self.s
        D = [self.A()[n].shape[1] for n in range(self.N)] + [1]
        g = [np.eye(1, dtype=complex)]
        for n in range(1, self.N):
            g.append(unitary(rs, D[n]) @ np.diag(np.exp(rs.uniform(-0.5, 0.5, D[n]) * np.log(cond))) @ unitary(rs, D[n]))
        g.append(np.eye(1, dtype=complex))
        f = 1.0
        A = self.A()
        for n in range(1, self.N + 1):
            s.A[n] = np.einsum('ab,sbc,cd->sad', nla.inv(g[n - 1]), A[n - 1], g[n])
        if scale:
            f = complex(np.exp(rs.uniform(-1, 1)) * np.exp(2j * np.pi * rs.rand()))
            k = rs.randint(1, self.N + 1)
            s.A[k] = s.A[k] * f
        return f

    # -- the list of observations ---------------------------------------------------------------------------
    def observations(self, rs, psi=None, many=True, skip=()):
        """[(name, evo_fn, reference value or None)] for the current, up-to-date state."""
        s, N, q = self.s, self.N, self.q
        psi = self.psi() if psi is None else psi
        out = []
        ex = lambda op, n, k: M.inner(psi, M.apply_op(psi, op, n - 1, k))

        def asfun(o, k):
            return lambda *i: o[tuple(int(x) for x in i)]
        for n in (range(1, N + 1) if many else [rs.randint(1, N + 1)]):
            o = self.rand_op(rs, n, "any")
            f = asfun(o, 1) if rs.rand() < 0.3 else o
            out.append(("expect_1s(%d)" % n, lambda f=f, n=n: s.expect_1s(f, n), ex(o, n, 1)))
            rho = M.rdm(psi, [n - 1])
            out.append(("density_1s(%d)" % n, lambda n=n: s.density_1s(n), rho.T))
        for n in (range(1, N) if many else [rs.randint(1, N)]):
            d = q[n - 1] * q[n]
            o = (rmat(rs, d) / d).reshape(q[n - 1], q[n], q[n - 1], q[n])
            f = asfun(o, 2) if rs.rand() < 0.2 else o
            out.append(("expect_2s(%d)" % n, lambda f=f, n=n: s.expect_2s(f, n), ex(o, n, 2)))
        if N >= 3:
            for n in (range(1, N - 1) if many else [rs.randint(1, N - 1)]):
                d = int(np.prod(q[n - 1:n + 2]))
                if d > 27:
                    continue
                o = (rmat(rs, d) / d).reshape(tuple(q[n - 1:n + 2]) * 2)
                f = asfun(o, 3) if (rs.rand() < 0.1 and d <= 8) else o
                out.append(("expect_3s(%d)" % n, lambda f=f, n=n: s.expect_3s(f, n), ex(o, n, 3)))
        # pairs
        for _ in range(2 if many else 1):
            if N < 2:
                break
            n1 = rs.randint(1, N)
            n2 = rs.randint(n1 + 1, N + 1)
            o1, o2 = self.rand_op(rs, n1, "any"), self.rand_op(rs, n2, "any")
            ref = M.inner(psi, M.apply_op(M.apply_op(psi, o2, n2 - 1, 1), o1, n1 - 1, 1))
            f1 = asfun(o1, 1) if rs.rand() < 0.3 else o1
            f2 = asfun(o2, 1) if rs.rand() < 0.3 else o2
            out.append(("expect_1s_1s(%d,%d)" % (n1, n2), lambda f1=f1, f2=f2, n1=n1, n2=n2: s.expect_1s_1s(f1, f2, n1, n2), ref))
            if "density_2s" not in skip:
                rho = M.rdm(psi, [n1 - 1, n2 - 1])
                out.append(("density_2s(%d,%d)" % (n1, n2), lambda n1=n1, n2=n2: s.density_2s(n1, n2), rho.T))
        # correlation functions need equal local dimensions along the range
        n1 = rs.randint(1, N)
        n2 = rs.randint(n1 + 1, N + 1)
        if len(set(q[n1 - 1:n2])) == 1:
            o1 = self.rand_op(rs, n1, "any")
            o2 = self.rand_op(rs, n1, "any")
            d = n2 - n1
            e1 = [ex(o1, n1 + j, 1) for j in range(d + 1)]
            e2 = [ex(o2, n1 + j, 1) for j in range(d + 1)]
            cf = [ex(o1 @ o2, n1, 1)] + [M.inner(psi, M.apply_op(M.apply_op(psi, o2, n1 - 1 + j, 1), o1, n1 - 1, 1)) for j in range(1, d + 1)]
            ref = np.array([cf[j] - e1[0] * e2[j] for j in range(d + 1)])
            out.append(("correlation(%d,%d)" % (n1, d), lambda o1=o1, o2=o2, n1=n1, d=d: s.correlation_1s_1s(o1, o2, n1, d), ref))
            out.append(("correlation_exvals(%d,%d)" % (n1, d),
                        lambda o1=o1, o2=o2, n1=n1, d=d: np.array(s.correlation_1s_1s(o1, o2, n1, d, return_exvals=True)),
                        np.array([ref, e1, e2])))
            out.append(("intermediates(%d,%d)" % (n1, d),
                        lambda o1=o1, o2=o2, n1=n1, n2=n2: s.expect_1s_1s(o1, o2, n1, n2, return_intermediates=True), np.array(cf)))
            o = self.rand_op(rs, n1, "unitary")
            st = []
            v = psi
            for j in range(n1, n2 + 1):
                v = M.apply_op(v, o, j - 1, 1)
                st.append(M.inner(psi, v))
            # entry i of the result is the string on the i + 1 sites from n
            f = asfun(o, 1) if rs.rand() < 0.3 else o
            out.append(("expect_string(%d,%d)" % (n1, d + 1), lambda f=f, n1=n1, d=d: s.expect_string_1s(f, n1, d + 1), np.array(st)))
        k = rs.randint(1, N + 1)
        n1 = rs.randint(1, N - k + 2)
        mpo, dense = self.rand_mpo(rs, n1, k)
        out.append(("expect_MPO(%d,%d)" % (n1, k), lambda mpo=mpo, n1=n1: s.expect_MPO(mpo, n1), ex(dense, n1, k)))
        for n in (range(1, N) if many else [rs.randint(1, N)]):
            sv = np.sort(M.schmidt(psi, n) ** 2)[::-1]
            D = int(s.D[n])
            w = np.zeros(max(D, len(sv)))
            w[:len(sv)] = sv
            out.append(("schmidt_sq(%d)" % n, lambda n=n, k=len(w): _padsort(s.schmidt_sq(n), k), w))
            nz = sv[sv > 1e-300]
            out.append(("entropy(%d)" % n, lambda n=n: s.entropy(n), float(-np.sum(nz * np.log2(nz)))))
            out.append(("entropy_sq(%d)" % n, lambda n=n, k=len(w): _padsort(s.entropy(n, ret_schmidt_sq=True)[1], k), w))
        if self.is_tdvp and self.s.ham is not None:
            hs = []
            for n, k, t in self.terms:
                hs.append((n + 1, ex(t, n + 1, k)))
            E = sum(h for _, h in hs)
            out.append(("H_expect", lambda: s.H_expect, E))
            for n, h in hs:
                out.append(("h_expect[%d]" % n, lambda n=n: s.h_expect[n], h))
        return out


def _padsort(x, k):
    x = np.sort(np.asarray(x).real)[::-1]
    return np.pad(x, (0, k - len(x))) if len(x) <= k else x


def take_step_split(ctx, s, *a, **k):
    """s.take_step_split, going on past the recorded defect "split-unpack" (see known_findings.json)."""
    try:
        return s.take_step_split(*a, **k)
    except ValueError as e:
        if "too many values to unpack (expected 5)" not in str(e):
            raise
        if ctx.prop == "P03":
            ctx.known("split-unpack", "take_step_split: %s" % e)
    import evoMPS.sexpmv as sx
    real = sx.gexpmv
    sx.gexpmv = lambda *aa, **kk: real(*aa, **kk)[:5]
    try:
        return s.take_step_split(*a, **k)
    finally:
        sx.gexpmv = real
