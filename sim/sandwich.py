"""A finite window between two infinite bulks: independent dense model and the world around the evoMPS object."""
import numpy as np
import numpy.linalg as nla

from . import finite as F
from . import model as M
from . import uniform as U


def sqrth(m):
    w, v = nla.eigh((m + m.conj().T) / 2)
    return (v * np.sqrt(np.maximum(w, 0))) @ v.conj().T


def norm_cell(A):
    u = M.Uni(A)
    A = [np.array(a, dtype=complex) for a in A]
    A[0] = A[0] / np.sqrt(abs(u.ev))
    return A


class Sand(object):
    """The infinite state ...AL AL [AC] AR AR... (window sites 1..N)."""

    def __init__(self, AL, AC, AR):
        self.AL, self.AR = norm_cell(AL), norm_cell(AR)
        self.uL, self.uR = M.Uni(self.AL), M.Uni(self.AR)
        self.N = len(AC)
        DL, DR = self.AL[0].shape[1], self.AR[0].shape[1]
        self.l0 = self.uL.env_l()[0].reshape(DL, DL)            # before site 1  [ket, bra]
        self.rN = self.uR.rcell.reshape(DR, DR)                 # after site N   [ket, bra]
        self.AC = [np.array(a, dtype=complex) for a in AC]
        x = self.l0.ravel()
        for a in self.AC:
            x = x @ M.site_transfer(a, a)
        self.norm2 = np.sum(x * self.rN.ravel())
        self.scale = 1.0 / np.sqrt(abs(self.norm2))          # given window tensors -> normalised state
        self.AC[0] = self.AC[0] * self.scale

    def A(self, n):
        if n < 1:
            return self.AL[(n - 1) % len(self.AL)]
        if n > self.N:
            return self.AR[(n - self.N - 1) % len(self.AR)]
        return self.AC[n - 1]

    def l(self, n):
        """Environment of everything up to site n  [ket, bra]."""
        if n < 1:
            D = self.A(n).shape[2]
            return self.uL.env_l()[n % len(self.AL)].reshape(D, D)
        x = self.l0.ravel()
        for j in range(1, n + 1):
            x = x @ M.site_transfer(self.A(j), self.A(j))
        D = self.A(n).shape[2]
        return x.reshape(D, D)

    def r(self, n):
        """Environment of everything after site n."""
        if n >= self.N:
            L = len(self.AR)
            D = self.A(n).shape[2]
            return self.uR.env_r()[(n - self.N - 1) % L].reshape(D, D)
        x = self.rN.ravel()
        for j in range(self.N, n, -1):
            x = M.site_transfer(self.A(j), self.A(j)) @ x
        D = self.A(n + 1).shape[1]
        return x.reshape(D, D)

    def rdm(self, n, k):
        """Density matrix [ket, bra] of sites n..n+k-1, any n."""
        x = self.l(n - 1)[None, None]
        for j in range(n, n + k):
            a = self.A(j)
            x = np.einsum('pqac,sab,tcd->psqtbd', x, a, np.conj(a))
            s = x.shape
            x = x.reshape(s[0] * s[1], s[2] * s[3], s[4], s[5])
        rho = np.einsum('pqbd,bd->pq', x, self.r(n + k - 1))
        return rho / np.trace(rho)

    def expect(self, op, n, k):
        rho = self.rdm(n, k)
        return np.trace(np.asarray(op).reshape(rho.shape) @ rho)

    def rdms(self, wide=3, pad=2):
        """Density matrices of all runs of `wide` neighbouring sites touching the window or `pad` sites around it."""
        return [self.rdm(n, wide) for n in range(1 - pad, self.N + pad - wide + 2)]

    # -- the window seen as a finite chain with one extra site for each half-infinite bulk
    def frame(self):
        self.Lh, self.Rh = sqrth(self.l0.T), sqrth(self.rN.T)
        q = [self.Lh.shape[0]] + [a.shape[0] for a in self.AC] + [self.Rh.shape[0]]
        return q

    def tensors(self, AC=None):
        AC = self.AC if AC is None else AC
        return [self.Lh[:, None, :]] + list(AC) + [np.transpose(self.Rh, (0, 1))[:, :, None]]

    def psi(self, AC=None):
        self.frame()
        return M.vec_from_tensors(self.tensors(AC))

    def terms(self, hL, hC, hR, k):
        """Hamiltonian terms on the framed chain; hC[n] for n = 2-k..N is the term on sites n..n+k-1."""
        q = self.frame()
        N = self.N
        tL, tR = M.UniTangent(self.AL, hL, k), M.UniTangent(self.AR, hR, k)
        self.eL = np.mean(tL.e)
        self.eR = np.mean(tR.e)
        Li, Ri = nla.inv(self.Lh), nla.inv(self.Rh)
        out = [(0, 1, Li @ tL.HL[0].T @ Li), (N + 1, 1, Ri @ tR.HR[-1].T @ Ri)]
        d1 = self.AC[0].shape[0]
        qs = q[1:-1]
        for n in range(2 - k, N + 1):
            j = max(0, 1 - n)                       # sites in the left bulk
            i = max(0, n + k - 1 - N)               # sites in the right bulk
            h = np.asarray(hC[n])
            dl = self.A(0).shape[0] ** j if j else 1
            dr = self.A(N + 1).shape[0] ** i if i else 1
            lo, hi = max(n, 1), min(n + k - 1, N)
            dw = int(np.prod([qs[m - 1] for m in range(lo, hi + 1)]))
            X = h.reshape(dl, dw, dr, dl, dw, dr)
            at, cnt = lo, hi - lo + 1
            if j:
                B = None
                for m in range(n, 1):
                    a = self.A(m)
                    B = a if B is None else np.einsum('sab,tbc->stac', B, a).reshape(-1, B.shape[1], a.shape[2])
                l = self.l(n - 1)
                X = np.einsum('ac,sab,tcd,twxsyz->dwxbyz', l, B, B.conj(), X)
                X = np.einsum('ed,dwxbyz,bf->ewxfyz', Li, X, Li)
                at, cnt = 0, cnt + 1
            if i:
                B = None
                for m in range(N + 1, n + k):
                    a = self.A(m)
                    B = a if B is None else np.einsum('sab,tbc->stac', B, a).reshape(-1, B.shape[1], a.shape[2])
                r = self.r(n + k - 1)
                # ket right bond a->b contracted with r; the bond between window and bulk stays open
                X = np.einsum('bd,sab,tcd,xwtyzs->xwcyza', r, B, B.conj(), X)
                X = np.einsum('ec,xwcyza,af->xweyzf', Ri, X, Ri)
                cnt += 1
            d = X.shape[0] * X.shape[1] * X.shape[2]
            out.append((at, cnt, X.reshape(d, d)))
        dims = lambda s, c: tuple(q[s:s + c])
        return [(s, c, t.reshape(dims(s, c) * 2)) for s, c, t in out]


class WindowTangent(M.TangentSpace):
    """Tangent space of the window's own tensors, the outer sites fixed."""

    def project(self, v):
        qs, N = self.qs, self.N
        v = v.reshape(qs)
        out = np.zeros(v.size, dtype=complex)
        for n in range(1, N - 1):
            a, b = int(np.prod(qs[:n])), int(np.prod(qs[n + 1:]))
            out += self._plpr(v.reshape(a, qs[n], b), n).ravel()
            if n + 1 < N - 1:
                z = v.reshape(a * qs[n], b)
                ql, qr = self.ql[n + 1], self.qr[n]
                out -= ((ql @ (ql.conj().T @ z)) @ qr.conj() @ qr.T).ravel()
        return out.reshape(qs)


class WindowFlow(M.Flow):
    def deriv(self, psi, keep_norm=True):
        T = WindowTangent(M.mps_from_vec(psi, self.Ds))
        Hp = M.ham_apply(psi, self.terms)
        E = M.inner(psi, Hp) / M.inner(psi, psi).real
        return -T.project(Hp - E * psi)


def gen_scfg(rng, tdvp=None, Nmax=6, Lmax=2, right=None):
    q = rng.choice([2, 2, 2, 3])
    L = rng.choice([1, 1, 2]) if Lmax > 1 else 1
    cls = "tdvp" if (rng.random() < 0.8 if tdvp is None else tdvp) else "mps"
    kind = rng.choice(["ident", "ident", "window", "window", "tensors", "tensors", "tensors"])
    hs = rng.choice([2, 2, 3])
    N = rng.randint(2, Nmax if q == 2 else min(Nmax, 4))
    if hs == 3:
        N = max(N, 3)
    DL = rng.randint(1 if rng.random() < 0.15 else 2, 3)
    DR = DL if (kind != "tensors" or rng.random() < 0.5) else rng.randint(1, 3)
    LR = L if rng.random() < 0.7 or kind != "tensors" else rng.choice([1, 2])
    if cls == "tdvp" and kind == "ident" and (hs == 3 or q == 3) and rng.random() < 0.5:
        return dict(cls=cls, q=q, L=1, LR=1, N=N, DL=2 if rng.random() < 0.8 else 1, DR=2, Dw=2, kind=kind, seed=rng.randrange(1 << 30),
                    route=rng.choice(["brute", "arpack", "power"]), sanity=rng.random() < 0.2, parent=True,
                    ham=dict(sites=hs, kind="rand", seed=rng.randrange(1 << 30), tp=False, scale=1.0, callable=rng.random() < 0.2,
                             right="same", window="same"))
    return dict(cls=cls, q=q, L=L, LR=LR, N=N, DL=DL, DR=DR, Dw=rng.randint(1, 3), kind=kind, seed=rng.randrange(1 << 30),
                route=rng.choice(["brute", "arpack", "power"]), sanity=rng.random() < 0.2,
                ham=dict(sites=hs, kind=rng.choice(["rand", "real"]), seed=rng.randrange(1 << 30), tp=False, scale=1.0,
                         callable=rng.random() < 0.2, right=rng.choice(["same", "same", "other"]), window=rng.choice(["same", "impurity", "all"])))


def scfg_class(c):
    return "S%s%s-N%d-L%d%d-D%d%d-q%d-h%d%s" % (c["cls"], c["kind"], c["N"], c["L"], c["LR"], c["DL"], c["DR"], c["q"], c["ham"]["sites"],
                                               "c" if c["ham"]["callable"] else "")


def shrink_scfg(plan):
    c = plan["config"]
    out = []

    def w(**k):
        out.append(dict(plan, config=dict(c, **k)))
    if c["N"] > 2:
        w(N=c["N"] - 1)
    for k in ("DL", "DR", "Dw"):
        if c[k] > 1:
            w(**{k: c[k] - 1})
    if c["L"] > 1 and c["LR"] > 1:
        w(L=1, LR=1)
    if c["sanity"]:
        w(sanity=False)
    if c["ham"]["callable"]:
        w(ham=dict(c["ham"], callable=False))
    if c["ham"]["window"] != "same":
        w(ham=dict(c["ham"], window="same"))
    if c["ham"]["right"] != "same":
        w(ham=dict(c["ham"], right="same"))
    return out


class WinHam(object):
    """User function h(n, *idx)."""

    def __init__(self, hs, h):
        self.hs, self.h = dict(hs), h

    def __call__(self, n, *idx):
        return self.hs.get(int(n), self.h)[tuple(int(i) for i in idx)]


class UniHam(object):
    def __init__(self, h):
        self.h = h

    def __call__(self, *idx):
        return self.h[tuple(int(i) for i in idx)]


class SW(object):
    def __init__(self, ctx, cfg):
        self.ctx, self.cfg = ctx, cfg
        self.q, self.k = cfg["q"], cfg["ham"]["sites"]
        self.sites = self.k
        self.is_tdvp = cfg["cls"] == "tdvp"
        self.hcfg = cfg["ham"]
        rs = np.random.RandomState(cfg["seed"] % (2 ** 32))
        self.make_model(rs)
        if cfg.get("parent"):
            self.parent(cfg)
        self.make_state(rs)

    # ------------------------------------------------------------------ model
    def make_model(self, rs):
        c, h = self.cfg, self.cfg["ham"]
        self.hL = U.uham(h, self.q)
        other = h["right"] == "other" and c["kind"] == "tensors" and not h["callable"]
        self.hR = U.uham(dict(h, seed=h["seed"] + 5), self.q) if other else self.hL
        N = c["N"]
        self.hC = {n: self.hL for n in range(2 - self.k, N + 1)}
        if h["window"] != "same" and not (h["callable"] and c["kind"] != "tensors"):
            lo = 1 if self.k == 3 else 0        # (with a list, the term starting two sites before the window is fixed by the last entry)
            for n in range(lo, N + 1):
                if h["window"] == "all" or rs.rand() < 0.4:
                    if self.k == 3 and not h["callable"] and n == N:
                        continue
                    self.hC[n] = U.uham(dict(h, seed=h["seed"] + 11 + n), self.q)

    def ham_list(self):
        N = self.cfg["N"]
        return [self.hC[n].copy() for n in range(0, N + 1)]

    def parent(self, c):
        """Bulk tensors first, then a Hamiltonian of which they are an exact ground state with energy 0."""
        rs = np.random.RandomState(c["ham"]["seed"] % (2 ** 32))
        q, k, D = self.q, self.k, c["DL"]
        for _ in range(200):
            A = F.rmat(rs, q * D, D).reshape(q, D, D)
            if M.Uni([A]).gap < 0.8:
                break
        self.AL0 = [A]
        B = A
        for _ in range(k - 1):
            B = np.einsum('sab,tbc->stac', B, A).reshape(-1, D, D)
        u, sv, _ = nla.svd(B.reshape(q ** k, D * D))
        P = u[:, int(np.sum(sv > 1e-10)):]
        X = F.rmat(rs, P.shape[1])
        h = (P @ (X @ X.conj().T + 0.2 * np.eye(P.shape[1])) @ P.conj().T) / P.shape[1]
        self.hL = self.hR = h.reshape((q,) * (2 * k))
        self.hC = {n: self.hL for n in self.hC}

    # ------------------------------------------------------------------ state
    def make_state(self, rs):
        from evoMPS.mps_sandwich import EvoMPS_MPS_Sandwich
        from evoMPS.tdvp_sandwich import EvoMPS_TDVP_Sandwich
        from evoMPS.mps_uniform import EvoMPS_MPS_Uniform
        from evoMPS.tdvp_uniform import EvoMPS_TDVP_Uniform
        c, ctx, q = self.cfg, self.ctx, self.q
        N = c["N"]

        def cell(L, D):
            if c.get("parent"):
                return [a.copy() for a in self.AL0]
            for _ in range(200):
                T = U.rand_cell(rs, L, q, D)
                if M.Uni(T).gap < 0.85:
                    return [t.astype(complex) for t in T]
            from .core import Abandon
            raise Abandon("no gapped cell")
        AL = cell(c["L"], c["DL"])
        AR = AL if c["kind"] != "tensors" else cell(c["LR"], c["DR"])
        hL = UniHam(self.hL) if c["ham"]["callable"] else self.hL.copy()
        if c["kind"] in ("ident", "window"):
            if self.is_tdvp:
                u = ctx.must("bulk", lambda: EvoMPS_TDVP_Uniform.from_tensors([a.copy() for a in AL], hL, ham_sites=self.k))
            else:
                u = ctx.must("bulk", lambda: EvoMPS_MPS_Uniform.from_tensors([a.copy() for a in AL]))
            self.route(u)
            cls = EvoMPS_TDVP_Sandwich if self.is_tdvp else EvoMPS_MPS_Sandwich
            self.s = s = ctx.must("new", lambda: cls(N, u))
            if self.is_tdvp and any(self.hC[n] is not self.hL for n in self.hC):
                s.ham = self.ham_list()
            if c["kind"] == "window":
                for n in range(1, N + 1):
                    s.A[n] = s.A[n] + 0.35 * F.rmat(rs, q * s.A[n].shape[1], s.A[n].shape[2]).reshape(s.A[n].shape)
        else:
            D = [c["DL"]] + [min(c["Dw"] + rs.randint(0, 2), c["DL"] * q ** n, c["DR"] * q ** (N - n)) for n in range(1, N)] + [c["DR"]]
            AC = F.rand_tensors(rs, [q] * N, D)
            s = ctx.must("from_tensors", lambda: EvoMPS_MPS_Sandwich.from_tensors(
                [a.copy() for a in AL], [a.copy() for a in AC], [a.copy() for a in AR]))
            if self.is_tdvp:
                hR = UniHam(self.hR) if c["ham"]["callable"] else self.hR.copy()
                hC = self.ham_list()
                self.m = s
                s = ctx.must("from_mps", lambda: EvoMPS_TDVP_Sandwich.from_mps(self.m, hL, hC, hR, ham_sites=self.k))
                if c["ham"]["callable"]:
                    s.ham = WinHam(self.hC, self.hL)
            self.s = s
        self.route(self.s.uni_l)
        self.route(self.s.uni_r)
        self.s.sanity_checks = bool(c["sanity"])

    def route(self, u):
        r = self.cfg["route"]
        u.ev_brute = r == "brute"
        u.ev_use_arpack = r == "arpack"

    def grown(self, a, b):
        """The window has been grown by a sites at its left and b at its right end."""
        N = self.s.N
        old, oN = self.hC, N - a - b
        new = {}
        for n in range(2 - self.k, N + 1):
            m = n - a
            new[n] = self.hR if m > oN else (self.hL if m < 0 else old[m])
        self.hC = new

    # ------------------------------------------------------------------ access
    @property
    def N(self):
        return self.s.N

    def sand(self):
        s = self.s
        return Sand([np.array(a) for a in s.uni_l.A], [np.array(s.A[n]) for n in range(1, s.N + 1)], [np.array(a) for a in s.uni_r.A])

    def A(self):
        s = self.s
        return [np.array(a) for a in s.uni_l.A] + [np.array(s.A[n]) for n in range(1, s.N + 1)] + [np.array(a) for a in s.uni_r.A]

    def terms(self, sd=None):
        sd = sd or self.sand()
        return sd.terms(self.hL, self.hC, self.hR, self.k)

    def min_schmidt(self, sd=None):
        psi = (sd or self.sand()).psi()
        n = nla.norm(psi.ravel())
        A = [self.s.A[j] for j in range(1, self.N + 1)]
        out = 1.0
        for b in range(self.N + 1):
            D = A[b].shape[1] if b < self.N else A[-1].shape[2]
            sv = M.schmidt(psi, b + 1) / n
            out = min(out, float(sv[D - 1]) if len(sv) >= D else 0.0)
        return out

    def same_rdms(self, ref, tol, kind, what, sd=None, pad=2):
        got = (sd or self.sand()).rdms(pad=pad)
        self.ctx.check(len(got) == len(ref), kind, "%s: window length changed" % what)
        for i, (a, b) in enumerate(zip(got, ref)):
            self.ctx.close(a, b, tol, kind, "%s: density matrix of three sites from %d" % (what, i + 1 - pad))

    # ------------------------------------------------------------------ observables
    def observations(self, rs, many=False):
        s, q, N = self.s, self.q, self.N
        sd = self.sand()
        out = []
        rng = lambda k: (range(-1, N + 3 - k) if many else [rs.randint(-1, N + 3 - k)])
        for n in rng(1):
            o = F.rmat(rs, q)
            out.append(("expect_1s(%d)" % n, lambda o=o, n=n: s.expect_1s(o, n), sd.expect(o, n, 1)))
            if 1 <= n <= N:
                out.append(("density_1s(%d)" % n, lambda n=n: s.density_1s(n), sd.rdm(n, 1).T))
        for n in rng(2):
            o = F.rmat(rs, q * q).reshape((q,) * 4)
            out.append(("expect_2s(%d)" % n, lambda o=o, n=n: s.expect_2s(o, n), sd.expect(o, n, 2)))
        if N >= 3:
            n = rs.randint(1, N - 1)
            o = F.rmat(rs, q ** 3).reshape((q,) * 6) / q ** 3
            out.append(("expect_3s(%d)" % n, lambda o=o, n=n: s.expect_3s(o, n), sd.expect(o, n, 3)))
        if N >= 2:
            n1 = rs.randint(1, N)
            n2 = rs.randint(n1 + 1, N + 1)
            o1, o2 = F.rmat(rs, q), F.rmat(rs, q)
            rho = sd.rdm(n1, n2 - n1 + 1)
            mid = np.eye(q ** (n2 - n1 - 1))
            out.append(("expect_1s_1s(%d,%d)" % (n1, n2), lambda: s.expect_1s_1s(o1, o2, n1, n2), np.trace(np.kron(np.kron(o1, mid), o2) @ rho)))
        psi = sd.psi()
        n = rs.randint(0, N + 1)
        w = np.sort(M.schmidt(psi, n + 1) ** 2)[::-1]
        w = w / w.sum()
        nz = w[w > 1e-300]
        out.append(("schmidt_sq(%d)" % n, lambda n=n, k=len(w): F._padsort(s.schmidt_sq(n), k), w))
        out.append(("entropy(%d)" % n, lambda n=n: s.entropy(n), float(-np.sum(nz * np.log2(nz)))))
        if self.is_tdvp:
            terms = self.terms(sd)
            nn = psi / nla.norm(psi.ravel())
            E = M.inner(nn, M.ham_apply(nn, terms)).real
            out.append(("dH_expect", lambda: s.dH_expect, E - (N + self.k - 1) * sd.eL.real))
            for n in range(0, N + 1):
                if self.k == 3 and n > s.N_centre - 2 and n > N:
                    continue
                if n <= (s.N_centre - 1 if self.k == 2 else s.N_centre - 1) or n >= s.N_centre:
                    pass
        return out


def deepcopy_world(w):
    import copy
    t = copy.copy(w)
    t.s = copy.deepcopy(w.s)
    return t
