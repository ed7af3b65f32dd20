"""Small dense reference models.  Nothing here uses evoMPS code."""
import numpy as np
import numpy.linalg as nla


# =============================================================================================== finite chains
def vec_from_tensors(A):
    """State vector of site tensors A (list of [q, Dl, Dr] arrays, boundary dimensions 1), shape (q1,...,qN)."""
    qs = [a.shape[0] for a in A]
    x = np.asarray(A[0], dtype=complex)          # q, 1, D
    x = x.reshape(qs[0], A[0].shape[1], A[0].shape[2])[:, 0, :] if A[0].shape[1] == 1 else None
    if x is None:
        raise ValueError("left boundary dimension is not 1")
    for a in A[1:]:
        x = np.tensordot(x, np.asarray(a, dtype=complex), axes=([x.ndim - 1], [1]))   # ..., q, Dr
    if x.shape[-1] != 1:
        raise ValueError("right boundary dimension is not 1")
    return x[..., 0]


def apply_op(psi, op, n, k):
    """Applies op (matrix on k sites, axes [bra..., ket...]) at 0-based site n of psi."""
    shp = psi.shape
    d = int(np.prod(shp[n:n + k]))
    m = np.asarray(op).reshape(d, d)
    x = psi.reshape(int(np.prod(shp[:n])), d, int(np.prod(shp[n + k:])))
    x = np.einsum('st,atb->asb', m, x)
    return x.reshape(shp)


def inner(a, b):
    return np.vdot(a.ravel(), b.ravel())


def ham_apply(psi, terms):
    """terms: list of (site0, k, array) with array axes bra...ket."""
    out = np.zeros_like(psi, dtype=complex)
    for n, k, h in terms:
        out = out + apply_op(psi, h, n, k)
    return out


def ham_dense(terms, qs):
    dim = int(np.prod(qs))
    H = np.zeros((dim, dim), dtype=complex)
    for n, k, h in terms:
        d = int(np.prod(qs[n:n + k]))
        a = int(np.prod(qs[:n]))
        b = int(np.prod(qs[n + k:]))
        H += np.kron(np.kron(np.eye(a), np.asarray(h).reshape(d, d)), np.eye(b))
    return H


def expm_apply(H, tau, v):
    """exp(tau H) v for Hermitian H."""
    w, U = nla.eigh(H)
    return U @ (np.exp(tau * w) * (U.conj().T @ v))


def schmidt(psi, cut):
    """Schmidt values (descending) across the bond after `cut` sites."""
    d = int(np.prod(psi.shape[:cut]))
    return nla.svd(psi.reshape(d, -1), compute_uv=False)


def rdm(psi, sites):
    """Reduced density matrix <bra|rho|ket> of the given (ordered) 0-based sites, not normalised."""
    n = psi.ndim
    rest = [i for i in range(n) if i not in sites]
    x = np.transpose(psi, list(sites) + rest).reshape(int(np.prod([psi.shape[i] for i in sites])), -1)
    return x @ x.conj().T


def left_right_bases(A):
    """For 0-based site n: Lmat[n] ((prod q before) x D), Rmat[n] (D x prod q after) of the *current* tensors."""
    N = len(A)
    L = [np.ones((1, 1), dtype=complex)]
    for a in A[:-1]:
        x = np.tensordot(L[-1], np.asarray(a, dtype=complex), axes=([1], [1]))      # X, q, D
        L.append(x.reshape(-1, a.shape[2]))
    R = [None] * N
    R[N - 1] = np.ones((1, 1), dtype=complex)
    for n in range(N - 1, 0, -1):
        a = np.asarray(A[n], dtype=complex)
        x = np.tensordot(a, R[n], axes=([2], [0]))                # q, Dl, Y
        R[n - 1] = np.transpose(x, (1, 0, 2)).reshape(a.shape[1], -1)
    return L, R


def tangent_projector(A, tol=1e-11):
    """Orthonormal basis (columns) of span{ dPsi/dA } of the state given by tensors A (includes Psi itself)."""
    L, R = left_right_bases(A)
    cols = []
    N = len(A)
    for n in range(N):
        ql = _orth(L[n], tol)
        qr = _orth(R[n].conj().T, tol).conj()          # columns span the row space of R
        q = A[n].shape[0]
        # projector P_n = Ql Ql^+ (x) 1_q (x) Qr Qr^+ ; its range basis
        cols.append((ql, q, qr))
    return cols


def _orth(M, tol):
    u, s, _ = nla.svd(M, full_matrices=False)
    if s.size == 0 or s[0] == 0:
        return u[:, :0]
    return u[:, s > tol * s[0]]


class TangentSpace(object):
    """Tangent space of the fixed-bond-dimension manifold at the state with tensors A."""

    def __init__(self, A, tol=1e-10):
        self.N = len(A)
        self.qs = [a.shape[0] for a in A]
        self.L, self.R = left_right_bases(A)
        self.ql = [_orth(x, tol) for x in self.L]
        self.qr = [_orth(x.T, tol) for x in self.R]    # columns: basis of the space spanned by rows of R

    def project(self, v):
        """Orthogonal projection of dense vector v (shape qs) on the tangent space (which contains psi)."""
        qs, N = self.qs, self.N
        out = np.zeros(int(np.prod(qs)), dtype=complex)
        v = v.reshape(qs)
        for n in range(N):
            a = int(np.prod(qs[:n]))
            b = int(np.prod(qs[n + 1:]))
            x = v.reshape(a, qs[n], b)
            y = self._plpr(x, n)
            out += y.ravel()
            if n + 1 < N:
                # minus P_L^{<=n} P_R^{>n}, with P_L^{<=n} the left space of site n+1
                z = v.reshape(a * qs[n], b)
                ql = self.ql[n + 1]
                qr = self.qr[n]
                z = ql @ (ql.conj().T @ z)
                z = (z @ qr.conj()) @ qr.T
                out -= z.ravel()
        return out.reshape(qs)

    def _plpr(self, x, n):
        ql, qr = self.ql[n], self.qr[n]
        y = np.tensordot(ql.conj().T, x, axes=([1], [0]))
        y = np.tensordot(ql, y, axes=([1], [0]))
        y = np.tensordot(y, qr.conj(), axes=([2], [0]))
        y = np.tensordot(y, qr.T, axes=([2], [0]))
        return y

    def project2(self, v):
        """Projection on the two-site tangent space (two adjacent sites changed arbitrarily, rest fixed)."""
        qs, N = self.qs, self.N
        if N < 2:
            return v
        out = np.zeros(int(np.prod(qs)), dtype=complex)
        v = v.reshape(qs)
        for n in range(N - 1):
            a = int(np.prod(qs[:n]))
            b = int(np.prod(qs[n + 2:]))
            x = v.reshape(a, qs[n] * qs[n + 1], b)
            ql, qr = self.ql[n], self.qr[n + 1]
            y = np.tensordot(ql, np.tensordot(ql.conj().T, x, axes=([1], [0])), axes=([1], [0]))
            y = np.tensordot(np.tensordot(y, qr.conj(), axes=([2], [0])), qr.T, axes=([2], [0]))
            out += y.ravel()
            if n + 2 < N:
                x = v.reshape(a * qs[n], qs[n + 1], b)
                ql, qr = self.ql[n + 1], self.qr[n + 1]
                y = np.tensordot(ql, np.tensordot(ql.conj().T, x, axes=([1], [0])), axes=([1], [0]))
                y = np.tensordot(np.tensordot(y, qr.conj(), axes=([2], [0])), qr.T, axes=([2], [0]))
                out -= y.ravel()
        return out.reshape(qs)


def mps_from_vec(psi, Ds):
    """Exact (or SVD-truncated to Ds) right-canonical-ish MPS tensors of a dense vector; Ds[i] = bond after i sites."""
    qs = psi.shape
    N = len(qs)
    A = []
    x = psi.reshape(1, -1)
    for n in range(N - 1):
        D = x.shape[0]
        u, s, vh = nla.svd(x.reshape(D * qs[n], -1), full_matrices=False)
        k = min(len(s), Ds[n + 1])
        u = u[:, :k]
        x = s[:k, None] * vh[:k]
        A.append(np.transpose(u.reshape(D, qs[n], k), (1, 0, 2)))
    D = x.shape[0]
    A.append(np.transpose(x.reshape(D, qs[-1], 1), (1, 0, 2)))
    return A


class Flow(object):
    """Own integration of the projected flow d psi/d tau = -P (H - E) psi of the exact manifold, by RK4 on dense vectors
    re-embedded in the manifold via SVD after each stage (used with small sub-steps)."""

    def __init__(self, terms, Ds):
        self.terms, self.Ds = terms, Ds

    def deriv(self, psi, keep_norm=True):
        A = mps_from_vec(psi, self.Ds)
        T = TangentSpace(A)
        n2 = inner(psi, psi).real
        Hp = ham_apply(psi, self.terms)
        E = inner(psi, Hp) / n2
        return -T.project(Hp - E * psi)

    def retract(self, psi):
        return vec_from_tensors(mps_from_vec(psi, self.Ds))

    def rk4(self, psi, dtau, steps=1):
        h = dtau / steps
        for _ in range(steps):
            k1 = self.deriv(psi)
            k2 = self.deriv(self.retract(psi + h / 2 * k1))
            k3 = self.deriv(self.retract(psi + h / 2 * k2))
            k4 = self.deriv(self.retract(psi + h * k3))
            psi = self.retract(psi + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4))
            psi = psi / nla.norm(psi.ravel())
        return psi


def ray_dist(a, b):
    """Distance between the rays of two vectors: sqrt(2 - 2 |<a|b>|) of the normalised vectors (accurate for small values)."""
    a = a.ravel() / nla.norm(a.ravel())
    b = b.ravel() / nla.norm(b.ravel())
    ov = np.vdot(a, b)
    ph = ov / abs(ov) if abs(ov) > 1e-300 else 1.0
    return float(nla.norm(b - ph * a))


# ============================================================================================== infinite chains
def cell_transfer(A, B=None):
    """Dense transfer matrix of one unit cell, acting on right vectors: (Da*Db) x (Da*Db)."""
    B = A if B is None else B
    T = None
    for a, b in zip(A, B):
        t = site_transfer(a, b)
        T = t if T is None else T @ t
    return T


def site_transfer(a, b, op=None):
    """sum_{s,t} op[s,t] a_t (x) conj(b_s)."""
    if op is None:
        t = np.einsum('sab,scd->acbd', a, np.conj(b))
    else:
        t = np.einsum('st,tab,scd->acbd', op, a, np.conj(b))
    return t.reshape(a.shape[1] * b.shape[1], a.shape[2] * b.shape[2])


class Uni(object):
    """Independent description of an infinite state with unit cell A (list of [q, Dl, Dr])."""

    def __init__(self, A):
        self.A = [np.array(a, dtype=complex) for a in A]
        self.L = len(A)
        T = cell_transfer(self.A)
        w, V = nla.eig(T)
        i = int(np.argmax(np.abs(w)))
        self.ev = w[i]
        ws = np.sort(np.abs(w))[::-1]
        self.gap = float(ws[1] / ws[0]) if len(ws) > 1 else 0.0
        # the best conditioned way to the fixed points: null vectors by SVD-free inverse iteration
        r = V[:, i]
        wl, U = nla.eig(T.T)
        j = int(np.argmin(np.abs(wl - self.ev)))
        l = U[:, j]
        D = self.A[0].shape[1]
        r = _herm(r.reshape(D, D))
        l = _herm(l.reshape(D, D))          # l[a, c] contracts with a (ket) and c (bra)
        nrm = np.sum(l * r)
        self.rcell, self.lcell = r, l / nrm
        self.evs = w
        # site-resolved environments, each cell normalised by ev
        self.site_ev = 1.0

    def env_l(self):
        """l before site k (k=0..L-1), not rescaled within the cell."""
        ls = [self.lcell.ravel()]
        for a in self.A[:-1]:
            ls.append(ls[-1] @ site_transfer(a, a))
        return ls

    def env_r(self):
        """r after site k."""
        rs = [None] * self.L
        r = self.rcell.ravel() / self.ev            # r after the last site, cell value 1
        rs[self.L - 1] = self.rcell.ravel()
        for k in range(self.L - 1, 0, -1):
            rs[k - 1] = site_transfer(self.A[k], self.A[k]) @ rs[k]
        return rs

    def expect(self, op, k, n):
        """<op> on n sites starting at site k (any k), op axes [bra(n), ket(n)], as matrix."""
        rho = self.rdm(k, n)
        d = rho.shape[0]
        return np.trace(np.asarray(op).reshape(d, d) @ rho)

    def rdm(self, k, n):
        k = k % self.L
        ls, rs = self.env_l(), self.env_r()
        D0 = self.A[k].shape[1]
        x = ls[k].reshape(D0, D0)                    # ket, bra
        qs = []
        x = x.reshape(1, 1, D0, D0)                  # ketphys, braphys, ket, bra
        for i in range(n):
            a = self.A[(k + i) % self.L]
            qs.append(a.shape[0])
            x = np.einsum('pqac,sab,tcd->psqtbd', x, a, np.conj(a))
            s = x.shape
            x = x.reshape(s[0] * s[1], s[2] * s[3], s[4], s[5])
        e = (k + n - 1) % self.L
        De = self.A[e].shape[2]
        rho = np.einsum('pqbd,bd->pq', x, rs[e].reshape(De, De))
        # number of completed cell boundaries sets the normalisation
        rho = rho / np.trace(rho)
        return rho

    def string(self, ops, k):
        """<prod of single-site operators ops[i] on site k+i>."""
        k = k % self.L
        ls, rs = self.env_l(), self.env_r()
        x = ls[k]
        y = ls[k]
        for i, o in enumerate(ops):
            a = self.A[(k + i) % self.L]
            x = x @ site_transfer(a, a, o)
            y = y @ site_transfer(a, a)
        e = (k + len(ops) - 1) % self.L
        return (x @ rs[e]) / (y @ rs[e])

    def schmidt_sq(self, k):
        """Schmidt coefficients squared (descending) at the bond after site k."""
        k = k % self.L
        ls, rs = self.env_l(), self.env_r()
        kn = (k + 1) % self.L
        D = self.A[k].shape[2]
        l = ls[kn].reshape(D, D)
        r = rs[k].reshape(D, D)
        m = l.T @ r                      # spectrum of l^T r
        w = nla.eigvals(m)
        w = np.sort(w.real)[::-1]
        return w / w.sum()

    def energy(self, h, n):
        """Energy per site of translation-invariant (per site) term(s): h list of L arrays or one."""
        return sum(self.expect(h[k] if isinstance(h, list) else h, k, n) for k in range(self.L)) / self.L


class UniTangent(object):
    """Energy gradient and its tangent-space representation (right gauge) of an infinite state, by dense linear algebra.

    h: array with 2n indices (bra..., ket...), the same term starting at every site."""

    def __init__(self, A, h, n):
        u = Uni(A)
        self.A = A = [np.array(a, dtype=complex) for a in A]
        A[0] = A[0] / np.sqrt(abs(u.ev))
        u = Uni(A)
        self.u, self.L, self.n = u, u.L, n
        L = self.L
        self.q = q = A[0].shape[0]
        D = self.D = A[0].shape[1]
        self.ls = [x.reshape(D, D) for x in u.env_l()]            # before site k  [ket, bra]
        self.rs = [x.reshape(D, D) for x in u.env_r()]            # after site k   [ket, bra]
        self.h = np.asarray(h).reshape(q ** n, q ** n)
        self.T = [site_transfer(a, a) for a in A]
        self.solve()

    def block(self, k, n):
        x = self.A[k % self.L]
        for j in range(1, n):
            a = self.A[(k + j) % self.L]
            x = np.einsum('sab,tbc->stac', x, a).reshape(-1, x.shape[1], a.shape[2])
        return x

    def solve(self):
        L, n, D = self.L, self.n, self.D
        Tc = np.eye(D * D)
        for k in range(L):
            Tc = Tc @ self.T[k]
        l0, r0 = self.ls[0].ravel(), self.rs[L - 1].ravel()
        M = np.eye(D * D) - Tc + np.outer(r0, l0)
        self.C = [np.einsum('st,tab->sab', self.h, self.block(k, n)) for k in range(L)]
        cL, cR, self.e = [None] * L, [None] * L, []
        for k in range(L):
            B = self.block(k, n)
            e = (k + n) % L
            # covector after the term, vector before it
            x = np.einsum('ac,sab,scd->bd', self.ls[k], self.C[k], B.conj())
            y = np.einsum('bd,sab,scd->ac', self.rs[(k + n - 1) % L], self.C[k], B.conj())
            ek = np.sum(x * self.rs[(e - 1) % L])
            self.e.append(ek)
            cL[e] = (0 if cL[e] is None else cL[e]) + (x - ek * self.ls[e]).ravel()
            cR[(k - 1) % L] = (y - ek * self.rs[(k - 1) % L]).ravel()          # vector on the bond after site k-1
        # left: HL[k] covector on the bond before site k, terms ending on it included
        S = np.zeros(D * D, dtype=complex)
        for k in range(L):                      # contributions arriving at bonds 1..L, carried to bond L
            S = S @ self.T[k] + cL[(k + 1) % L]
        HL = [None] * L
        HL[0] = np.linalg.solve(M.T, S)
        for k in range(L - 1):
            HL[k + 1] = HL[k] @ self.T[k] + cL[k + 1]
        S = np.zeros(D * D, dtype=complex)
        for k in range(L - 1, -1, -1):
            S = self.T[k] @ S + cR[(k - 1) % L]
        HR = [None] * L
        HR[L - 1] = np.linalg.solve(M, S)
        for k in range(L - 1, 0, -1):
            HR[k - 1] = self.T[k] @ HR[k] + cR[k - 1]
        self.HL = [x.reshape(D, D) for x in HL]
        self.HR = [x.reshape(D, D) for x in HR]

    def gradient(self):
        """dE_cell/dconj(A_k), without the part along the state itself."""
        L, n, q, D, A = self.L, self.n, self.q, self.D, self.A
        F = []
        for k in range(L):
            f = np.einsum('ac,sab,bd->scd', self.HL[k], A[k], self.rs[k])
            f = f + np.einsum('ac,sab,bd->scd', self.ls[k], A[k], self.HR[k])
            for i in range(n):                                   # term starting i sites to the left of k
                j = (k - i) % L
                c = self.C[j].reshape((q,) * n + (D, D))
                # contract conjugate tensors of the sites left of k from the left, right of k from the right
                x = np.tensordot(self.ls[j], c, axes=([0], [n]))                 # bra, phys(n), right ket
                for m in range(i):
                    x = np.einsum('cs...,scd->d...', x, A[(j + m) % L].conj())
                x = np.moveaxis(x, -1, 1)                                         # bra, right ket, phys...
                y = np.tensordot(x, self.rs[(j + n - 1) % L], axes=([1], [0]))    # bra, phys..., right bra
                for m in range(n - 1, i, -1):
                    y = np.einsum('...sd,scd->...c', y, A[(j + m) % L].conj())
                f = f + np.transpose(y, (1, 0, 2)) - self.e[j] * np.einsum('ac,sab,bd->scd', self.ls[k], A[k], self.rs[k])
            F.append(f)
        return F

    def B(self):
        """Right-gauge tangent tensors of (H - E)|psi>, and the squared norm per site."""
        out, eta = [], []
        for k, f in enumerate(self.gradient()):
            l, r, rm = self.ls[k].T, self.rs[k], self.rs[(k - 1) % self.L]        # l acts as bra-row, ket-column
            # inner product <X|Y> = sum conj(X)_scd l[ket a, bra c] Y_sab r[ket b, bra d]; F_scd = l^T.. B ..r
            li = np.linalg.inv(self.ls[k].T)
            ri = np.linalg.inv(r)
            g = np.einsum('ca,sab,bd->scd', li, f, ri)                             # unconstrained: l^-1 F r^-1
            a = self.A[k]
            # remove y A with y = (sum_s g r A^dag) rm^-1
            y = np.einsum('sab,bd,scd->ac', g, r, a.conj()) @ np.linalg.inv(rm)
            b = g - np.einsum('ab,sbc->sac', y, a)
            out.append(b)
            eta.append(self.inner(k, b, b).real)
        return out, np.array(eta)

    def inner(self, k, x, y):
        return np.einsum('scd,ac,sab,bd->', np.conj(x), self.ls[k], y, self.rs[k])

    def eta2s(self):
        """Squared norm of the two-site component of H|psi> orthogonal to the tangent space, per bond pair (k, k+1)."""
        L, n, q, D, A = self.L, self.n, self.q, self.D, self.A
        out = []
        for k in range(L):
            p = (k + 1) % L
            lm, rm = self.ls[k], self.rs[p]
            if n == 2:
                c = self.C[k].reshape(q, q, D, D)
            else:
                c3 = self.C[k].reshape(q, q, q, D, D)
                ri = np.linalg.inv(rm)
                c = np.einsum('stuab,bd,ued,ef->staf', c3, self.rs[(k + 2) % L], A[(k + 2) % L].conj(), ri)
                c3 = self.C[(k - 1) % L].reshape(q, q, q, D, D)
                li = np.linalg.inv(lm.T)
                c = c + np.einsum('fe,ac,uce,ustab->stfb', li, self.ls[(k - 1) % L], A[(k - 1) % L].conj(), c3)
            # left complement: c -> c - A_k l_p^-1 (A_k^dag l c);  right complement likewise
            lp = self.ls[p].T                                   # bra-row, ket-column
            z = np.einsum('sce,ac,stab->teb', A[k].conj(), lm, c)
            c = c - np.einsum('sae,ef,tfb->stab', A[k], np.linalg.inv(lp), z)
            rk = self.rs[k]
            z = np.einsum('stab,bd,ted->sae', c, rm, A[p].conj())
            c = c - np.einsum('sae,ef,tfb->stab', z, np.linalg.inv(rk), A[p])
            out.append(np.einsum('stcd,ac,stab,bd->', c.conj(), lm, c, rm).real)
        return np.array(out)


def uni_flow(A, h, n, dtau, steps):
    """RK4 integration of dA/dtau = -B(A)."""
    A = [np.array(a, dtype=complex) for a in A]
    dt = dtau / steps

    def f(X):
        t = UniTangent(X, h, n)
        sc = t.A[0].ravel() @ np.conj(X[0].ravel()) / np.vdot(X[0], X[0])
        b = t.B()[0]
        b[0] = b[0] / sc                     # undo the normalisation of the first tensor
        return b
    for _ in range(steps):
        k1 = f(A)
        k2 = f([a - dt / 2 * b for a, b in zip(A, k1)])
        k3 = f([a - dt / 2 * b for a, b in zip(A, k2)])
        k4 = f([a - dt * b for a, b in zip(A, k3)])
        A = [a - dt / 6 * (p + 2 * r + 2 * s + t) for a, p, r, s, t in zip(A, k1, k2, k3, k4)]
    return A


def _herm(m):
    t = np.trace(m)
    if abs(t) > 1e-12 * nla.norm(m):
        m = m / (t / abs(t))
    m = (m + m.conj().T) / 2
    return m


def fid_per_cell(A, B):
    """|largest eigenvalue| of the mixed cell transfer matrix, both normalised per cell."""
    ea = np.max(np.abs(nla.eigvals(cell_transfer(A))))
    eb = np.max(np.abs(nla.eigvals(cell_transfer(B))))
    m = np.max(np.abs(nla.eigvals(cell_transfer(A, B))))
    return float(m / np.sqrt(ea * eb))


def block_cells(A, m):
    """Repeat the cell m times."""
    return list(A) * m
