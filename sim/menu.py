"""The operations that only evaluate, and those that update or step, as (name, thunk, tolerance) of one world.

Deterministic in the seed, so that a twin world gets the same operations."""
import io

import numpy as np

from . import finite as F
from . import model as M
from . import uniform as U


def _cp(B):
    return [None if b is None else np.array(b) for b in B]


def _obs(w, rs):
    """One of the observables with a dense reference."""
    obs = w.observations(np.random.RandomState(rs.randint(1 << 30)), many=False)
    return obs


def finite_evals(w, seed, light=False):
    rs = np.random.RandomState(seed)
    s, N = w.s, w.N
    out = [(o[0], o[1], 1e-9) for o in _obs(w, rs)]
    from evoMPS.mps_gen import EvoMPS_MPS_Generic
    D = [1] + [rs.randint(1, 4) for _ in range(N - 1)] + [1]
    T = F.rand_tensors(rs, w.q, D)

    def other():
        o = EvoMPS_MPS_Generic(N, np.array(D), np.array([w.q[0]] + w.q))
        o.set_state_from_tensors([None] + [t.copy() for t in T])
        return o
    out.append(("inner", lambda: s.inner(other()), 1e-9))
    out.append(("inner-r", lambda: other().inner(s), 1e-9))
    out.append(("save", lambda: _save(s), 0))
    if not w.is_tdvp:
        return out
    gf = s.gauge_fixing
    out.append(("calc_B", lambda: [_cp(s.calc_B()), np.array(s.eta_sq, dtype=float), s.eta], 1e-7))
    out.append(("calc_B_noeta", lambda: _cp(s.calc_B(set_eta=False)), 1e-7))
    n = rs.randint(1, N + 1)
    out.append(("calc_B_n", lambda: _cp([s.calc_B_n(n)]), 1e-7))
    tau = rs.choice([0.02, 0.05, 0.1])
    skip, ov = bool(rs.rand() < 0.3), bool(rs.rand() < 0.4)
    if gf == "right" or not ov:
        out.append(("find_min", lambda: s.find_min_h_brent(s.calc_B(), tau, skipIfLower=skip, use_tangvec_overlap=ov), 1e-3))
    if not light:
        out.append(("calc_B_CG", lambda: _cgf(s, tau), 1e-3))
    return out


def _cgf(s, tau):
    B, Bg, eta, tau = s.calc_B_CG(None, 0, tau, reset=True)[:4]
    return [_cp(B), eta]


def _save(s, **k):
    f = io.BytesIO()
    s.save_state(f, **k)
    return np.frombuffer(f.getvalue(), dtype=np.uint8).astype(float).sum() * 0 + 1.0


def uniform_evals(w, seed, light=False):
    from evoMPS.mps_uniform import EvoMPS_MPS_Uniform
    rs = np.random.RandomState(seed)
    s, L = w.s, w.L
    out = [(o[0], o[1], max(o[3], 1e-8)) for o in _obs(w, rs)]
    L2 = rs.randint(1, 3)
    T = U.rand_cell(rs, L2, w.q, rs.randint(1, 4))

    def other():
        return EvoMPS_MPS_Uniform.from_tensors([t.astype(complex) for t in T])
    fs, full, left = bool(rs.rand() < 0.5), bool(rs.rand() < 0.3), bool(rs.rand() < 0.5)
    ov = np.abs(np.linalg.eigvals(U.M.cell_transfer(w.A() * L2, T * L)))
    ov = np.sort(ov)[::-1]
    if not fs or len(ov) > 9:
        if len(ov) < 2 or ov[1] < 0.9 * ov[0]:
            out.append(("fidelity", lambda: s.fidelity_per_site(other(), left=left, force_sparse=fs)[0], 1e-7))
            out.append(("fidelity-r", lambda: other().fidelity_per_site(s, force_sparse=fs)[0], 1e-7))
    if not w.is_tdvp:
        return out
    out.append(("calc_B", lambda: [_cp(s.calc_B()), s.eta_sq, s.eta], 1e-6))
    out.append(("calc_B_x", lambda: _cp(s.calc_B(set_eta=False, return_x=True)[0]), 1e-6))
    out.append(("export", lambda: _exp(s), 1e-9))
    out.append(("save", lambda: _save(s), 0))
    if w.sites == 2 and w.D > 0 and w.D * (w.q - 1) > 0:
        out.append(("calc_B_2s", lambda: [(s.calc_B(), s.calc_B_2s())[1] and None, s.etaBB_sq.real if np.ndim(s.etaBB_sq) == 0 else np.array(s.etaBB_sq).real], 1e-6))
    out.append(("calc_K_l", lambda: s.calc_K_l() is None or None, 1))
    if not light and not w.hcfg.get("tp"):
        tau = rs.choice([0.02, 0.05])
        out.append(("calc_B_CG", lambda: _cg(s, tau), 1e-3))
        out.append(("line_search", lambda: _ls(s, tau), 1e-3))
    if L == 1:
        o = w.rand_op(rs, "herm") if False else F.herm(rs, w.q)
        B = F.rmat(rs, w.q * w.D, w.D).reshape(w.q, w.D, w.D)
        out.append(("tangent_1s", lambda: s.expect_tangent_1s(B, o, 2), 1e-8))
        out.append(("tangent_corr", lambda: s.correlation_tangent_1s_1s(B, o, o, 2)[1], 1e-8))
    out.append(("B_overlap", lambda: _bo(s, seed), 1e-5))
    if not light and L == 1 and w.sites == 2 and 4 <= (w.q - 1) * w.D ** 2 <= 12 and not w.hcfg["callable"] and not w.hcfg.get("tp"):
        p = rs.uniform(-3, 3)
        out.append(("excite", lambda: np.sort(s.excite_top_triv_brute(p)), 1e-6))
    return out


def _exp(s):
    e = s.export_state()
    return [np.array(e[0]), np.array(e[1]), np.array(e[2])]


def _bo(s, seed):
    rs = np.random.RandomState(seed ^ 0x31)
    B = s.calc_B()
    B2 = [b + 0.1 * (rs.randn(*b.shape) + 1j * rs.randn(*b.shape)) for b in B]
    return s._B_overlap(B, B2, B1_is_GF=True)


def _cg(s, tau):
    BCG, BG, n2, t = s.calc_B_CG(None, None, 0, tau, tau_init=tau, reset=True)
    return [_cp(BCG), n2]


def _ls(s, tau):
    from evoMPS.tdvp_uniform import EvoMPS_line_search
    B = s.calc_B()
    ls = EvoMPS_line_search(s, B, B)
    ls.brentq(tau)
    return [ls.hs[0], complex(ls.gs[0]).real]


def evals(w, seed, light=False):
    return (uniform_evals if hasattr(w, "L") else finite_evals)(w, seed, light)


# ------------------------------------------------------------------------------ updates and steps, shape kept
FIN_MUTS = ["update", "update", "update_nocf", "step", "step", "rk4", "rk4", "split", "sweep", "savemem", "step_B", "cg_step"]
UNI_MUTS = ["update", "update", "update_nocf", "step", "step", "rk4", "rk4", "cg_step", "form"]


def mutation(w, k, seed):
    """thunk(s) performing the operation, or None where it is not possible here."""
    rs = np.random.RandomState(seed)
    ctx = w.ctx
    fin = not hasattr(w, "L")
    dt = (0.02 if fin else 0.01) * rs.choice([1.0, 1j])
    if k == "update":
        return lambda s: s.update()
    if k == "update_nocf":
        return lambda s: s.update(restore_CF=False)
    if k == "form":
        return lambda s: (s.restore_RCF() if w.symm else s.restore_SCF())
    if not w.is_tdvp:
        return None
    if k == "step":
        return lambda s: s.take_step(dt)
    if k == "savemem":
        return lambda s: s.take_step(dt, save_memory=True)
    if k == "step_B":
        return lambda s: s.take_step(dt, B=s.calc_B())
    if k == "rk4":
        return lambda s: s.take_step_RK4(dt)
    if k == "cg_step":
        def cg(s):
            r = s.calc_B_CG(None, 0, 0.05, reset=True) if fin else s.calc_B_CG(None, None, 0, 0.05, tau_init=0.05, reset=True)
            s.take_step(0.02, B=r[0])
        return cg
    if k in ("split", "sweep"):
        if w.s.canonical_form != "right" or any(t is None for t in w.hterms[:w.N + 1 - w.sites]):
            return None
        if k == "sweep":
            # (from the maximally entangled states of randomize() local minima can be of
            # lower rank, which leaves bond vectors to rounding errors)
            psi = w.psi()
            for n in range(1, w.N):
                d = int(w.s.D[n])
                if d > 1:
                    sv = M.schmidt(psi, n)
                    if sv[0] - sv[d - 1] < 1e-3 * sv[0]:
                        return None
            return lambda s: s.vari_opt_ss_sweep(ncv=None)
        return lambda s: F.take_step_split(ctx, s, dt)
    raise AssertionError(k)
