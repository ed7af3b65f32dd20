"""P08: iterative solvers that fail are retried or reported; nothing unconverged is passed off as good; a failure leaves nothing behind."""
import numpy as np
import numpy.linalg as nla

from .. import finite as F
from .. import model as M
from .. import twin as T
from .. import uniform as U
from ..core import Abandon
from . import p01, p05

EIG_KINDS = ["noconv", "noconv", "noconv_partial", "exhaust", "error", "unlucky"]
LIN_KINDS = ["status_partial", "status_garbage", "breakdown", "ignore_x0"]
RETRIED = ("noconv", "noconv_partial", "exhaust", "unlucky")
# attempts documented by the max_retries defaults
ATTEMPTS = dict(update=4, update_nocf=4, update_trunc=4, E_gap=3, correlation_length=3, fidelity=3, spectrum=3, excite=3, excite_nontriv=3)
UOPS = ["update", "update", "update_nocf", "update_trunc", "E_gap", "correlation_length", "string", "density_hc", "fidelity", "spectrum",
        "calc_B", "calc_B", "calc_B", "step", "rk4", "excite", "excite_nontriv", "phase_align", "dynexp"]


def shrink(plan):
    return (U.shrink_ucfg if "L" in plan["config"] else F.shrink_cfg)(plan)


def gen(rng, tier, idx):
    if rng.random() < 0.12:
        cfg = F.gen_cfg(rng)
        cfg["cls"] = "tdvp"
        cfg["init"]["kind"] = "tensors"
        cfg["ham"]["callable"] = False
        cfg["cf"] = "right"
        ops = [dict(op="sweep", seed=rng.randrange(1 << 30), faults=faults(rng, "eigsh")) for _ in range(rng.randint(1, 3))]
        return dict(config=cfg, ops=ops, cls="F" + F.cfg_class(cfg), garbage=rng.choice(["nan", "noise", None]))
    big = rng.random() < 0.3
    cfg = U.gen_ucfg(rng, tdvp=True, real_ok=False, kinds=("random", "tensors", "product"))
    names = list(UOPS)
    if big:
        cfg.update(L=rng.choice([1, 1, 2]), q=2, D=rng.choice([9, 9, 10]), route="arpack")
        names = ["update", "E_gap", "correlation_length", "fidelity", "spectrum", "E_gap", "calc_B"]
    elif rng.random() < 0.15:
        cfg.update(L=1, q=2, D=3)
        cfg["ham"] = U.gen_ham(rng, 2)
        names += ["excite", "excite", "excite_nontriv", "excite_nontriv"]
    if rng.random() < 0.6 and cfg["D"] < 4 and not big:
        cfg["D"] = rng.choice([4, 5])
    ops = []
    for _ in range(rng.randint(2, 5)):
        if rng.random() < 0.15:
            ops.append(dict(op="edit", how=rng.choice(["scramble", "noise", "apply1s", "opts", "tensors", "form"]), seed=rng.randrange(1 << 30)))
        k = rng.choice(names)
        site = "bicgstab" if k in ("calc_B", "step", "rk4", "dynexp") else rng.choice(["eigs"] * 4 + ["cholesky", "eigh", "svd"]) if k.startswith("update") else \
            "eigs" if k in ("fidelity", "phase_align", "E_gap", "correlation_length", "string", "density_hc", "spectrum") else rng.choice(["eigsh", "eigsh", "lin_any"])
        ops.append(dict(op=k, seed=rng.randrange(1 << 30), faults=faults(rng, site)))
    return dict(config=cfg, ops=ops, cls=U.ucfg_class(cfg), garbage=rng.choice(["nan", "nan", "noise", "huge", None]))


def faults(rng, site):
    if rng.random() < 0.08:
        return []
    kinds = EIG_KINDS if site in ("eigs", "eigsh") else LIN_KINDS if site in ("bicgstab", "lin_any") else ["fail"]
    out = [dict(site=site, kind=rng.choice(kinds), nth=rng.choice([0, 0, 0, 1, 1, 2, 3]), count=rng.choice([1, 1, 1, 2, 2, 3, 4, 9]), frac=0.5)]
    if rng.random() < 0.3:
        out.append(dict(site=site, kind=rng.choice(kinds), nth=rng.choice([1, 2, 3, 4, 5]), count=rng.choice([1, 2]), frac=0.5))
    return out


def tolerable(fs, attempts):
    """Whether one success within the permitted attempts is left whatever solve the faults hit."""
    n = 0
    for f in fs:
        if f["site"] not in ("eigs", "eigsh") or f["kind"] not in RETRIED:
            return f["kind"] == "ignore_x0" and len(fs) == 1
        n += f["count"] if f["kind"] != "unlucky" else 0
    return n < attempts


def execute(plan, ctx):
    if "L" in plan["config"]:
        return exec_uniform(plan, ctx)
    w = F.FW(ctx, plan["config"])
    for op in plan["ops"]:
        sweep(w, op)


def exec_uniform(plan, ctx):
    w = U.UW(ctx, plan["config"])
    st = dict(fresh=False, canon=False)
    for op in plan["ops"]:
        # a well-conditioned state, so that nothing but the injected faults can fail
        if not w.good(0.93) or w.min_schmidt() < 0.01:
            rs = np.random.RandomState(op["seed"] ^ 0x77)
            for _ in range(60):
                w.set_A(U.rand_cell(rs, w.L, w.q, w.D))
                st["fresh"] = False
                if w.good(0.93) and w.min_schmidt() >= 0.01:
                    break
            else:
                raise Abandon("ill-conditioned")
        rs = np.random.RandomState(op["seed"])
        if op["op"] == "edit":
            p05.edit(w, dict(op, op=op["how"]), rs, st)
            st["fresh"] = False      # (the Hamiltonian environments are not part of what the edits keep)
            continue
        attempt(w, op, st)
        ctx.log("A", *w.A())


def attempt(w, op, st):
    ctx, k = w.ctx, op["op"]
    if k.startswith("update"):
        return update(w, op, st)
    if not (st["fresh"] and st["canon"]):
        ctx.must("update", lambda: w.s.update())
        st["fresh"] = st["canon"] = True
    if k.startswith("excite") and (w.L != 1 or w.sites != 2 or not 9 <= (w.q - 1) * w.D ** 2 <= 18):
        return
    if k in ("calc_B",) or k not in ("step", "rk4", "dynexp"):
        return evaluate(w, op)
    step(w, op, st)


def run(w, fn, op, t=None):
    """One call under the faults: (value, exception, warnings, fired)."""
    from ..seams import S
    with T.warnings_of_evomps() as msgs:
        v, e = w.ctx.call(op["op"], fn, faults=op["faults"], seed=op["seed"], ret_exc=True)
    fired = list(S.fired)
    S.disarm()
    if e is not None:
        import scipy.sparse.linalg as las
        from evoMPS.mps_uniform import EvoMPSNoConvergence
        from ..seams import INJECTED
        ok = isinstance(e, INJECTED + (EvoMPSNoConvergence, las.ArpackError, np.linalg.LinAlgError, ValueError))
        w.ctx.check(ok, "failure-report", "%s reported a solver failure as %s: %s (%s)" % (op["op"], type(e).__name__, str(e)[:200], fired))
        if tolerable(op["faults"], ATTEMPTS.get(op["op"], 1)):
            w.ctx.check(False, "gave-up", "%s gave up with %s: %s although an attempt was left (%s)" % (op["op"], type(e).__name__, str(e)[:200], fired))
    return v, e, list(msgs), fired


def update(w, op, st):
    ctx, s = w.ctx, w.s
    k = op["op"]
    A0 = w.A()
    P0 = T.params(s)
    ctx.op(k, (w.route, "+".join(sorted(set(f["site"] + ":" + f["kind"] for f in op["faults"])))))
    fn = dict(update=lambda: s.update(), update_nocf=lambda: s.update(restore_CF=False), update_trunc=lambda: s.update(auto_truncate=True))[k]
    v, e, msgs, fired = run(w, fn, op)
    pc = T.params_changed(P0, T.params(s))
    ctx.check(not pc, "parameters-changed", "%s changed %s" % (k, pc))
    if e is None:
        verify(w, A0, k, k != "update_nocf")
        st["fresh"], st["canon"] = True, k != "update_nocf"
    else:
        w.same_state(A0, 1e-8, "failure-changes-state", "failed %s (%s)" % (k, fired))
        ctx.probe("reported")
    # once faults have stopped
    ctx.must("update-again", lambda: s.update(), seed=op["seed"] + 1)
    verify(w, A0, "update after " + ("failure" if e is not None else "success"), True)
    st["fresh"] = st["canon"] = True


def verify(w, A0, what, canon):
    w.same_state(A0, 1e-8, "update-wrong", what)
    w.check_fixed_points(1e-8)
    if canon:
        w.check_canonical(1e-8)


def evaluation(w, op):
    """(function of an object, reference or None, tolerance) for one evaluating operation."""
    rs = np.random.RandomState(op["seed"])
    k = op["op"]
    if k in ("E_gap", "correlation_length"):
        for nm, fn, ref, tol in w.observations(np.random.RandomState(op["seed"]), many=False):
            if nm == k:
                return (lambda s: s.calc_E_gap()) if k == "E_gap" else (lambda s: s.correlation_length()), ref, max(tol, 1e-7)
        return None
    if k == "spectrum":
        fr = w.D ** 2 > 9
        left = rs.rand() < 0.5
        u = w.uni()
        ev = np.sort(np.abs(u.evs))[::-1]
        if len(ev) < 3 or not fr:
            return None
        return (lambda s: np.sort(np.abs(s._calc_E_largest_eigenvalues(nev=2, left=left, force_sparse=True)))[::-1][:2]), ev[:2], 1e-7
    if k in ("string", "density_hc"):
        o = w.rand_op(rs, "unitary")
        TT = None
        for a in w.uni().A:
            t = M.site_transfer(a, a, o)
            TT = t if TT is None else TT @ t
        ev = nla.eigvals(TT)
        ev = ev[np.argsort(-np.abs(ev))]
        if len(ev) > 1 and abs(ev[1]) > 0.95 * abs(ev[0]):
            return None
        L = w.L
        if k == "string":
            return (lambda s: np.asarray(s.expect_string_per_site_1s(o)).ravel()[0] ** L), ev[0], 1e-8
        kk = rs.randint(L)
        return (lambda s: np.asarray(s.expect_string_1s_density_hc(o, kk)[1]).ravel()[0] ** L), ev[0], 1e-8
    if k in ("fidelity", "phase_align"):
        D2 = w.D if k == "phase_align" else rs.randint(2, 8)
        T2 = U.rand_cell(rs, w.L if k == "phase_align" else rs.randint(1, 3), w.q, D2)
        if k == "phase_align":
            if w.D < 2 or w.L != 1:
                return None
            A = w.A()
            T2 = [a + 0.2 * t for a, t in zip(A, T2)]
        from evoMPS.mps_uniform import EvoMPS_MPS_Uniform
        o = w.ctx.must("from_tensors", lambda: EvoMPS_MPS_Uniform.from_tensors([t.astype(complex) for t in T2], do_update=False))
        o.symm_gauge = w.s.symm_gauge
        w.ctx.must("update", lambda: o.update())
        B = [np.array(b) for b in o.A]
        Lc = int(np.lcm(w.L, len(B)))
        ev = nla.eigvals(M.cell_transfer(w.A() * (Lc // w.L), B * (Lc // len(B))))
        ev = ev[np.argsort(-abs(ev))]
        if len(ev) < 5 or abs(ev[1]) > 0.95 * abs(ev[0]) or abs(ev[0]) < 1e-3:
            return None
        if k == "phase_align":
            return None
        fs = len(ev) > 9
        return (lambda s: s.fidelity_per_site(o, force_sparse=fs)[0]), abs(ev[0]) ** (1.0 / Lc), 1e-8
    if k == "calc_B":
        def f(s):
            B = s.calc_B()
            return [list(B), s.eta_sq, s.eta]
        return f, None, 1e-6
    if k == "excite":
        p = rs.choice([0.0, rs.uniform(-3, 3)])
        nev = rs.randint(1, 3)
        if op["faults"] and op["faults"][0]["site"] == "lin_any":
            return (lambda s: s.excite_top_triv_brute(p)), "twin", 1e-6
        return (lambda s: np.sort(s.excite_top_triv(p, nev=nev, max_itr=15))), "twin", 1e-6
    if k == "excite_nontriv":
        p = rs.choice([0.0, rs.uniform(-3, 3)])
        nev = rs.randint(1, 3)
        G = unitary_like(w, rs)
        if op["faults"] and op["faults"][0]["site"] == "lin_any":
            return (lambda s: s.excite_top_nontriv_brute(donor(w, s, G), p)), "twin", 1e-6
        return (lambda s: np.sort(s.excite_top_nontriv(donor(w, s, G), p, nev=nev, max_itr=15))), "twin", 1e-6
    raise AssertionError(k)


def unitary_like(w, rs):
    return F.unitary(rs, w.q)


def donor(w, s, G):
    """A partner ground state: the same one seen through a local basis rotation."""
    d = T.copy.deepcopy(s)
    for k in range(w.L):
        d.A[k] = np.ascontiguousarray(np.einsum('st,tab->sab', G, d.A[k]))
    d.update()
    return d


def evaluate(w, op):
    ctx, s, k = w.ctx, w.s, op["op"]
    if k.startswith("excite") and (w.hcfg["callable"] or w.hcfg.get("tp")):
        return
    ev = evaluation(w, op)
    if ev is None:
        return
    f, ref, tol = ev
    ctx.op(k, ("+".join(sorted(set(x["site"] + ":" + x["kind"] for x in op["faults"]))),))
    tw = T.world_twin(w)
    ok = True
    v1, e1 = ctx.call(k + "-twin", lambda: f(tw.s), seed=op["seed"], allow=(Exception,) if k.startswith("excite") else (), ret_exc=True)
    if e1 is not None:
        # the undisturbed computation itself cannot be done here (degenerate effective problem)
        ctx.probe("twin-" + type(e1).__name__)
        return
    want = v1 if ref is None or (isinstance(ref, str)) else ref
    A0, P0 = T.tensors(s), T.params(s)
    h0 = T.ham_copy(s.ham)
    v, e, msgs, fired = run(w, lambda: f(s), op)
    if k == "excite_nontriv":      # (aligns the overall phase of the tensors with the partner's)
        A1 = T.tensors(s)
        c = np.vdot(A0[0], A1[0]) / np.vdot(A0[0], A0[0])
        ctx.close(A1[0], A0[0] * c, 1e-12, "evaluation-changes-state", "%s (%s) changed the tensors" % (k, fired))
        ctx.close(abs(c), 1.0, 1e-12, "evaluation-changes-state", "%s (%s) rescaled the tensors" % (k, fired))
    else:
        ctx.check(T.same_bits(A0, T.tensors(s)), "evaluation-changes-state", "%s (%s) changed the tensors" % (k, fired))
    pc = T.params_changed(P0, T.params(s))
    ctx.check(not pc, "parameters-changed", "%s changed %s" % (k, pc))
    ctx.check(T.ham_same(h0, s.ham), "hamiltonian-changed", k)
    if e is None:
        g, sg = T.flat(v)
        h, sh = T.flat(want)
        good = g.shape == h.shape and bool(np.all(np.isfinite(g))) and float(np.max(np.abs(g - h))) <= tol * max(1.0, float(np.max(np.abs(h))))
        lin = any(x.split(":")[0] in ("bicgstab", "lin_any", "gmres", "lgmres") and not x.endswith("ignore_x0") for x in fired)
        if not (lin and msgs):
            ctx.check(good, "wrong-without-report", "%s after %s: off by %s, no warning (%s)" % (
                k, fired, np.max(np.abs(g - h)) if g.shape == h.shape else "shape", msgs[:2]))
        ctx.probe("right-after-fault" if good and fired else "warned" if fired else "nofault")
    else:
        ctx.probe("reported")
    v2 = ctx.must(k + "-again", lambda: f(s), seed=op["seed"] + 1)
    g, h = T.flat(v2)[0], T.flat(want)[0]
    ctx.close(g, h, tol, "fault-leaves-trace", "%s repeated after %s" % (k, fired))
    ctx.log(k, h)


def step(w, op, st):
    ctx, s, k = w.ctx, w.s, op["op"]
    ctx.op(k, ("+".join(sorted(set(x["kind"] for x in op["faults"]))),))
    dt = 0.004 * (1j if op["seed"] % 2 else 1.0)

    def f(o):
        if k == "rk4":
            o.take_step_RK4(dt)
        elif k == "dynexp":
            o.take_step(dt, dynexp=True, D_max=w.D + 1, dD_max=1)
        else:
            o.take_step(dt)
        o.update()
    if k == "dynexp" and w.D >= 6:
        k = "step"
    tw = T.world_twin(w)
    ctx.must(k + "-twin", lambda: f(tw.s), seed=op["seed"])
    A0, P0 = w.A(), T.params(s)
    D0 = w.D
    v, e, msgs, fired = run(w, lambda: f(s), op)
    pc = T.params_changed(P0, T.params(s))
    ctx.check(not pc, "parameters-changed", "%s changed %s" % (k, pc))
    lin = any(not x.endswith("ignore_x0") for x in fired)
    if e is None and not (lin and msgs):
        w.same_state(tw.A(), 1e-6, "wrong-without-report", "%s after %s, no warning" % (k, fired))
        st["fresh"] = st["canon"] = True
        return
    ctx.probe("reported")
    if w.D != D0:
        ctx.must("truncate", lambda: s.truncate(D0, update=False))
    w.set_A(A0)
    ctx.must("update-again", lambda: s.update(), seed=op["seed"] + 1)
    ctx.must(k + "-again", lambda: f(s), seed=op["seed"] + 2)
    w.same_state(tw.A(), 1e-6, "fault-leaves-trace", "%s repeated after %s" % (k, fired))
    st["fresh"] = st["canon"] = True


def sweep(w, op):
    """Finite chain: a DMRG sweep whose eigensolver fails."""
    ctx, s = w.ctx, w.s
    if w.sites not in (2, 3) or w.N < w.sites or any(t is None for t in w.hterms[:w.N + 1 - w.sites]) or s.D.max() > 8:
        raise Abandon("no sweep here")
    ctx.must("update", lambda: s.update())
    psi0 = w.psi()
    if w.min_schmidt(psi0) < 1e-3:
        raise Abandon("ill-conditioned")
    ctx.op("sweep", ("+".join(sorted(set(x["kind"] for x in op["faults"]))),))
    f = lambda o: o.vari_opt_ss_sweep(ncv=None)
    A0 = [np.array(a) for a in s.A[1:]]
    tw = T.world_twin(w)
    ctx.must("sweep-twin", lambda: f(tw.s), seed=op["seed"])
    ctx.must("update", lambda: tw.s.update())
    v, e, msgs, fired = run(w, lambda: f(s), op)
    if e is None:
        ctx.must("update", lambda: s.update())
        d = abs(w.energy() - tw.energy())
        ctx.check(d <= 1e-6 * max(1, abs(tw.energy())), "wrong-without-report", "sweep after %s: energy off by %.3g" % (fired, d))
    ctx.must("restore", lambda: s.set_state_from_tensors([None] + [a.copy() for a in A0]))
    w.same_state(psi0, 1e-8, "fault-leaves-trace", phase=False, what="restored state after %s" % fired)
    ctx.must("sweep-again", lambda: f(s), seed=op["seed"] + 1)
    ctx.must("update", lambda: s.update())
    d = abs(w.energy() - tw.energy())
    ctx.check(d <= 1e-6 * max(1, abs(tw.energy())), "fault-leaves-trace", "sweep repeated after %s: energy off by %.3g" % (fired, d))
    ctx.log("E", w.energy())
