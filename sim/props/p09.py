"""P09: an operation interrupted at any line leaves nothing that a retry (or putting the tensors back) does not cure."""
import numpy as np

from .. import finite as F
from .. import menu
from .. import seams
from .. import twin as T
from .. import uniform as U
from ..core import Abandon
from . import p01, p05

FE = ["scramble", "apply1s", "noise", "tensors", "product", "swapform", "lowrank"]
UE = ["scramble", "noise", "apply1s", "opts", "tensors", "form"]


def shrink(plan):
    return (U.shrink_ucfg if "L" in plan["config"] else F.shrink_cfg)(plan)


def gen(rng, tier, idx):
    fin = rng.random() < 0.5
    if fin:
        cfg = F.gen_cfg(rng, tdvp=rng.random() < 0.9, Nmax=5, Dmax=3, dmax=100)
    else:
        cfg = U.gen_ucfg(rng, tdvp=rng.random() < 0.93, real_ok=False, kinds=("random", "tensors", "product"), Dmax=4, Lmax=3)
    ops = []
    for _ in range(rng.randint(2, 4)):
        if rng.random() < 0.25:
            ops.append(dict(op="edit", how=rng.choice(FE if fin else UE), seed=rng.randrange(1 << 30)))
        o = dict(op=rng.choice(["eval", "mutate"]), seed=rng.randrange(1 << 30), frac=rng.random(), exc=rng.choice(["interrupt", "interrupt", "memory"]),
                 pick=rng.random(), after=rng.choice(["none", "update", "step"]))
        if o["op"] == "mutate":
            o["how"] = rng.choice(menu.FIN_MUTS if fin else menu.UNI_MUTS)
        ops.append(o)
    return dict(config=cfg, ops=ops, cls=("F" if fin else "U") + (F.cfg_class(cfg) if fin else U.ucfg_class(cfg)), garbage=rng.choice(["nan", "nan", "noise", None]))


HEAVY = ("calc_B", "find_min", "calc_B_CG", "line_search", "calc_B_2s", "excite", "save", "export", "fidelity", "inner", "E_gap", "correlation",
         "intermediates", "density_2s", "expect_MPO", "string", "tangent", "B_overlap", "calc_K_l", "calc_B_MPO", "calc_B_n")


LONG = ("calc_B", "find_min", "calc_B_CG", "line_search", "calc_B_2s", "excite")


def execute(plan, ctx):
    fin = "L" not in plan["config"]
    w = F.FW(ctx, plan["config"]) if fin else U.UW(ctx, plan["config"])
    st = dict(fresh=False, canon=False)
    for op in plan["ops"]:
        rs = np.random.RandomState(op["seed"])
        if op["op"] == "edit":
            if fin:
                psi = w.psi()
                n0 = np.linalg.norm(psi.ravel())
                if not 1e-6 < n0 < 1e8:
                    raise Abandon("norm")
                p01.do_edit(w, dict(op, op=op["how"]), rs, psi, n0)
            else:
                p05.edit(w, dict(op, op=op["how"]), rs, st)
            continue
        settle(w, op)
        (evaluating if op["op"] == "eval" else mutating)(w, op)


def settle(w, op):
    """An up-to-date, well-conditioned state."""
    ctx = w.ctx
    rs = np.random.RandomState(op["seed"] ^ 0x55)
    for k in range(40):
        if hasattr(w, "L"):
            ok = w.good(0.93) and w.min_schmidt() >= 0.02
        else:
            n0 = np.linalg.norm(w.psi().ravel())
            ok = 1e-6 < n0 < 1e8 and w.min_schmidt() > 0.02
        if ok:
            break
        if hasattr(w, "L"):
            w.set_A(U.rand_cell(rs, w.L, w.q, w.D))
        else:
            D = [1] + [min(int(d), F.maxD(w.q, n), F.maxD(w.q[::-1], w.N - n)) for n, d in list(enumerate(w.s.D))[1:-1]] + [1]
            ctx.must("set_tensors", lambda: w.s.set_state_from_tensors([None] + F.rand_tensors(rs, w.q, D), do_update=False))
    else:
        raise Abandon("ill-conditioned")
    ctx.must("update", lambda: w.s.update(), seed=op["seed"])


def exc_of(op):
    return dict(interrupt=lambda: seams.InjectedInterrupt("interrupted"), memory=lambda: seams.InjectedMemoryError("out of memory"),
                linalg=lambda: seams.InjectedLinAlgError("failed"))[op["exc"]]()


def traced(ctx, name, fn, op, stop):
    """(value, exception, lines, where)"""
    tr = seams.Tracer(stop_at=stop, exc=exc_of(op))

    def run():
        with tr:
            return fn()
    # (an exception passing through compiled code can surface as SystemError)
    v, e = ctx.call(name, run, seed=op["seed"], ret_exc=True, allow=(SystemError,) if stop else ())
    return v, e, tr


def ham_of(w):
    return getattr(w.s, "ham", None)


def same_state(w, ref, tol, kind, what):
    if hasattr(w, "L"):
        w.same_state(ref, tol, kind, what)
    else:
        w.same_state(ref, tol, kind, what=what)


def ref_of(w):
    return w.A() if hasattr(w, "L") else w.psi()


def compare(w, tw, ctx, tol, kind, what):
    same_state(w, ref_of(tw), tol, kind, what)


def evaluating(w, op):
    ctx, s = w.ctx, w.s
    names = menu.evals(w, op["seed"])
    h = [x for x in names if x[0].startswith(HEAVY)]
    h = h + [x for x in h if x[0] in LONG] * 2
    use = h if (h and op["pick"] < 0.8) else names
    i = int((op["pick"] * 7919) % 1.0 * len(use))
    name, fn, tol = use[i]
    tw = T.world_twin(w)
    tnames = menu.evals(tw, op["seed"])
    tname, tfn, _ = next(x for x in tnames if x[0] == name)
    A0 = T.tensors(tw.s)
    ctx.op(name.split("(")[0].split("[")[0], (op["exc"], op["after"]))
    v0, e0, tr0 = traced(ctx, name + "-twin", tfn, op, None)
    moved = not T.same_bits(A0, T.tensors(tw.s))
    if moved and not name.startswith("calc_B_CG"):
        ctx.check(False, "evaluation-changes-state", "%s, not disturbed, changed the tensors" % name)
    P0, h0, ref0 = T.params(s), T.ham_copy(ham_of(w)), ref_of(w)
    stop = 1 + int(op["frac"] * tr0.n)
    v, e, tr = traced(ctx, name, fn, op, stop)
    what = "%s stopped at line %d of %d %s by %s" % (name, stop, tr0.n, tr.where, op["exc"])
    if not moved:
        ctx.check(T.same_bits(A0, T.tensors(s)), "state-changed", what)
    else:
        compare_ref(w, ref0, 1e-8, "state-changed", what)
    pc = T.params_changed(P0, T.params(s))
    ctx.check(not pc or moved, "parameters-changed", "%s: %s" % (what, pc))
    ctx.check(T.ham_same(h0, ham_of(w)), "hamiltonian-changed", what)
    ctx.probe("interrupted" if e is not None else "completed")
    if e is None and not (name.startswith(("calc_B_CG", "find_min"))):
        # absorbed: the value must be right all the same
        ctx.close(T.flat(v)[0], T.flat(v0)[0], tol, "wrong-after-absorbed", what)
    if not moved:
        v2 = ctx.must(name + "-again", fn, seed=op["seed"])
        ctx.close(T.flat(v2)[0], T.flat(v0)[0], tol, "retry-differs", what)
    if op["after"] != "none":
        f = menu.mutation(w, op["after"], op["seed"])
        if f is None:
            return
        for o in (w, tw):
            ctx.must(op["after"], lambda: (f(o.s), o.s.update()), seed=op["seed"] + 5)
        compare(w, tw, ctx, 1e-6, "later-step-differs", "%s after %s" % (op["after"], what))
        if w.is_tdvp:
            ctx.close(ctx.must("energy", lambda: energy(w.s)), ctx.must("energy", lambda: energy(tw.s)), 1e-6, "later-step-differs", "energy after " + what)
    ctx.log(name, T.flat(v0)[0])


def compare_ref(w, ref, tol, kind, what):
    same_state(w, ref, tol, kind, what)


def energy(s):
    return s.h_expect.real if hasattr(s, "L") else s.H_expect.real


def mutating(w, op):
    ctx, s, k = w.ctx, w.s, op["how"]
    f = menu.mutation(w, k, op["seed"])
    if f is None:
        return
    fin = not hasattr(w, "L")
    ctx.op(k, (op["exc"],))
    A0 = T.tensors(s)
    ref0 = ref_of(w)
    cf0 = getattr(s, "canonical_form", None)
    tw = T.world_twin(w)
    _, e0, tr0 = traced(ctx, k + "-twin", lambda: f(tw.s), op, None)
    ctx.must("update", lambda: tw.s.update())
    if not fin and not tw.good(0.97):
        raise Abandon("ill-conditioned")
    P0, h0 = T.params(s), T.ham_copy(ham_of(w))
    stop = 1 + int(op["frac"] * tr0.n)
    v, e, tr = traced(ctx, k, lambda: f(s), op, stop)
    what = "%s stopped at line %d of %d %s by %s" % (k, stop, tr0.n, tr.where, op["exc"])
    ctx.probe("interrupted" if e is not None else "completed")
    pc = T.params_changed(P0, T.params(s))
    ctx.check(not pc, "parameters-changed", "%s: %s" % (what, pc))
    ctx.check(T.ham_same(h0, ham_of(w)), "hamiltonian-changed", what)
    # put back the tensors held before
    if fin:
        if op["seed"] % 2:
            ctx.must("restore", lambda: s.set_state_from_tensors([None if a is None else a.copy() for a in A0]))
        else:
            for n in range(1, w.N + 1):
                s.A[n] = A0[n].copy()
            ctx.must("restore", lambda: s.update())
    else:
        for n in range(w.L):
            s.A[n] = A0[n].copy()
        ctx.must("restore", lambda: s.update())
    same_state(w, ref0, 1e-8, "not-restored", "restored after " + what)
    rs = op["seed"] ^ 0x1234
    obs = list(w.observations(np.random.RandomState(rs), many=False))
    for o in obs[:6] + obs[-4:]:
        v = ctx.must(o[0], o[1])
        ctx.close(v, o[2], 1e-7 if len(o) < 4 else max(1e-7, o[3]), "observable-after-restore", "%s, restored after %s" % (o[0], what))
    # the same operation again
    ctx.must(k + "-again", lambda: f(s), seed=op["seed"])
    ctx.must("update", lambda: s.update())
    tol = 1e-6
    if k == "sweep":
        ctx.close(energy(s), energy(tw.s), 1e-5, "retry-differs", what)
    elif k == "cg_step":
        compare(w, tw, ctx, 1e-5, "retry-differs", what)
    else:
        compare(w, tw, ctx, tol, "retry-differs", what)
    if w.is_tdvp and op["after"] == "step" and k != "sweep":
        g = menu.mutation(w, "step", op["seed"] + 9)
        for o in (w, tw):
            ctx.must("step", lambda: (g(o.s), o.s.update()), seed=op["seed"] + 5)
        compare(w, tw, ctx, 1e-5, "later-step-differs", "step after the retry of " + what)
    ctx.log(k, w.s.A[1 if fin else 0] * 0 if False else float(np.abs(w.energy())) if w.is_tdvp else 0.0)
