"""P14: observing, in any number and order, changes neither the state nor anything computed later."""
import numpy as np

from .. import finite as F
from .. import menu
from .. import twin as T
from .. import uniform as U
from ..core import Abandon
from . import p01, p05, p09

FE, UE = p09.FE, p09.UE
shrink = p09.shrink


def gen(rng, tier, idx):
    fin = rng.random() < 0.5
    if fin:
        cfg = F.gen_cfg(rng, tdvp=rng.random() < 0.92, Nmax=6, Dmax=4, dmax=150)
    else:
        cfg = U.gen_ucfg(rng, tdvp=rng.random() < 0.93, real_ok=False, kinds=("random", "tensors", "product"), Dmax=5, Lmax=3)
    ops = []
    for _ in range(rng.randint(2, 4)):
        if rng.random() < 0.3:
            ops.append(dict(op="edit", how=rng.choice(FE if fin else UE), seed=rng.randrange(1 << 30)))
        ops.append(dict(op="watch", seed=rng.randrange(1 << 30), n=rng.randint(2, 7), twice=rng.random() < 0.5, heavy=rng.random() < 0.6,
                        how=rng.choice((menu.FIN_MUTS if fin else menu.UNI_MUTS)), nsteps=rng.randint(1, 3)))
    return dict(config=cfg, ops=ops, cls=("F" if fin else "U") + (F.cfg_class(cfg) if fin else U.ucfg_class(cfg)),
                garbage=rng.choice(["nan", "nan", "noise", None]))


def execute(plan, ctx):
    fin = "L" not in plan["config"]
    w = F.FW(ctx, plan["config"]) if fin else U.UW(ctx, plan["config"])
    st = dict(fresh=False, canon=False)
    for op in plan["ops"]:
        rs = np.random.RandomState(op["seed"])
        if op["op"] == "edit":
            if fin:
                psi = w.psi()
                n0 = np.linalg.norm(psi.ravel())
                if not 1e-6 < n0 < 1e8:
                    raise Abandon("norm")
                p01.do_edit(w, dict(op, op=op["how"]), rs, psi, n0)
            else:
                p05.edit(w, dict(op, op=op["how"]), rs, st)
            continue
        p09.settle(w, op)
        watch(w, op, rs, fin)


def watch(w, op, rs, fin):
    ctx, s = w.ctx, w.s
    tw = T.world_twin(w)
    A0, P0, h0 = T.tensors(s), T.params(s), T.ham_copy(p09.ham_of(w))
    names = menu.evals(w, op["seed"])
    tn = {}
    for x in menu.evals(tw, op["seed"]):
        tn.setdefault(x[0], x)
    heavy = [x for x in names if x[0].startswith(p09.HEAVY)]
    moved = False
    done = []
    for j in range(op["n"]):
        use = heavy if (heavy and op["heavy"] and rs.rand() < 0.7) else names
        name, fn, tol = use[rs.randint(len(use))]
        if name.startswith("save") and rs.rand() < 0.5:
            continue
        ctx.op(name.split("(")[0].split("[")[0])
        sd = op["seed"] + j
        v = ctx.must(name, fn, seed=sd)
        if op["twice"] and not moved:
            v2 = ctx.must(name + "-again", fn, seed=sd + 50)
            ctx.close(T.flat(v2)[0], T.flat(v)[0], tol, "repeat-differs", "%s evaluated twice (after %s)" % (name, done))
        one = T.world_twin(tw)
        vt = dict((x[0], x) for x in menu.evals(one, op["seed"]))[name]
        ctx.close(T.flat(v)[0], T.flat(ctx.must(name + "-twin", vt[1], seed=sd))[0], tol, "observation-depends-on-earlier",
                  "%s after %s" % (name, done))
        same = T.same_bits(A0, T.tensors(s))
        if not same and name.startswith("calc_B_CG") and not fin:
            moved = True        # (a search that resets restores the canonical form: same state, checked below)
            A0 = T.tensors(s)
            break
        ctx.check(same, "observation-changes-state", "%s changed the tensors" % name)
        pc = T.params_changed(P0, T.params(s))
        ctx.check(not pc, "parameters-changed", "%s: %s" % (name, pc))
        ctx.check(T.ham_same(h0, p09.ham_of(w)), "hamiltonian-changed", name)
        done.append(name.split("(")[0])
    p09.compare(w, tw, ctx, 1e-8, "observation-changes-state", "after %s" % done)
    # later operations do not know that somebody looked
    f = menu.mutation(w, op["how"], op["seed"])
    if f is None:
        f = menu.mutation(w, "update", op["seed"])
    g = menu.mutation(tw, op["how"], op["seed"]) or menu.mutation(tw, "update", op["seed"])
    ctx.op(op["how"])
    tol = 1e-5 if op["how"] in ("cg_step",) else 1e-6
    for i in range(op["nsteps"]):
        ctx.must(op["how"], lambda: f(s), seed=op["seed"] + 77 + i)
        ctx.must(op["how"], lambda: g(tw.s), seed=op["seed"] + 77 + i)
        for o in (w, tw):
            ctx.must("update", lambda: o.s.update())
        if not fin and not w.good(0.97) or w.min_schmidt() < 3e-3:
            return
        if i + 1 < op["nsteps"]:
            n, fn, t = names[rs.randint(len(names))]
            try:
                fn2 = [x for x in menu.evals(w, op["seed"], light=True) if x[0] == n][0][1]
            except IndexError:
                continue
            ctx.must(n, fn2)
    if op["how"] == "sweep" and w.is_tdvp:
        ctx.close(p09.energy(s), p09.energy(tw.s), 1e-5, "later-step-differs", "%s after %s" % (op["how"], done))
    else:
        p09.compare(w, tw, ctx, tol, "later-step-differs", "%s after %s" % (op["how"], done))
    if w.is_tdvp:
        ctx.close(p09.energy(s), p09.energy(tw.s), 10 * tol, "later-step-differs", "energy of %s after %s" % (op["how"], done))
        ctx.log("E", complex(tw.energy()).real)
