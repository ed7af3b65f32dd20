"""P16: results are independent of solver start vectors, memory garbage and history."""
import copy
import json
import os
import subprocess
import sys

import numpy as np
import numpy.linalg as nla

from .. import finite as F
from .. import menu
from .. import model as M
from .. import sandwich as SD
from .. import seams
from .. import twin as T
from .. import uniform as U
from ..core import Abandon
from . import p09, p13, p15

LOOSE = p13.LOOSE
KINDS = {"F": ["randomize", "noise", "update", "step", "rk4", "dynexp", "split", "sweep", "cg_step", "truncate", "evolve", "eval", "eval", "eval", "eval", "eval"],
         "U": ["randomize", "noise", "expand", "update", "form", "step", "rk4", "dynexp", "cg_step", "im", "evolve", "eval", "eval", "eval", "eval", "eval", "excite"],
         "S": ["update", "step", "rk4", "grow_left", "grow_right", "dynexp", "eval", "eval", "edit"]}
EXPLICIT = ("randomize", "noise", "expand")


def shrink(plan):
    c = plan["config"]
    return (SD.shrink_scfg if "DL" in c else U.shrink_ucfg if "L" in c else F.shrink_cfg)(plan)


def gen(rng, tier, idx):
    kind = rng.choice("FFUUUS")
    if kind == "F":
        cfg = F.gen_cfg(rng, tdvp=True, Nmax=6, Dmax=4, dmax=130)
    elif kind == "U":
        cfg = U.gen_ucfg(rng, tdvp=True, real_ok=False, kinds=("random", "tensors", "product", "biased"), Dmax=5, Lmax=3)
        cfg["sanity"] = False
    else:
        cfg = SD.gen_scfg(rng, tdvp=True, Nmax=5)
    ops = []
    for j in range(rng.randint(2, 5)):
        f = None
        if rng.random() < 0.3:
            st, kd = rng.choice([("eigs", "unlucky"), ("eigs", "unlucky"), ("eigsh", "unlucky"), ("eigs", "noconv"), ("bicgstab", "ignore_x0"), ("bicgstab", "ignore_x0")])
            f = dict(site=st, kind=kd, nth=rng.randint(0, 3), count=rng.randint(1, 2), frac=0.5)
        ops.append(dict(op=rng.choice(KINDS[kind]), seed=rng.randrange(1 << 30), pick=rng.random(), faults=[f] if f else []))
    return dict(config=cfg, ops=ops, cls=kind, garbage=rng.choice(["nan", "noise", "huge", None]),
                variants=dict(garbage=rng.choice(["nan", "noise", "huge", None]), shift=rng.randrange(1, 1 << 28), which=rng.choice(["fresh", "used", "both"])),
                hash=idx % 50 == 7, cpu_limit=240)


class Hist(object):
    """One execution of the plan."""

    def __init__(self, ctx, plan, shift=0, garbage="plan", history=None, faults=False):
        self.ctx, self.plan, self.shift = ctx, plan, shift
        self.history = history
        self.faults = faults
        self.log = []
        S = seams.S
        S.garbage = plan.get("garbage") if garbage == "plan" else garbage
        S.garbage_rng = np.random.RandomState((plan.get("run_seed", 1) + 99 + shift) % (2 ** 32))
        c = plan["config"]
        self.kind = "S" if "DL" in c else "U" if "L" in c else "F"
        self.w = dict(F=F.FW, U=U.UW, S=SD.SW)[self.kind](ctx, c)
        self.o = p13.Obj(ctx, self.kind, self.w)
        if self.kind == "S":
            self.must("update", lambda: self.w.s.update(), 5)
            if p15.well(self.w) < 0.02:
                raise Abandon("ill-conditioned")
        else:
            p09.settle(self.w, dict(seed=11))
        if history in ("used", "both"):
            self.use()
            self.look("start")
        else:
            self.look("start")

    # -- calls: the explicitly random ones get the plan's stream, the others one of their own
    def must(self, name, fn, seed, faults=None):
        sd = seed if name in EXPLICIT else seed + self.shift
        if faults and self.faults:
            v, e = self.ctx.call(name, fn, faults=faults, seed=sd, ret_exc=True)
            if e is None:
                return v
            self.ctx.probe("failed-once")
        return self.ctx.must(name, fn, seed=sd)

    def use(self):
        """Other work with the same object before."""
        w, s = self.w, self.w.s
        rs = np.random.RandomState(77 + self.shift % 1000)
        if self.kind == "F":
            keep = [None if a is None else a.copy() for a in s.A]
            D = [1] + [min(int(d) + rs.randint(0, 2), F.maxD(w.q, n), F.maxD(w.q[::-1], w.N - n)) for n, d in list(enumerate(s.D))[1:w.N]] + [1]
            T_ = F.rand_tensors(rs, w.q, D)
            self.ctx.must("before", lambda: (s.set_state_from_tensors([None] + T_), s.update(), s.calc_B(), s.take_step(0.02), s.update()), seed=3)
            self.ctx.must("before", lambda: (s.set_state_from_tensors(keep, do_update=False), s.update()), seed=4)
        elif self.kind == "U":
            keep = [a.copy() for a in s.A]
            for _ in range(50):
                T_ = U.rand_cell(rs, w.L, w.q, int(s.D))
                if M.Uni(T_).gap < 0.9:
                    break
            w.set_A(T_)
            self.ctx.must("before", lambda: (s.update(), s.calc_B(), s.take_step(0.02), s.update(), s.calc_B()), seed=3)
            w.set_A(keep)
            self.ctx.must("before", lambda: s.update(), seed=4)
        else:
            self.ctx.must("before", lambda: (s.update(), s.calc_B()), seed=3)
            c = copy.deepcopy(s)
            keep = [a.copy() for a in s.A[1:s.N + 1]]
            self.ctx.must("before", lambda: (s.take_step(0.02), s.update()), seed=3)
            for n, a in enumerate(keep):
                s.A[n + 1] = a
            s.uni_l, s.uni_r = c.uni_l, c.uni_r
            s.N_centre = c.N_centre
            s.D = c.D
            self.ctx.must("before", lambda: s.update(), seed=4)

    def fresh(self):
        """The same state in a new object."""
        w, s = self.w, self.w.s
        if self.kind == "F":
            from evoMPS.tdvp_gen import EvoMPS_TDVP_Generic
            n = self.ctx.must("new", lambda: EvoMPS_TDVP_Generic(s.N, np.array(s.D[:s.N + 1]), np.array(s.q[:s.N + 1]), s.ham, ham_sites=s.ham_sites), seed=self.shift)
            n.gauge_fixing, n.canonical_form = s.gauge_fixing, s.canonical_form
            self.ctx.must("set", lambda: n.set_state_from_tensors([None if a is None else a.copy() for a in s.A], do_update=False), seed=1)
        elif self.kind == "U":
            from evoMPS.tdvp_uniform import EvoMPS_TDVP_Uniform
            n = self.ctx.must("new", lambda: EvoMPS_TDVP_Uniform(int(s.D), s.q, s.ham, ham_sites=s.ham_sites, L=s.L, do_update=False), seed=self.shift)
            for a in ("ev_brute", "ev_use_arpack", "symm_gauge", "ham_tp"):
                setattr(n, a, getattr(s, a))
            for k in range(s.L):
                n.A[k][:] = s.A[k]
        else:
            return
        self.w.s = n
        self.ctx.must("update", lambda: n.update(), seed=self.shift + 1)

    def conditioned(self):
        w = self.w
        if self.kind == "S":
            return p15.well(w) > 5e-3
        if self.kind == "U":
            return w.good(0.97) and w.min_schmidt() > 2e-3
        return 1e-6 < nla.norm(w.psi().ravel()) < 1e8 and w.min_schmidt() > 2e-3

    def look(self, what):
        if not self.conditioned():
            raise Abandon("ill-conditioned")
        s = self.w.s
        D = [int(s.D)] if self.kind == "U" else [int(d) for d in s.D[:s.N + 1]]
        self.log.append((what + ": bond dimensions", D, None))
        self.log.append((what + ": state", np.concatenate([np.ravel(x) for x in self.o.physical()]), 1e-6))
        E = s.h_expect if self.kind == "U" else s.H_expect if self.kind == "F" else s.dH_expect
        self.log.append((what + ": energy", np.atleast_1d(np.asarray(E, dtype=complex)), 1e-6))

    def run(self):
        for op in self.plan["ops"]:
            if self.history in ("fresh", "both"):
                self.fresh()
            self.step(op)
        return self.log

    def step(self, op):
        w, s, k, seed = self.w, self.w.s, op["op"], op["seed"]
        rs = np.random.RandomState(seed)
        flt = op["faults"]
        if k == "eval":
            return self.evaluate(op)
        if k == "excite":
            if w.L > 1 or w.sites != 2 or not 4 <= (w.q - 1) * s.D ** 2 <= 16 or w.hcfg["callable"]:
                return
            p = rs.uniform(-3, 3)
            dim = (w.q - 1) * s.D ** 2
            if rs.rand() < 0.4 or dim < 9:
                v = self.must("excite", lambda: np.sort(np.real(s.excite_top_triv_brute(p)))[:2], seed, flt)
            else:
                def it():
                    r = s.excite_top_triv(p, nev=2)
                    return np.sort(np.real(r[0] if isinstance(r, tuple) else r))
                v = self.must("excite", it, seed, flt)
            self.log.append(("excitations", np.asarray(v), 1e-6))
            return
        if k == "randomize":
            self.must("randomize", lambda: s.randomize() if self.kind == "U" else s.randomize(), seed)
        elif k == "noise":
            # (noise acts on the tensors as they are, whose gauge may differ)
            if self.history or self.shift or self.faults:
                pass
            fac = 0.05
            before = T.tensors(s)
            self.must("noise", lambda: s.add_noise(fac, do_update=False), seed)
            d = np.concatenate([np.ravel(a - b) for a, b in zip(s.A, before) if a is not None])
            self.log.append(("noise", d, 1e-12))
            if self.kind == "U":
                w.set_A(before)
            else:
                for n in range(1, w.N + 1):
                    s.A[n][:] = before[n]
        elif k == "expand":
            if self.kind != "U" or s.D >= 6:
                return
            D0, before = int(s.D), T.tensors(s)
            c = copy.deepcopy(s)
            self.must("expand", lambda: c.expand_D(D0 + 1, refac=0.1, imfac=0.1), seed)
            self.log.append(("expanded", np.concatenate([np.ravel(a[:, D0:, :]) for a in c.A]), None if True else 1e-12))
            return
        elif k == "update":
            self.must("update", lambda: s.update(), seed, flt)
        elif k == "truncate":
            D = np.array(s.D[:w.N + 1])
            sv = [np.sort(np.sqrt(np.maximum(0, np.real(np.asarray(s.schmidt_sq(n))))))[::-1] for n in range(1, w.N)]
            new = D.copy()
            for n in range(1, w.N):
                if D[n] > 1 and rs.rand() < 0.4 and len(sv[n - 1]) == D[n] and sv[n - 1][-2] > 1.5 * sv[n - 1][-1]:
                    new[n] = D[n] - 1
            if np.any(new[1:] > new[:-1] * np.array([int(x) for x in w.q])) or np.any(new[:-1] > new[1:] * np.array([int(x) for x in w.q])):
                return
            self.must("truncate", lambda: s.truncate(new), seed, flt)
        elif k == "dynexp":
            if w.sites == 3 or (self.kind == "S" and max(s.D) > 5):
                return
            before = self.dims()
            self.must("dynexp", lambda: s.take_step(0.02, dynexp=True, D_max=max(before) + 1, dD_max=1, sv_tol=1e-4), seed)
        elif k == "im":
            from evoMPS.dynamics import opt_im_time
            self.must("im", lambda: opt_im_time(s, tol=1e-12, dtau_base=0.01, max_itr=4, auto_dtau=False), seed)
        elif k == "evolve":
            from evoMPS.dynamics import evolve
            self.must("evolve", lambda: evolve(s, 0.06, dt=0.02, integ="rk4" if rs.rand() < 0.5 else "euler", dynexp=False), seed)
        elif k in ("grow_left", "grow_right"):
            if s.N > 7 or w.hcfg["callable"]:
                return
            self.must(k, lambda: s.grow_left(s.uni_l.L) if k == "grow_left" else s.grow_right(s.uni_r.L), seed)
        elif k == "edit":
            n = rs.randint(1, s.N + 1)
            s.A[n] = np.tensordot(np.eye(w.q) + 0.3 * F.rmat(rs, w.q), s.A[n], axes=(1, 0)).copy()
        elif self.kind == "S":
            dt = 0.01 * rs.choice([1.0, 1j])
            self.must(k, lambda: s.take_step(dt) if k == "step" else s.take_step_RK4(dt), seed)
        else:
            f = menu.mutation(w, k, seed)
            if f is None:
                return
            self.must(k, lambda: f(s), seed)
        self.must("update", lambda: s.update(), seed + 1, flt)
        self.ctx.simtime += 0.02
        self.look(k)

    def dims(self):
        s = self.w.s
        return [int(s.D)] if self.kind == "U" else [int(d) for d in s.D[:s.N + 1]]

    def evaluate(self, op):
        w, s, seed = self.w, self.w.s, op["seed"]
        rs = np.random.RandomState(seed)
        if self.kind == "S":
            n = rs.randint(1, s.N + 1)
            o1 = F.herm(rs, w.q)
            evs = [("expect_1s", lambda: s.expect_1s(o1, n), 1e-7), ("schmidt", lambda: np.array(s.schmidt_sq(n)).real, 1e-7),
                   ("density", lambda: s.density_1s(n), 1e-7), ("eta", lambda: (s.calc_B(), complex(s.eta))[1], 1e-5)]
        else:
            evs = [e for e in menu.evals(w, seed) if not e[0].startswith(LOOSE)]
            if w.is_tdvp:
                evs += [("eta", lambda: (s.calc_B(), np.sqrt(abs(complex(np.sum(s.eta_sq)))))[1], 1e-5)] * 3
        name, fn, tol = evs[int(op["pick"] * len(evs))]
        v = self.must(name, fn, seed, op["faults"])
        x = T.flat(v)[0]
        if name.startswith("inner"):        # (the phase of a state is arbitrary)
            x = np.abs(x)
        self.log.append((name, x, max(tol, 1e-6)))


def bits(log):
    return [(n, np.asarray(v).tobytes()) for n, v, _ in log]


def execute(plan, ctx):
    ctx.op(plan["cls"], (plan["garbage"], plan["variants"]["garbage"], plan["variants"]["which"]))
    base = Hist(ctx, plan).run()
    for op in plan["ops"]:
        ctx.op(op["op"], (plan["cls"],))
    ctx.log("base", *[np.asarray(v, dtype=complex) for _, v, _ in base])
    again = Hist(ctx, plan).run()
    ctx.check(bits(base) == bits(again), "not-reproducible", lambda: "the same execution gives other bits: %s" % first(base, again))
    ctx.probe("repeated")
    v = plan["variants"]
    sh = v["shift"]
    for name, kw in (("memory contents", dict(garbage=v["garbage"])), ("start vectors", dict(shift=sh)),
                     ("history (%s)" % v["which"], dict(history=v["which"], shift=sh)),
                     ("unlucky solvers", dict(faults=True, shift=sh))):
        if name == "unlucky solvers" and not any(op["faults"] for op in plan["ops"]):
            continue
        log = Hist(ctx, plan, **kw).run()
        same(ctx, base, log, name)
        ctx.probe(name.split(" ")[0])
    if plan.get("hash"):
        hashes(plan, ctx, base)


def first(a, b):
    for (n, x, _), (m, y, _) in zip(a, b):
        if n != m or np.asarray(x).tobytes() != np.asarray(y).tobytes():
            return n
    return "length %d, %d" % (len(a), len(b))


def same(ctx, base, log, what):
    if [n for n, _, _ in base] != [n for n, _, _ in log]:
        # (a choice within rounding errors)
        ctx.check(len(base) == len(log), "depends-on", "%s: other results" % what)
    kind = "depends-on-" + what.split(" ")[0]
    for (n, x, tol), (m, y, _) in zip(base, log):
        if tol is None:
            if n.endswith("bond dimensions"):
                if x != y and n.startswith("dynexp"):
                    raise Abandon("expansion within rounding errors")
                ctx.check(x == y, kind, "%s: %s, with other %s %s" % (n, x, what, y))
            continue
        ctx.check(np.shape(x) == np.shape(y), kind, "%s: shape %s, with other %s %s" % (n, np.shape(x), what, np.shape(y)))
        ctx.close(y, x, tol, kind, "%s with other %s" % (n, what))


def hashes(plan, ctx, base):
    """The same execution under two other hash seeds, in processes of their own."""
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    outs = []
    for h in ("1", "4242"):
        env = dict(os.environ, PYTHONHASHSEED=h)
        p = subprocess.run([sys.executable, "-m", "sim.props.p16", json.dumps({k: v for k, v in plan.items() if k != "hash"})], cwd=here, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
        lines = [l for l in p.stdout.decode().splitlines() if l.startswith("RESULT ")]
        ctx.check(p.returncode == 0 and len(lines) == 1, "hash-seed", lambda: "execution failed under hash seed %s: %s" % (h, p.stderr.decode()[-300:]))
        outs.append(lines[0])
    ctx.check(outs[0] == outs[1], "hash-seed", "results differ between hash seeds")
    ctx.probe("hash-seed")


def main():
    import hashlib
    import random
    import warnings
    from .. import core, runner
    warnings.simplefilter("ignore")
    plan = json.loads(sys.argv[1])
    runner.load_prop("P16")
    S = seams.S
    S.reset()
    np.random.seed(plan["run_seed"] % 2 ** 32)
    random.seed(plan["run_seed"])
    S.start_rng = np.random.RandomState(1)
    ctx = core.Ctx("P16", plan)
    h = hashlib.md5()
    for n, b in bits(Hist(ctx, plan).run()):
        h.update(n.encode() + b)
    print("RESULT " + h.hexdigest())


if __name__ == "__main__":
    main()
