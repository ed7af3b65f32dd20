"""P13: independent state objects never influence each other."""
import copy
import hashlib
import io

import numpy as np
import numpy.linalg as nla

from .. import finite as F
from .. import menu
from .. import model as M
from .. import sandwich as SD
from .. import twin as T
from .. import uniform as U
from ..core import Abandon
from . import p09, p15

HOWS = {"F": ["clone", "tensors", "file", "shared", "tensors", "clone"],
        "U": ["clone", "tensors", "from_mps", "from_mps", "export", "file", "shared", "sandwich", "sandwich", "plain"],
        "S": ["clone", "file", "tensors", "shared"]}
LOOSE = ("calc_B", "B_overlap", "tangent", "line_search", "export", "save", "find_min")


def shrink(plan):
    c = plan["config"]
    for i in range(len(c["roots"])):
        if len(c["roots"]) > 1:
            q = copy.deepcopy(plan)
            q["config"]["roots"].pop(i)
            yield q


def gen(rng, tier, idx):
    roots = []
    for kind in rng.choice(["F", "U", "S", "FF", "UU", "UU", "US", "FU"]):
        if kind == "F":
            c = F.gen_cfg(rng, tdvp=True, Nmax=5, Dmax=4, dmax=80)
        elif kind == "U":
            c = U.gen_ucfg(rng, tdvp=True, real_ok=False, kinds=("random", "tensors", "product"), Dmax=4, Lmax=2)
            c["sanity"] = False
        else:
            c = SD.gen_scfg(rng, tdvp=True, Nmax=4)
        roots.append(dict(kind=kind, cfg=c))
    ops = []
    n = rng.randint(4, 9)
    for j in range(n):
        k = rng.choice(["derive", "derive", "derive", "mutate", "mutate", "mutate", "eval", "eval", "pair", "scribble"])
        if j == 0:
            k = "derive"
        f = None
        if rng.random() < 0.15:
            st, kd = rng.choice([("eigs", "noconv"), ("eigs", "unlucky"), ("bicgstab", "status_garbage"), ("bicgstab", "status_partial"), ("eigh", "fail"),
                                 ("cholesky", "fail"), ("eigsh", "noconv"), ("svd", "fail")])
            f = dict(site=st, kind=kd, nth=rng.randint(0, 3), count=1, frac=0.5)
        ops.append(dict(op=k, id=j, pick=rng.random(), other=rng.random(), how=rng.random(), seed=rng.randrange(1 << 30), faults=[f] if f else []))
    return dict(config=dict(roots=roots), ops=ops, cls="+".join(r["kind"] for r in roots), garbage=rng.choice(["nan", "nan", "noise", "huge", None]))


# ------------------------------------------------------------------------------------------------ the script
def resolve(plan):
    """Who does what, from the plan alone: [(op, number of the object, kind, what, number of another object or None)]."""
    live = [(i, r["kind"]) for i, r in enumerate(plan["config"]["roots"])]
    nxt = 1000
    out = []
    for op in plan["ops"]:
        i, kind = live[int(op["pick"] * len(live))]
        same = [x for x, kd in live if kd == kind and x != i]
        j = same[int(op["other"] * len(same))] if same else None
        what = None
        if op["op"] == "derive":
            hows = HOWS[kind]
            what = hows[int(op["how"] * len(hows))]
            j = 1000 + op["id"]
            live.append((j, "S" if what == "sandwich" else kind))
            if len(live) > 6:
                live.pop()
                what = "none"
        elif op["op"] == "mutate":
            m = dict(F=menu.FIN_MUTS, U=menu.UNI_MUTS, S=["update", "update", "step", "rk4", "grow_left", "grow_right", "dynexp"])[kind]
            what = m[int(op["how"] * len(m))]
        out.append((op, i, kind, what, j))
    return out


def lineage(script, x):
    """The operations that make up the life of object x."""
    keep = []
    cur = x
    for item in reversed(script):
        op, i, kind, what, j = item
        if op["op"] == "derive" and what != "none" and j == cur:
            keep.append(item)
            cur = i
        elif op["op"] in ("mutate", "eval") and i == cur:
            keep.append(item)
    return list(reversed(keep)), cur


# ------------------------------------------------------------------------------------------------ objects
class Obj(object):
    def __init__(self, ctx, kind, w):
        self.ctx, self.kind, self.w = ctx, kind, w
        self.log = []

    @property
    def s(self):
        return self.w.s

    def with_state(self, s):
        w = copy.copy(self.w)
        w.s = s
        return Obj(self.ctx, self.kind, w)

    def tensors(self):
        return [np.array(a) for a in (self.w.A())]

    def physical(self):
        w = self.w
        if self.kind == "F":
            psi = w.psi()
            n = nla.norm(psi.ravel())
            if not 1e-8 < n < 1e10:
                raise Abandon("ill-conditioned")
            psi = psi.ravel() / n
            return [M_rdm(psi.reshape(w.q), b) for b in range(w.N - 1)]
        if self.kind == "U":
            if not w.good(0.985):
                raise Abandon("ill-conditioned")
            return w.uni().rdms() if hasattr(w.uni(), "rdms") else w.rdms()
        sd = SW_sand(w)
        return sd.rdms()

    def usable(self):
        w = self.w
        if self.kind == "F":
            return w.min_schmidt() > 1e-3
        if self.kind == "U":
            return w.good(0.97) and w.min_schmidt() > 1e-3
        return p15.well(w) > 5e-3


def SW_sand(w):
    s = w.s
    return SD.Sand([np.array(a) for a in s.uni_l.A], [np.array(s.A[n]) for n in range(1, s.N + 1)], [np.array(a) for a in s.uni_r.A])


def M_rdm(psi, b):
    """Density matrix of sites b and b+1 (from 0)."""
    q = psi.shape
    x = psi.reshape(int(np.prod(q[:b])), q[b] * q[b + 1], -1)
    return np.einsum('xay,xby->ab', x, x.conj())


def digest(x, h=None, seen=None):
    """Everything an object holds."""
    top = h is None
    if top:
        h, seen = hashlib.md5(), set()
    if isinstance(x, np.ndarray):
        h.update(str((x.shape, x.dtype.str)).encode())
        h.update(np.ascontiguousarray(x).tobytes() if x.dtype != object else b"")
        if x.dtype == object:
            for y in x.ravel():
                digest(y, h, seen)
    elif isinstance(x, (list, tuple)):
        h.update(b"[%d" % len(x))
        for y in x:
            digest(y, h, seen)
    elif isinstance(x, dict):
        for k in sorted(x, key=str):
            h.update(str(k).encode())
            digest(x[k], h, seen)
    elif isinstance(x, (bool, int, float, complex, str, bytes, type(None), np.generic)):
        h.update(repr(x).encode())
    elif hasattr(x, "__dict__"):
        if id(x) in seen:
            return None
        seen.add(id(x))
        h.update(type(x).__name__.encode())
        digest(vars(x), h, seen)
    return h.hexdigest() if top else None


class Pop(object):
    """A population of objects."""

    def __init__(self, ctx, plan, roots):
        self.ctx, self.plan = ctx, plan
        self.o = {}
        self.given = []            # arrays supplied by the caller, with a copy
        for i in roots:
            r = plan["config"]["roots"][i]
            cls = dict(F=F.FW, U=U.UW, S=SD.SW)[r["kind"]]
            w = cls(ctx, r["cfg"])
            o = Obj(ctx, r["kind"], w)
            if r["kind"] == "S":
                ctx.must("update", lambda: w.s.update(), seed=i)
                if p15.well(w) < 0.02:
                    raise Abandon("ill-conditioned")
            else:
                p09.settle(w, dict(seed=i + 17))
            self.o[i] = o
            ham = getattr(w.s, "ham", None)
            self.give(ham)

    def give(self, a):
        if isinstance(a, np.ndarray):
            self.given.append((a, a.copy()))
        elif isinstance(a, (list, tuple)):
            for x in a:
                self.give(x)

    def check_given(self, what):
        for a, c in self.given:
            self.ctx.check(a.shape == c.shape and np.array_equal(a, c), "caller-array", "%s changed an array of the caller (shape %s)" % (what, c.shape))

    def snap(self, but=()):
        return {i: digest(o.s) for i, o in self.o.items() if i not in but}

    def compare(self, before, what):
        for i, d in before.items():
            self.ctx.check(digest(self.o[i].s) == d, "other-object-changed", "%s changed object %s (%s)%s" % (what, i, self.o[i].kind, self.where(i)))

    def where(self, i):
        return ""


def execute(plan, ctx):
    script = resolve(plan)
    pop = Pop(ctx, plan, range(len(plan["config"]["roots"])))
    for item in script:
        op, i, kind, what, j = item
        if op["op"] == "derive" and what == "none":
            continue
        ctx.op(op["op"], (kind, what, bool(op["faults"])))
        name = "%s %s of object %s (%s)" % (op["op"], what, i, kind)
        but = (i,) if op["op"] in ("mutate", "eval") else ((i, j) if op["op"] == "pair" else ())
        before = pop.snap(but)
        act(pop, item, True)
        pop.compare(before, name)
        pop.check_given(name)
        for k in (i, j):
            if k in pop.o and not pop.o[k].usable():
                raise Abandon("ill-conditioned")
    # each of them alone
    for x in list(pop.o):
        own, root = lineage(script, x)
        alone = Pop(ctx, plan, [root])
        for item in own:
            act(alone, item, False)
        a, b = pop.o[x].log, alone.o[x].log
        ctx.check(len(a) == len(b), "alone", "object %s: %d results, alone %d" % (x, len(a), len(b)))
        for (na, va, tol), (nb, vb, _) in zip(a, b):
            ctx.check(np.shape(va) == np.shape(vb), "alone", "object %s, %s: another shape than alone" % (x, na))
            ctx.close(va, vb, tol, "alone", "object %s (%s): %s differs from that alone" % (x, pop.o[x].kind, na))
        A, B = pop.o[x].physical(), alone.o[x].physical()
        ctx.check(len(A) == len(B), "alone", "object %s: another size" % x)
        for p, q in zip(A, B):
            ctx.close(p, q, 1e-6, "alone", "object %s (%s): state differs from that alone" % (x, pop.o[x].kind))
        ctx.probe("alone")
        ctx.probe("alone-%d" % min(len(own), 5))


def act(pop, item, full):
    op, i, kind, what, j = item
    o = pop.o[i]
    if op["op"] == "derive":
        n = derive(pop, o, what, op)
        if n is None:
            raise Abandon("not possible")
        n.log = list(o.log) if what not in ("shared",) else []
        pop.o[j] = n
        if not n.usable():
            raise Abandon("ill-conditioned")
    elif op["op"] == "mutate":
        mutate(pop, o, what, op)
    elif op["op"] == "eval":
        evaluate(pop, o, op)
    elif full:
        globals()["do_" + op["op"]](pop, o, j, op)


# ------------------------------------------------------------------------------------------------ derivations
def routed(o, s):
    """Solver settings as in the original."""
    for a in ("ev_brute", "ev_use_arpack", "symm_gauge", "gauge_fixing"):
        if hasattr(o.s, a) and hasattr(s, a):
            setattr(s, a, getattr(o.s, a))
    return s


def derive(pop, o, what, op):
    from evoMPS.mps_uniform import EvoMPS_MPS_Uniform
    from evoMPS.tdvp_uniform import EvoMPS_TDVP_Uniform
    from evoMPS.tdvp_gen import EvoMPS_TDVP_Generic
    from evoMPS.mps_sandwich import EvoMPS_MPS_Sandwich
    from evoMPS.tdvp_sandwich import EvoMPS_TDVP_Sandwich
    ctx, s, w, seed = o.ctx, o.s, o.w, op["seed"]
    rs = np.random.RandomState(seed)
    ref = o.physical()
    same = True
    if what == "clone":
        return o.with_state(ctx.must("deepcopy", lambda: copy.deepcopy(s)))
    if o.kind == "F":
        N = w.N
        if what == "shared":
            D = np.array(s.D[:N + 1])
            n = ctx.must("new", lambda: EvoMPS_TDVP_Generic(N, D.copy(), np.array(s.q[:N + 1]).copy(), s.ham, ham_sites=s.ham_sites), seed=seed)
            same = False
        else:
            D, q = np.array(s.D[:N + 1]), np.array(s.q[:N + 1])
            pop.give([D, q])
            n = ctx.must("new", lambda: EvoMPS_TDVP_Generic(N, D, q, s.ham, ham_sites=s.ham_sites), seed=seed)
            if what == "file":
                f = io.BytesIO()
                ctx.must("save_state", lambda: s.save_state(f))
                f.seek(0)
                ctx.must("load_state", lambda: n.load_state(f), seed=seed)
            else:
                # as they are, or copies which the caller keeps
                As = s.A if rs.rand() < 0.5 else [None if a is None else a.copy() for a in s.A]
                if As is not s.A:
                    pop.give(As)
                ctx.must("set_state_from_tensors", lambda: n.set_state_from_tensors(As), seed=seed)
        routed(o, n)
        ctx.must("update", lambda: n.update(), seed=seed)
    elif o.kind == "U":
        if what == "sandwich":
            return embed(pop, o, op, rs)
        if what == "shared":
            n = ctx.must("new", lambda: EvoMPS_TDVP_Uniform(s.D, s.q, s.ham, ham_sites=s.ham_sites, L=s.L, do_update=False), seed=seed)
            same = False
        elif what == "tensors":
            As = s.A if rs.rand() < 0.5 else [a.copy() for a in s.A]
            if As is not s.A:
                pop.give(As)
            n = ctx.must("from_tensors", lambda: EvoMPS_TDVP_Uniform.from_tensors(As, s.ham, ham_sites=s.ham_sites), seed=seed)
        elif what == "from_mps":
            n = ctx.must("from_mps", lambda: EvoMPS_TDVP_Uniform.from_mps(s, s.ham, ham_sites=s.ham_sites), seed=seed)
        elif what == "plain":
            m = ctx.must("from_tensors", lambda: EvoMPS_MPS_Uniform.from_tensors(s.A), seed=seed)
            routed(o, m)
            if rs.rand() < 0.5:
                ctx.must("update", lambda: m.update(), seed=seed)
            n = ctx.must("from_mps", lambda: EvoMPS_TDVP_Uniform.from_mps(m, s.ham, ham_sites=s.ham_sites), seed=seed)
        else:
            n = ctx.must("new", lambda: EvoMPS_TDVP_Uniform(s.D, s.q, s.ham, ham_sites=s.ham_sites, L=s.L, do_update=False), seed=seed)
            if what == "export":
                e = ctx.must("export_state", lambda: s.export_state())
                ctx.must("import_state", lambda: n.import_state(e), seed=seed)
            else:
                f = io.BytesIO()
                ctx.must("save_state", lambda: s.save_state(f))
                f.seek(0)
                ctx.must("load_state", lambda: n.load_state(f), seed=seed)
        routed(o, n)
        if getattr(s, "ham_tp", None) is not None:
            n.ham_tp = s.ham_tp
        if what == "shared":
            for _ in range(30):
                T_ = U.rand_cell(rs, s.L, s.q, s.D)
                if M.Uni(T_).gap < 0.9:
                    break
            for k in range(s.L):
                n.A[k][:] = T_[k]
        ctx.must("update", lambda: n.update(), seed=seed)
    else:
        if what == "file":
            n = copy.deepcopy(s)
            f = io.BytesIO()
            ctx.must("save_state", lambda: s.save_state(f))
            f.seek(0)
            ctx.must("load_state", lambda: n.load_state(f), seed=seed)
        elif what == "tensors" and not w.hcfg["callable"]:
            AL, AC, AR = [a for a in s.uni_l.A], [s.A[n] for n in range(1, s.N + 1)], [a for a in s.uni_r.A]
            if rs.rand() < 0.5:
                AL, AC, AR = [a.copy() for a in AL], [a.copy() for a in AC], [a.copy() for a in AR]
                pop.give([AL, AC, AR])
            m = ctx.must("from_tensors", lambda: EvoMPS_MPS_Sandwich.from_tensors(AL, AC, AR), seed=seed)
            n = ctx.must("from_mps", lambda: EvoMPS_TDVP_Sandwich.from_mps(m, s.uni_l.ham, s.ham, s.uni_r.ham, ham_sites=s.ham_sites), seed=seed)
            for a, b in ((s.uni_l, n.uni_l), (s.uni_r, n.uni_r)):
                b.ev_brute, b.ev_use_arpack = a.ev_brute, a.ev_use_arpack
        else:
            if s.uni_l.D != s.uni_r.D:
                return None
            n = ctx.must("new", lambda: EvoMPS_TDVP_Sandwich(s.N, s.uni_l, s.uni_r), seed=seed)
            if not w.hcfg["callable"]:
                n.ham = s.ham
            same = False
        ctx.must("update", lambda: n.update(), seed=seed)
    out = o.with_state(n)
    if same:
        got = out.physical()
        o.ctx.check(len(got) == len(ref), "derived-state", what)
        for a, b in zip(got, ref):
            o.ctx.close(a, b, 1e-7, "derived-state", "%s of %s" % (what, o.kind))
    return out


def embed(pop, o, op, rs):
    """A window in the infinite state."""
    from evoMPS.tdvp_sandwich import EvoMPS_TDVP_Sandwich
    ctx, s, w = o.ctx, o.s, o.w
    if w.hcfg["callable"] or w.hcfg.get("tp"):
        return None
    N = s.L * rs.randint(2, 4)
    two = rs.rand() < 0.4
    n = ctx.must("sandwich", lambda: EvoMPS_TDVP_Sandwich(N, s, uni_right=s if two else None, update_bulks=bool(rs.rand() < 0.7)), seed=op["seed"])
    for j in range(1, N + 1):
        # (the same whatever the gauge of the bulk tensors)
        n.A[j] = np.tensordot(np.eye(s.q) + 0.5 * F.rmat(rs, s.q), n.A[j], axes=(1, 0)).copy()
    ctx.must("update", lambda: n.update(), seed=op["seed"])
    sw = SD.SW.__new__(SD.SW)
    sw.ctx, sw.q, sw.k, sw.sites, sw.is_tdvp = ctx, s.q, w.sites, w.sites, True
    sw.cfg = dict(kind="window", cls="tdvp", ham=dict(w.hcfg, right="same", window="same"), N=N, L=s.L, LR=s.L, DL=s.D, DR=s.D)
    sw.hcfg = sw.cfg["ham"]
    sw.s = n
    return Obj(ctx, "S", sw)


# ------------------------------------------------------------------------------------------------ work on one object
def mutate(pop, o, what, op):
    ctx, s, w, seed = o.ctx, o.s, o.w, op["seed"]
    rs = np.random.RandomState(seed)
    if o.kind == "S":
        dt = 0.01 * rs.choice([1.0, 1j])
        if what in ("grow_left", "grow_right"):
            if s.N > 8 or w.hcfg["callable"]:
                what = "update"
        if what == "dynexp" and (w.sites == 3 or max(s.D) > 5):
            what = "step"
        f = dict(update=lambda s: s.update(), step=lambda s: s.take_step(dt), rk4=lambda s: s.take_step_RK4(dt),
                 grow_left=lambda s: s.grow_left(s.uni_l.L), grow_right=lambda s: s.grow_right(s.uni_r.L),
                 dynexp=lambda s: s.take_step(dt, dynexp=True, dD_max=1, D_max=6, sv_tol=1e-6))[what]
    else:
        f = menu.mutation(w, what, seed)
        if f is None:
            return
    if what == "step_B" or (what == "step" and rs.rand() < 0.3 and w.is_tdvp):
        B = ctx.must("calc_B", lambda: s.calc_B(), seed=seed)
        keep = [None if b is None else b.copy() for b in B]
        ctx.must("take_step", lambda: s.take_step(0.01, B=B), seed=seed)
        ctx.check(T.same_bits(list(B), keep), "caller-array", "take_step changed the tangent vector supplied (%s)" % o.kind)
        ctx.must("update", lambda: s.update(), seed=seed)
    else:
        v, e = ctx.call(what, lambda: f(s), faults=op["faults"], seed=seed, allow=(), ret_exc=True)
        ctx.must("update", lambda: s.update(), seed=seed + 1)
    if not o.usable():
        raise Abandon("ill-conditioned")
    if o.kind == "F":
        o.log.append((what + ": energy", complex(s.H_expect), 1e-6))
    elif o.kind == "U":
        o.log.append((what + ": energy", complex(s.h_expect), 1e-6))
    else:
        o.log.append((what + ": energy", complex(s.dH_expect) if np.ndim(s.dH_expect) == 0 else np.array(s.dH_expect), 1e-6))


def evaluate(pop, o, op):
    ctx, s, w, seed = o.ctx, o.s, o.w, op["seed"]
    rs = np.random.RandomState(seed)
    if o.kind == "S":
        n = rs.randint(1, s.N + 1)
        op1 = F.herm(rs, w.q)
        keep = op1.copy()
        evs = [("expect_1s", lambda: s.expect_1s(op1, n), 1e-7), ("schmidt", lambda: np.array(s.schmidt_sq(n)).real, 1e-7),
               ("density", lambda: s.density_1s(n), 1e-7), ("calc_B", lambda: s.calc_B() and None, 1e-6)]
    else:
        evs = menu.evals(w, seed)
    name, fn, tol = evs[int(op["how"] * len(evs))]
    v, e = ctx.call(name, fn, faults=op["faults"], seed=seed, ret_exc=True)
    if e is None and not name.startswith(LOOSE):
        o.log.append((name, T.flat(v)[0], max(tol, 1e-6)))
    if o.kind == "S":
        ctx.check(np.array_equal(op1, keep), "caller-array", name)
    # operators of the caller
    if o.kind != "S":
        q = [int(w.q)] * 4 if o.kind == "U" else [int(x) for x in w.q]
        o1, o2 = F.herm(rs, q[0]), F.rmat(rs, q[0] * q[1]).reshape(q[0], q[1], q[0], q[1])
        k1, k2 = o1.copy(), o2.copy()
        if o.kind == "U":
            ctx.must("operators", lambda: (s.expect_1s(o1), s.expect_2s(o2), s.expect_string_per_site_1s(o1), s.correlation_1s_1s(o1, o1, 2)))
        else:
            ctx.must("operators", lambda: (s.expect_1s(o1, 1), s.expect_2s(o2, 1), s.density_1s(1)))
            o3 = F.rmat(rs, q[-1])
            k3 = o3.copy()
            c = copy.deepcopy(s)
            ctx.must("apply_op_1s", lambda: c.apply_op_1s(o3, w.N))
            ctx.check(np.array_equal(o3, k3), "caller-array", "apply_op_1s")
            if w.is_tdvp and c.canonical_form == "right":
                m, _ = w.rand_mpo(rs, 1, w.N)
                keep = [x.copy() for x in m]
                H = [None] + list(m)
                ctx.call("take_step_split", lambda: F.take_step_split(ctx, c, 0.01j, HMPO=H), allow=(Exception,))
                ctx.check(all(np.array_equal(x, y) for x, y in zip(m, keep)), "caller-array", "take_step_split")
        ctx.check(np.array_equal(o1, k1) and np.array_equal(o2, k2), "caller-array", "expectation values")


# ------------------------------------------------------------------------------------------------ pairs
def do_pair(pop, o, j, op):
    ctx = o.ctx
    if j is None:
        return
    p = pop.o[j]
    rs = np.random.RandomState(op["seed"])
    A, B, B0 = copy.deepcopy(o.s), copy.deepcopy(p.s), copy.deepcopy(p.s)
    ta, tb = T.tensors(o.s), T.tensors(p.s)
    db = digest(p.s)
    fns = []
    s, r = o.s, p.s
    if o.kind == "F":
        if s.N != r.N or list(s.q[1:s.N + 1]) != list(r.q[1:s.N + 1]):
            return
        fns = [("inner", lambda a, b: a.inner(b), 1e-8)]
    elif o.kind == "U":
        if s.q != r.q:
            return
        fns = [("fidelity", lambda a, b: a.fidelity_per_site(b)[0], 1e-6), ("phase_align", lambda a, b: a.phase_align(b), None)]
        if s.L == 1 and r.L == 1 and s.D == r.D and np.ndim(s.ham) == 4 and s.ham is r.ham and 9 <= (s.q - 1) * s.D ** 2 <= 18:
            fns.append(("excite_top_nontriv_brute", lambda a, b: np.sort(a.excite_top_nontriv_brute(b, 0.7)), 1e-5))
        ev = np.sort(np.abs(nla.eigvals(M.cell_transfer([np.array(a) for a in s.A] * r.L, [np.array(a) for a in r.A] * s.L))))[::-1]
        if len(ev) > 1 and ev[1] > 0.9 * ev[0]:
            return
        if s.L != r.L or s.D != r.D:
            fns = fns[:1]
    else:
        if s.q[1] != r.q[1] or s.N != r.N or s.uni_l.L != r.uni_l.L or s.uni_r.L != r.uni_r.L or s.uni_l.D != r.uni_l.D or s.uni_r.D != r.uni_r.D:
            return
        fns = [("overlap", lambda a, b: abs(complex(a.overlap(b))), 1e-6)]
        for a, b in ((s.uni_l, r.uni_l), (s.uni_r, r.uni_r)):
            la = U.M.Uni([np.array(x) for x in a.A])
            ev = np.abs(nla.eigvals(M.cell_transfer([np.array(x) for x in a.A], [np.array(x) for x in b.A])))
            if abs(max(ev) - 1) > 1e-8:
                return
    name, fn, tol = fns[int(op["how"] * len(fns))]
    pa, pb = o.physical(), p.physical()
    v = ctx.must(name, lambda: fn(s, r), seed=op["seed"])
    v2 = ctx.must(name, lambda: fn(A, B), seed=op["seed"])
    if tol:
        ctx.close(T.flat(v)[0], T.flat(v2)[0], tol, "pair", "%s differs from that of copies" % name)
    what = "%s of objects (%s)" % (name, o.kind)
    ctx.probe(name)
    if o.kind == "S":
        # (the overlap brings the phases of the bulks into agreement)
        pass
    else:
        ctx.check(T.same_bits(tb, T.tensors(p.s)), "other-object-changed", what)
        # (the donor of an excitation calculation gets its work space refreshed)
        ctx.check(name.startswith("excite") or digest(p.s) == db, "other-object-changed", what)
        for f in ("l", "r", "K"):
            if hasattr(p.s, f):
                ctx.check(digest(getattr(p.s, f)) == digest(getattr(B0, f)), "other-object-changed", "%s: %s" % (what, f))
    for x, y in zip(p.physical(), pb):
        ctx.close(x, y, 1e-8, "other-object-changed", what)
    for x, y in zip(o.physical(), pa):
        ctx.close(x, y, 1e-8, "other-object-changed", what)


def do_scribble(pop, o, j, op):
    """The caller reuses arrays given before (tensors, dimensions), other than Hamiltonians."""
    hams = [id(a) for ob in pop.o.values() for a in flatten([getattr(ob.s, "ham", None), getattr(getattr(ob.s, "uni_l", None), "ham", None),
                                                              getattr(getattr(ob.s, "uni_r", None), "ham", None)])]
    left = []
    for a, c in pop.given:
        if id(a) in hams or a.dtype.kind not in "cif" or a.flags.writeable is False:
            left.append((a, c))
            continue
        a[...] = 7 if a.dtype.kind == "i" else np.nan
        o.ctx.probe("scribble")
    pop.given = left


def flatten(x):
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flatten(y)]
    return []
