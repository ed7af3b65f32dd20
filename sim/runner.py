"""Master, worker, minimiser, replay and evidence writer."""
import copy
import json
import os
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
REPO = os.environ.get("VERIF_REPO", "/repo")


def load_prop(prop):
    """Installs the seams, then imports evoMPS and the property module."""
    sys.path.insert(0, REPO)
    from sim import seams
    import logging
    logging.disable(logging.CRITICAL)
    seams.install()
    import importlib
    return importlib.import_module("sim.props." + prop.lower())


def make_plan(mod, prop, tier, base, idx):
    from sim import core
    rng = core.rng_for(prop, base, idx)
    run_seed = core.seed32(prop, base, idx)
    plan = mod.gen(rng, tier, idx)
    plan.update(prop=prop, run_seed=run_seed, base=base, idx=idx)
    return json.loads(json.dumps(plan))        # what is executed is exactly what a replay file can hold


def worker(prop, tier, base, start, stride, count, deadline):
    """Executes runs start, start+stride, ...; one JSON line per run on fd 3's dup of stdout."""
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    try:
        mod = load_prop(prop)
    except BaseException as e:
        import traceback
        out.write(json.dumps(dict(fatal=traceback.format_exc()[-3000:], etype=type(e).__name__)) + "\n")
        out.flush()
        return 3
    from sim import core
    idx = start
    t0 = time.time()
    while idx < count:
        if time.time() > deadline:
            out.write(json.dumps(dict(stopped=idx)) + "\n")
            break
        plan = make_plan(mod, prop, tier, base, idx)
        t1 = time.time()
        rec = core.run_forked(mod, plan)
        rec["idx"] = idx
        rec["wall"] = round(time.time() - t1, 3)
        rec["cfg"] = plan.get("cls", "")
        out.write(json.dumps(rec) + "\n")
        out.flush()
        idx += stride
    out.close()
    return 0


def exec_worker():
    """Executes plans read from stdin (one JSON document per line), answers one JSON line each."""
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    mods = {}
    from sim import core
    for line in sys.stdin:
        if not line.strip():
            continue
        plan = json.loads(line)
        p = plan["prop"]
        if p not in mods:
            mods[p] = load_prop(p)
        rec = core.run_forked(mods[p], plan, keep_trace=plan.get("keep_trace", False))
        out.write(json.dumps(rec) + "\n")
        out.flush()
    return 0


class Executor(object):
    """A fresh process that executes plans on request."""

    def __init__(self, hashseed=None):
        env = dict(os.environ)
        if hashseed is not None:
            env["PYTHONHASHSEED"] = str(hashseed)
        self.p = subprocess.Popen([sys.executable, "-m", "sim.runner", "--exec"], cwd=ROOT, env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def run(self, plan):
        self.p.stdin.write((json.dumps(plan) + "\n").encode())
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            return dict(outcome="harness_error", kind="executor-died", detail="")
        return json.loads(line.decode())

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()


def run_batch(prop, tier, base, runs, nworkers, cutoff, hashseed=None, verbose=False):
    deadline = time.time() + cutoff
    env = dict(os.environ)
    if hashseed is not None:
        env["PYTHONHASHSEED"] = str(hashseed)
    recs, fatals, lock = {}, [], threading.Lock()
    stopped = []

    def reader(p):
        for line in p.stdout:
            try:
                r = json.loads(line.decode())
            except ValueError:
                continue
            with lock:
                if "fatal" in r:
                    fatals.append(r)
                elif "stopped" in r:
                    stopped.append(r["stopped"])
                else:
                    recs[r["idx"]] = r
                    if verbose and r["outcome"] not in ("ok",):
                        print("  idx %d %s %s: %s" % (r["idx"], r["outcome"], r["kind"], str(r["detail"])[:400 if r["outcome"] == "violation" else 3000]), flush=True)
    ps, ts = [], []
    for w in range(nworkers):
        p = subprocess.Popen([sys.executable, "-m", "sim.runner", "--worker", prop, tier, str(base), str(w),
                              str(nworkers), str(runs), repr(deadline)], cwd=ROOT, env=env, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL if not verbose else None)
        t = threading.Thread(target=reader, args=(p,))
        t.start()
        ps.append(p)
        ts.append(t)
    hard = deadline + 200
    for p in ps:
        try:
            p.wait(max(1, hard - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
    for t in ts:
        t.join(20)
    return recs, fatals, stopped


def norm_kind(r):
    return r.get("kind")


def minimise(mod_shrink, plan, kind, ex, budget):
    """Greedy delta debugging: fewer operations, fewer faults, simpler configuration; same violation kind."""
    t0 = time.time()
    tries = [0]

    def fails(p):
        if time.time() - t0 > budget:
            return False
        tries[0] += 1
        q = dict(p)
        q["cpu_limit"] = 60 if kind != "no-termination" else 30
        r = ex.run(q)
        return r["outcome"] == "violation" and norm_kind(r) == kind

    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        # drop chunks of operations
        n = max(1, len(plan["ops"]) // 2)
        while n >= 1 and time.time() - t0 < budget:
            i = 0
            while i < len(plan["ops"]):
                q = copy.deepcopy(plan)
                del q["ops"][i:i + n]
                if fails(q):
                    plan, changed = q, True
                else:
                    i += n
            n //= 2
        # drop faults
        for i in range(len(plan["ops"])):
            fl = plan["ops"][i].get("faults") or []
            for j in range(len(fl) - 1, -1, -1):
                q = copy.deepcopy(plan)
                del q["ops"][i]["faults"][j]
                if fails(q):
                    plan, changed = q, True
        if plan.get("garbage") is not None:
            q = copy.deepcopy(plan)
            q["garbage"] = None
            if fails(q):
                plan, changed = q, True
        for q in mod_shrink(copy.deepcopy(plan)):
            if time.time() - t0 > budget:
                break
            if q != plan and fails(q):
                plan, changed = q, True
                break
    return plan, tries[0]


def load_known():
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path)).get("findings", [])


def known_for(prop, rec):
    for k in load_known():
        if k["property"] == prop and k.get("kind") == rec["kind"] and k.get("match", "") in (rec.get("detail") or ""):
            return k
    return None


DEFAULT_RUNS = {"quick": 400, "thorough": 20000}


def main_check(prop, tier, opts):
    t0 = time.time()
    base = int(os.environ.get("VERIF_SEED", "1") or "1")
    ncpu = 8
    try:
        ncpu = max(1, min(8, len(os.sched_getaffinity(0))))
    except Exception:
        pass
    from sim import budgets
    b = budgets.get(prop, tier)
    runs = opts.get("runs") or b["runs"]
    cutoff = opts.get("cutoff") or b["cutoff"]
    recs, fatals, stopped = run_batch(prop, tier, base, runs, ncpu, cutoff, verbose=opts.get("verbose"))
    if opts.get("verbose"):
        ws = sorted((r["wall"], r["idx"]) for r in recs.values())
        print("slowest:", ws[-5:])
    code = 0
    nviol = 0
    if fatals:
        # evoMPS cannot even be imported / the harness cannot start: not a verdict
        print("HARNESS: worker could not start:\n" + fatals[0]["fatal"])
        print("no verdict for property=%s" % prop)
        return 2
    bad = [r for _, r in sorted(recs.items()) if r["outcome"] == "violation"]
    herr = [r for _, r in sorted(recs.items()) if r["outcome"] == "harness_error"]
    known_hit = {}
    new = []
    for r in bad:
        k = known_for(prop, r)
        if k is not None:
            known_hit.setdefault(k["id"], (k, []))[1].append(r)
        else:
            new.append(r)
    for k in load_known():
        rs = [r for r in recs.values() if k["id"] in r.get("known", {})]
        if k["property"] == prop and rs:
            known_hit.setdefault(k["id"], (k, []))[1].extend(rs)
    for kid, (k, rs) in sorted(known_hit.items()):
        print("KNOWN-FINDING: property=%s %s (%d runs)" % (prop, k["what"], len(rs)))
    seen = {}
    for r in new:
        seen.setdefault(norm_kind(r), []).append(r)
    replays = []
    if new:
        code = 1
        mod = load_prop(prop)
        shrink = getattr(mod, "shrink", lambda p: [])
        for n, (kind, rs) in enumerate(sorted(seen.items(), key=lambda kv: kv[1][0]["idx"])):
            nviol += len(rs)
            r = rs[0]
            if n >= 3:
                print("further violation class %s (%d runs), first idx %d: %s" % (kind, len(rs), r["idx"], str(r["detail"])[:300]))
                continue
            plan = make_plan(mod, prop, tier, base, r["idx"])
            ex = Executor()
            tries = 0
            if not opts.get("nomin") and time.time() - t0 < 600:
                small, tries = minimise(shrink, plan, kind, ex, opts.get("minbudget", 25 if n == 0 else 10))
            else:
                small = plan
            ex.close()
            ex2 = Executor()
            q = dict(small)
            q["keep_trace"] = True
            a = ex2.run(q)
            ex2.close()
            ex3 = Executor(hashseed=4711)
            c = ex3.run(q)
            ex3.close()
            same = a.get("outcome") == "violation" and a.get("kind") == kind and a.get("digest") == c.get("digest")
            if not same and small is not plan:
                small = plan
                q = dict(small)
                q["keep_trace"] = True
                ex2 = Executor()
                a = ex2.run(q)
                ex2.close()
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            path = os.path.join("replays", "%s-%s-%d.json" % (prop, "".join(ch if ch.isalnum() else "_" for ch in kind)[:40], r["idx"]))
            with open(os.path.join(ROOT, path), "w") as f:
                json.dump(dict(property=prop, kind=kind, detail=a.get("detail") or r["detail"], base_seed=base, idx=r["idx"],
                               run_seed=r["seed"], reproduced_exactly=bool(same), digest=a.get("digest"),
                               minimiser_executions=tries, original_ops=len(plan["ops"]), plan=small,
                               trace=a.get("trace")), f, indent=1)
            replays.append(path)
            print("%s: %s" % (kind, str(a.get("detail") or r["detail"])[:600]))
            print("  seed=%d idx=%d, %d of %d operations left after minimisation, replay exact: %s, %d failing runs of this class"
                  % (base, r["idx"], len(small["ops"]), len(plan["ops"]), same, len(rs)))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    elif herr:
        print("HARNESS ERROR in %d runs, first idx %d: %s %s" % (len(herr), herr[0]["idx"], herr[0]["kind"], herr[0]["detail"]))
        code = 2
    elif len(recs) == 0:
        print("HARNESS ERROR: no run completed")
        code = 2
    selfdet = None
    if code == 0 and not opts.get("nodet"):
        selfdet = determinism(prop, tier, base, recs, 24 if tier == "quick" else 200, ncpu)
        if selfdet["diverged"]:
            print("HARNESS ERROR: executions are not repeatable: %s" % selfdet)
            code = 2
    write_evidence(prop, tier, base, recs, stopped, nviol, replays, known_hit, time.time() - t0, runs, selfdet)
    n = len(recs)
    print("%s %s: %d runs (%d planned), %d violations, %d abandoned, %.1f s" % (
        prop, tier, n, runs, nviol, sum(r["outcome"] == "abandoned" for r in recs.values()), time.time() - t0))
    return code


def determinism(prop, tier, base, recs, n, ncpu):
    """Re-executes a sample of the runs in fresh interpreters under other hash seeds and worker counts."""
    idxs = sorted(recs)[:: max(1, len(recs) // n)][:n]
    mod = None
    div = []
    lock = threading.Lock()
    chunks = [idxs[i::4] for i in range(4)]

    def go(k):
        ex = Executor(hashseed=1000 + k)
        for i in chunks[k]:
            a = ex.run(plans[i])
            if a.get("digest") != recs[i]["digest"] or a.get("outcome") != recs[i]["outcome"]:
                with lock:
                    div.append(i)
        ex.close()
    mod = load_prop(prop)
    plans = dict((i, make_plan(mod, prop, tier, base, i)) for i in idxs)
    ts = [threading.Thread(target=go, args=(k,)) for k in range(4)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return dict(reexecuted=len(idxs), diverged=sorted(div), how="fresh interpreters, other PYTHONHASHSEED, other process count; event-log digests compared")


def write_evidence(prop, tier, base, recs, stopped, nviol, replays, known_hit, wall, planned, selfdet):
    from sim import budgets
    info = budgets.info(prop)
    states, fired, calls, probes = set(), {}, {}, {}
    digests = set()
    nontriv = 0
    ops = checks = 0
    simt = 0.0
    for r in recs.values():
        states.update(r["states"])
        for k, v in r["fired"].items():
            fired[k] = fired.get(k, 0) + v
        for k, v in r["calls"].items():
            calls[k] = calls.get(k, 0) + v
        for k, v in r["probes"].items():
            probes[k] = probes.get(k, 0) + v
        ops += r["nops"]
        checks += r["nchecks"]
        simt += r["simtime"]
        if r["outcome"] in ("ok", "violation") and r["nops"] >= 1 and r["nchecks"] >= 1:
            if r["digest"] not in digests:
                nontriv += 1
            digests.add(r["digest"])
    samples = []
    for i in sorted(recs)[:: max(1, len(recs) // 4)][:4]:
        r = recs[i]
        samples.append(dict(idx=i, run_seed=r["seed"], config=r["cfg"], operations=r["nops"], checks=r["nchecks"], outcome=r["outcome"],
                            fired=r["fired"], digest=r["digest"], states=r["states"][:8]))
    ev = dict(property=prop, tier=tier, seed=base, level="exploration", wall_s=round(wall, 2), violations=nviol,
              coverage=dict(
                  evaluations=len(recs), distinct_nontrivial=nontriv,
                  rule=info["rule"] + " A run is non-trivial if it completed at least one operation and one oracle check; "
                       "distinct runs have different event-log digests.",
                  samples=samples, runs_planned=planned, runs_stopped_by_cutoff=bool(stopped),
                  operations=ops, oracle_checks=checks,
                  runs_per_hour=int(len(recs) / max(wall, 1e-9) * 3600), seeds_per_hour=int(len(recs) / max(wall, 1e-9) * 3600),
                  simulated_time=round(simt, 6), simulated_time_unit="units of the physical evolution time covered by steps (sum of |dtau|)",
                  faults_fired=fired, seam_calls=calls, probes=probes,
                  distinct_states=len(states),
                  state_measure="distinct (configuration class, previous operation, operation, outcome/fault class) tuples over all runs",
                  abandoned=sum(r["outcome"] == "abandoned" for r in recs.values()),
                  real_components=info["real"], stub_components=info["stub"],
                  determinism_selftest=selfdet, replays=replays,
                  known_findings=[k["id"] for k, _ in known_hit.values()]),
              assumptions=info["assumptions"])
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(d, prop + ".json"))


def main_replay(path):
    if not os.path.exists(path):
        path = os.path.join(ROOT, path)
    d = json.load(open(path))
    ex = Executor()
    q = dict(d["plan"])
    q["keep_trace"] = True
    a = ex.run(q)
    ex.close()
    print("outcome=%s kind=%s digest=%s (recorded kind=%s digest=%s)" % (a["outcome"], a["kind"], a.get("digest"), d["kind"], d["digest"]))
    print(a.get("detail"))
    if a["outcome"] == "violation":
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    return 0 if a["outcome"] in ("ok", "abandoned") else 2


def main():
    a = sys.argv[1:]
    if a[0] == "--worker":
        return worker(a[1], a[2], int(a[3]), int(a[4]), int(a[5]), int(a[6]), float(a[7]))
    if a[0] == "--exec":
        return exec_worker()
    if a[0] == "--selftest":
        # setup: the simulator's seams install and every evoMPS module a property needs imports under them
        load_prop("P01")
        from sim import seams
        print("simulator ready: seams installed over %s" % seams.__file__)
        return 0
    if a[0] == "--replay":
        return main_replay(a[1])
    opts = {}
    pos = []
    i = 0
    while i < len(a):
        if a[i] in ("--runs", "--cutoff", "--minbudget"):
            opts[a[i][2:]] = int(a[i + 1])
            i += 2
        elif a[i].startswith("--"):
            opts[a[i][2:]] = True
            i += 1
        else:
            pos.append(a[i])
            i += 1
    tier = pos[1] if len(pos) > 1 else os.environ.get("VERIF_TIER", "quick")
    return main_check(pos[0], tier, opts)


if __name__ == "__main__":
    sys.stdout.flush()
    code = main()
    sys.stdout.flush()
    os._exit(code)
