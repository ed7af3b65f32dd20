"""Run counts per tier and the fixed texts of the evidence files."""
BUD = {
    "P01": dict(quick=dict(runs=400)),
    "P02": dict(quick=dict(runs=300)),
    "P03": dict(quick=dict(runs=320)),
    "P04": dict(quick=dict(runs=280)),
    "P05": dict(quick=dict(runs=400)),
    "P06": dict(quick=dict(runs=320)),
    "P07": dict(quick=dict(runs=500)),
    "P08": dict(quick=dict(runs=400)),
    "P09": dict(quick=dict(runs=220)),
    "P10": dict(quick=dict(runs=250)),
    "P11": dict(quick=dict(runs=300)),
    "P12": dict(quick=dict(runs=300)),
    "P13": dict(quick=dict(runs=200)),
    "P14": dict(quick=dict(runs=190)),
    "P15": dict(quick=dict(runs=250)),
    "P18": dict(quick=dict(runs=180)),
    "P17": dict(quick=dict(runs=180)),
    "P16": dict(quick=dict(runs=150)),
}
COMMON_REAL = ["all evoMPS Python code on the path", "numpy/scipy/LAPACK/ARPACK numerics (with start vectors supplied by the simulator)"]
COMMON_STUB = ["random stream (seeded)", "ARPACK start-vector choice", "uninitialised memory contents", "clock"]
ASSUME = ["The dense reference models (sim/model.py) are right.",
          "Sampling: a clean batch is evidence for the sampled histories, not a proof."]
INFO = {}


def get(prop, tier):
    b = dict(BUD.get(prop, {}).get(tier, {}))
    b.setdefault("runs", 400 if tier == "quick" else 20000)
    b.setdefault("cutoff", 400 if tier == "quick" else 3000)
    return b


def info(prop):
    i = dict(INFO.get(prop, {}))
    i.setdefault("rule", "Seeded random plans: a configuration and an operation history with faults, executed under the simulator.")
    i.setdefault("real", COMMON_REAL)
    i.setdefault("stub", COMMON_STUB)
    i.setdefault("assumptions", ASSUME)
    return i
