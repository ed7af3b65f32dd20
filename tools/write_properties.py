"""Regenerates /verif/properties.jsonl (kept as code so the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["evoMPS/" + f for f in files],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=list(observe), hook_needed=None)))

prop("P01", "Finite chains: canonical form and normalisation preserve the state",
 "Whatever sequence of edits a finite chain has been through, bringing it into left or right canonical form leaves the represented state vector unchanged up to its norm (and up to a global phase where the eigenvalue-based route is used), and leaves the norm unchanged too when normalisation is switched off, otherwise making it one. "
 "Afterwards every site satisfies the chosen canonical condition, the bond spectra are the Schmidt spectra of that state, and the cached left and right environments are those of the current tensors. "
 "This also holds for rank-deficient or over-complete bonds and when an internal matrix factorisation fails and the fallback route is taken.",
 ["histories", "configurations", "fault_sequences"],
 "All chain lengths, per-site local dimensions, bond dimensions (including rank-deficient and over-complete ones), left/right form, QR or eigenvalue route, normalisation on/off, any preceding sequence of edits (local operators, MPOs, noise, truncation, product states, replaced tensors, evolution steps), with and without failing factorisations.",
 "The only finite-chain test runs one Ising evolution and compares energies; canonical conditions, phases, norms, rank-deficient bonds, the left form and the fallback routes are never looked at.",
 ["mps_gen.py", "core_common.py", "tdvp_common.py"],
 [("restore_RCF / restore_LCF sweeps", "mps_gen.py: restore_RCF, restore_LCF, _restore_*_seq"),
  ("single-site gauge restoration with factorisation fallback", "tdvp_common.py: restore_RCF_r, restore_RCF_l, herm_fac_with_inv"),
  ("cached environment recomputation", "mps_gen.py: calc_l, calc_r, update")],
 [("site tensors A[n]", "the state", "mps_gen.py"), ("l[n], r[n]", "left/right environments", "mps_gen.py")],
 ["site tensors and l/r after update(), restore_RCF(), restore_LCF()"])

prop("P02", "Finite chains: every reported observable is that of the current state",
 "At any point of a finite chain's history (after edits, evolution, truncation, or a change of Hamiltonian, once the object has been brought up to date) every quantity it reports - one-, two- and three-site and string expectation values, correlation functions, reduced density matrices, Schmidt values, entropies, overlaps with another chain, matrix-product-operator values, and local and total energies - equals the value computed from the full state vector. "
 "Local operators and Hamiltonian terms may be given as arrays or as functions, sites may have different dimensions, and either canonical form may be in use.",
 ["histories", "configurations", "inputs"],
 "All histories of edits/evolution/quenches on chains of any length with per-site dimensions, array or function operators, 2- and 3-site Hamiltonians with absent terms, both canonical forms.",
 "Tests compare only the ground-state energy of one chain with uniform sites; stale caches after an edit and nonuniform or function-valued operators are never exercised.",
 ["mps_gen.py", "tdvp_gen.py", "core_common.py", "tdvp_common.py"],
 [("expectation values from cached environments", "mps_gen.py: expect_*, density_*, correlation_1s_1s, inner, expect_MPO"),
  ("Hamiltonian environments", "tdvp_gen.py: calc_C, calc_K, calc_K_l, update")],
 [("l[n], r[n], C[n], K[n], h_expect[n]", "caches that every observable is read from", "mps_gen.py, tdvp_gen.py")],
 ["return values of the observable methods"])

prop("P03", "Finite chains: time steps follow the tangent-space-projected dynamics",
 "For a finite chain in any reachable state, the evolution direction is the orthogonal projection of minus (H minus energy) acting on the state onto the tangent space at fixed bond dimension, the reported error measure is its norm, and each stepping method (Euler, fourth-order Runge-Kutta, split/sweeping, with or without memory saving, with or without global operator input) reproduces the projected flow with the local error of its stated order. "
 "Real-time evolution conserves norm, and energy to that order, and is exact when the bond dimensions are maximal; small imaginary-time steps never raise the energy. "
 "The caller's own tensors and arguments are not modified by a step.",
 ["histories", "configurations", "schedules"],
 "All schedules mixing stepping methods, real/imaginary/complex step sizes, Hamiltonian quenches and edits, on chains with nonuniform dimensions, 2-/3-site array or function Hamiltonians with absent terms, and both gauge choices.",
 "Tests evolve one Ising chain in imaginary time to its fixed point, where wrong intermediate stages, orders of accuracy, real-time behaviour and method equivalence all vanish.",
 ["tdvp_gen.py", "tdvp_common.py", "split_step.py", "sexpmv.py"],
 [("tangent vector", "tdvp_gen.py: calc_B, calc_x, calc_x_l"), ("stepping", "tdvp_gen.py: take_step, take_step_RK4, take_step_split"),
  ("generic split-step sweeps", "split_step.py: evolve_split")],
 [("B[n], eta_sq", "tangent vector and its norm", "tdvp_gen.py")],
 ["state vector before/after a step", "eta, H_expect"])

prop("P04", "Finite chains: bond-dimension changes are bounded, optimal and lossless",
 "Truncation of a finite chain in canonical form to given bond dimensions loses at most twice the discarded Schmidt weight summed over bonds in fidelity (exactly the discarded weight for a single bond), keeps the dominant Schmidt vectors, and never leaves larger bonds than requested; threshold truncation removes exactly the directions below the threshold. "
 "Dynamical expansion during a step never exceeds the requested maximum or increment, keeps the first-order evolution unchanged in the old space and adds the dominant missing two-site component, and the reported two-site error equals the norm of that missing component. "
 "The object stays fully consistent and usable after any interleaving of truncation, expansion, edits and evolution.",
 ["histories", "configurations", "schedules"],
 "All interleavings of truncation, threshold truncation, expansion steps and edits; any requested dimensions (including larger than present), thresholds, and both canonical forms.",
 "Tests check only that the energy is still about right after a run with truncation or expansion.",
 ["mps_gen.py", "tdvp_gen.py", "split_step.py", "tdvp_common.py"],
 [("truncate / auto_truncate", "mps_gen.py"), ("two-site expansion", "tdvp_gen.py: calc_BB_2s, take_step(dynexp)"), ("two-site split steps", "split_step.py: evolve_split(two_site)")],
 [("D[n]", "bond dimensions", "mps_gen.py")],
 ["D, state vector before/after", "etaBB_sq"])

prop("P05", "Uniform states: canonical form and fixed points preserve the state",
 "For an infinite translation-invariant state with any unit-cell length, after bringing it up to date by any of the available solver routes and gauges, the state per site is unchanged (all local density matrices are those of the tensors before), the transfer operator's leading eigenvalue is one, and the cached left/right fixed points satisfy their equations with unit overlap. "
 "In the chosen gauge the canonical conditions hold at every site and the bond spectra are the Schmidt spectra. "
 "Edits such as growing the bond dimension, blocking, noise, gauge alignment and truncation change the state only as documented.",
 ["histories", "configurations", "fault_sequences"],
 "All unit-cell lengths, bond and local dimensions, real/complex data, symmetric/right/left gauges, dense/power/Arnoldi solver routes, and any sequence of edits, evolution steps and updates.",
 "No test constructs a uniform state at all apart from pseudo-inverse helpers.",
 ["mps_uniform.py", "core_common.py", "tdvp_common.py"],
 [("fixed points", "mps_uniform.py: calc_lr, _calc_lr_*"), ("gauge restoration", "mps_uniform.py: restore_SCF, restore_RCF, restore_LCF")],
 [("A[k], l[k], r[k]", "unit-cell tensors and fixed points", "mps_uniform.py")],
 ["A, l, r after update()"])

prop("P06", "Uniform states: observables are those of the current state at any offset",
 "For an up-to-date infinite state with any unit-cell length and any history, every reported quantity - expectation values of one-, two- and three-site operators at any cell offset, correlators at any distance, string values, density matrices, entropies, Schmidt values, correlation length, energy density, overlap per site with another state - equals the value computed from the tensors by an independent transfer-operator calculation. "
 "Quantities that are invariant under gauge changes or blocking of sites do not depend on them.",
 ["histories", "configurations", "inputs"],
 "All unit-cell lengths, offsets, distances, gauges, array/function operators, 2-/3-site Hamiltonians, after any history of edits, steps, quenches and blocking.",
 "No test evaluates any observable on an infinite state.",
 ["mps_uniform.py", "tdvp_uniform.py"],
 [("observable methods", "mps_uniform.py: expect_*, correlation_1s_1s, density_*, schmidt_sq, entropy, fidelity_per_site, correlation_length"),
  ("energy density", "tdvp_uniform.py: calc_C, calc_K, update")],
 [("l, r, AA, C, K, h_expect", "caches", "mps_uniform.py, tdvp_uniform.py")],
 ["return values of the observable methods"])

prop("P07", "Uniform states: time steps follow the tangent-space-projected dynamics",
 "For an infinite state in any reachable configuration, the evolution direction is the energy-density gradient in the tangent-space metric (so its overlap with any other tangent direction equals the corresponding energy derivative), the error measure is its norm per unit cell, and Euler and fourth-order Runge-Kutta steps have the local error of their order. "
 "Real-time steps conserve the energy density to that order, small imaginary-time steps do not raise it, and the result does not depend on gauge, on blocking of the unit cell or on the linear-solver route; bond expansion during a step obeys its limits and does not change the first-order evolution. "
 "Arguments supplied by the caller are not modified.",
 ["histories", "configurations", "schedules"],
 "All schedules of steps, quenches and edits; unit-cell lengths, 2-/3-site array/function Hamiltonians, gauges, solver routes, step sizes and expansion limits.",
 "No test takes a uniform step.",
 ["tdvp_uniform.py", "tdvp_common.py", "mps_uniform_pinv.py"],
 [("tangent vector", "tdvp_uniform.py: calc_B, calc_x, calc_K, calc_K_l, solve_K"), ("stepping", "tdvp_uniform.py: take_step, take_step_RK4")],
 [("B, eta, K", "tangent vector and environments", "tdvp_uniform.py")],
 ["energy density and fidelity before/after steps"])

prop("P08", "Failing iterative solvers are retried or reported, never silently wrong",
 "If an eigenvalue or linear solver fails to converge or errors during an update, tangent-vector or spectrum computation, the library either retries - and one success within the permitted number of attempts is enough - or falls back, or reports the failure to the caller; it never presents unconverged or mixed results as good, and a failed attempt does not corrupt the state, its remembered starting points or its parameters. "
 "After faults stop, repeating the operation gives the same results as if no fault had happened.",
 ["fault_sequences", "histories", "configurations"],
 "All sequences of solver failures (no convergence, partial convergence, errors, nonzero status, stalls) at any solver call in any operation on finite and infinite states.",
 "No test makes a solver fail.",
 ["mps_uniform.py", "tdvp_uniform.py", "mps_uniform_pinv.py", "mps_uniform_excite.py", "core_common.py"],
 [("retry loops", "mps_uniform.py: _calc_lr_ARPACK, _calc_E_largest_eigenvalues, calc_lr"), ("linear-solver status handling", "mps_uniform_pinv.py: pinv_1mE")],
 [("start vectors", "remembered between updates", "mps_uniform.py: lL_before_CF, rL_before_CF")],
 ["exceptions and results after injected solver faults"])

prop("P09", "Interrupted or failed operations can be retried without lasting damage",
 "If an operation that only evaluates (observables, tangent vectors, overlaps, line searches, spectra, saving) is interrupted or fails at any point, the physical state, the Hamiltonian and the parameters are what they were, and repeating it gives what an undisturbed run gives. "
 "If an update or an evolution step on a state of fixed shape is interrupted at any point, putting back the tensors held before it and updating gives exactly the state, observables and next step of an undisturbed run.",
 ["crash_points", "histories", "configurations"],
 "Every instruction boundary inside every public operation, at any point of a history, for finite, infinite and bulk-embedded states.",
 "No test interrupts an operation.",
 ["mps_gen.py", "tdvp_gen.py", "mps_uniform.py", "tdvp_uniform.py", "tdvp_gen_diss.py", "split_step.py"],
 [("save/restore around trial steps", "tdvp_gen.py: find_min_h_brent; tdvp_uniform.py: EvoMPS_line_search, find_min_h_brent"), ("temporary Hamiltonian substitution", "tdvp_gen_diss.py: take_step_dissipative")],
 [("A, ham, parameters", "what must survive an abort", "all")],
 ["state and results after an injected interruption"])

prop("P10", "Saved and exported states survive: exact round trip, damage detected",
 "A state saved or exported and later loaded or imported - into the same or a freshly made object, after any further changes to or failures of the original, with user data attached - reproduces the same physical state, bond dimensions and observables, and an in-memory snapshot is never altered by later work on the object it was taken from or restored to. "
 "Loading a missing, truncated or corrupt file reports an error or failure and leaves the loading object's state usable and unchanged; a save that hits a storage error reports it.",
 ["crash_points", "fault_sequences", "histories"],
 "All interleavings of save, load, export, import, edits and evolution across all state classes, with storage errors, short writes, full disks and crashes at any write.",
 "Persistence has no tests at all.",
 ["mps_gen.py", "tdvp_uniform.py", "mps_sandwich.py", "tdvp_sandwich.py"],
 [("save_state / load_state", "mps_gen.py, tdvp_uniform.py, mps_sandwich.py, tdvp_sandwich.py"), ("export_state / import_state / from_file / from_mps", "tdvp_uniform.py, mps_sandwich.py")],
 [("saved arrays", "durable representation", "files written by save_state")],
 ["states after load, exceptions/return codes under storage faults"])

prop("P11", "Evolution drivers take exactly the requested steps and report them",
 "An evolution driver asked to cover a total time in steps of a given size performs exactly the nearest whole number of steps, calls the observer once per time point including start and end with an up-to-date state, and ends in the state that the same steps taken by hand produce, for every integrator, expansion and truncation option and every kind of state. "
 "Splitting the run at any step or observing it does not change the outcome, and the adaptive integrator driver reproduces the projected dynamics in forward time to its tolerance at each time it reports. "
 "An error raised by the observer reaches the caller.",
 ["schedules", "histories", "configurations"],
 "All total times, step sizes (including ones not representable exactly), integrators, options, observer behaviours, split points and state classes.",
 "No test calls a driver.",
 ["dynamics.py", "split_step.py"],
 [("step loop", "dynamics.py: evolve, evolve_scipy_ode, evolve_scipy_ode_old"), ("split-step driver", "split_step.py: evolve_split")],
 [], ["observer call log, final state"])

prop("P12", "Ground-state searches descend, stay variational and end converged",
 "Imaginary-time, gradient-descent, conjugate-gradient and sweep searches - on finite and infinite states, from any start and also when interleaved with each other, bond growth or transient solver failures - report energies that are the energies of the states they hold and never lie below the true ground energy, and accepted steps do not raise the energy beyond solver tolerance. "
 "Once faults stop, they reach the requested error within a bounded number of steps, or stop at the given limit, and leave a normalised, up-to-date state.",
 ["schedules", "fault_sequences", "histories", "configurations"],
 "All interleavings of search methods, restarts, bond growth, start states and injected solver failures for a family of local Hamiltonians.",
 "Tests run a single finite Ising chain with fixed recipe; infinite searches and conjugate gradients are not run.",
 ["dynamics.py", "tdvp_uniform.py", "tdvp_gen.py", "split_step.py"],
 [("drivers", "dynamics.py: opt_im_time, opt_conj_grad, opt_grad_descent, find_ground"), ("line searches and conjugate gradients", "tdvp_uniform.py: calc_B_CG, find_min_h, find_min_h_brent; tdvp_gen.py: calc_B_CG, find_min_h_brent"), ("sweeps", "tdvp_gen.py: vari_opt_ss_sweep, take_step_split(DMRG); split_step.py")],
 [], ["energies per step, final state"])

prop("P13", "Independent state objects never influence each other",
 "Work on one state object never changes another, whatever the interleaving of their operations, including when one was made from, copied from, loaded from or embedded in the other, when they share an operator or array supplied by the caller, or when overlaps between them are computed. "
 "Each gives the results it gives when run alone, and arrays and operators supplied by the caller are never modified.",
 ["schedules", "histories", "configurations"],
 "All interleavings, down to single statements, of operations on several finite, infinite and bulk-embedded objects related by any constructor, copy or persistence call.",
 "Tests use one object at a time.",
 ["mps_gen.py", "mps_uniform.py", "mps_sandwich.py", "tdvp_uniform.py", "core_common.py", "tdvp_common.py"],
 [("copying constructors", "mps_uniform.py: from_tensors, from_mps; mps_sandwich.py: constructor, from_*"), ("temporary buffers", "core_common.py: eps_* out/temp arguments")],
 [], ["per-object event logs alone and interleaved"])

prop("P14", "Observing a state does not disturb it",
 "Evaluating any observable, density matrix, entropy, overlap, spectrum, tangent vector, error measure or snapshot, in any number and order, between or instead of steps, changes neither the physical state nor the outcome of later observations, updates and evolution steps. "
 "Repeating an observation gives the same value.",
 ["schedules", "histories"],
 "All insertions of read-only calls into any history on any state class.",
 "Tests never compare an observed run with an unobserved one.",
 ["mps_gen.py", "tdvp_gen.py", "mps_uniform.py", "tdvp_uniform.py", "mps_sandwich.py", "tdvp_sandwich.py"],
 [("read-only methods on shared caches", "mps_gen.py, mps_uniform.py, mps_sandwich.py")],
 [], ["paired executions with and without observations"])

prop("P15", "Bulk-embedded windows behave as part of one infinite state",
 "A finite nonuniform window between two infinite bulks represents one infinite state: canonical form, updates, growing the window at either end at any time (and saving and reloading, growing automatically when asked) leave that state and all its local expectation values unchanged. "
 "A window identical to its bulk stays exactly as stationary or as evolving as the bulk does, a time step changes only the window and follows the projected dynamics with the bulk's energy as reference, and a local change shows up in expectation values exactly as in the infinite state.",
 ["histories", "schedules", "configurations", "crash_points"],
 "All bulks (same or different left/right, unit-cell lengths), window lengths, local edits, step methods, growth schedules and persistence points.",
 "The embedded-window class has no tests.",
 ["mps_sandwich.py", "tdvp_sandwich.py"],
 [("bulk environments and growth", "mps_sandwich.py: grow_left, grow_right, restore_CF, update"), ("window dynamics", "tdvp_sandwich.py: calc_B, take_step, take_step_RK4, calc_B_centre")],
 [("A, l, r, uni_l, uni_r", "window tensors and bulks", "mps_sandwich.py")],
 ["expectation values inside and outside the window"])

prop("P16", "Results are independent of solver start vectors, memory garbage and history",
 "Two executions of the same operations on the same inputs give the same physical results up to solver tolerance regardless of uninitialised memory contents, random solver start vectors, remembered start vectors, object history and hash seed; and they are bit-for-bit equal when the random seed is equal too. "
 "Only the explicitly random operations (random states, noise, quantum trajectories) depend on the random stream.",
 ["schedules", "histories", "configurations"],
 "All contents of freshly allocated memory, random streams, retained start vectors and earlier histories, for every operation on every state class.",
 "A test run has one memory layout and one random stream and is never repeated under another.",
 ["mps_uniform.py", "mps_gen.py", "tdvp_common.py", "core_common.py", "tdvp_uniform.py"],
 [("uninitialised allocation then fill", "sp.empty/np.empty users everywhere"), ("start-vector reuse", "mps_uniform.py: lL_before_CF, rL_before_CF; tdvp_uniform.py: K as start")],
 [], ["paired executions under different garbage, streams and histories"])

prop("P17", "Excitation spectra are right whatever the solver's luck",
 "The reported excitation energies above an infinite ground state at any momentum, topologically trivial or not, are the lowest eigenvalues of the effective excitation problem defined by the state: the iterative and the direct routes agree, energies are real, symmetric under reversal of momentum where the model is, unaffected by gauge or by solver randomness, and a transient solver failure is retried or reported. "
 "Computing them leaves the ground state untouched.",
 ["fault_sequences", "configurations", "histories"],
 "All momenta, models with 2- and 3-site terms, gauges, start vectors and solver-fault sequences.",
 "Excitations have no tests.",
 ["mps_uniform_excite.py", "tdvp_uniform.py"],
 [("effective Hamiltonian operator", "mps_uniform_excite.py: Excite_H_Op"), ("drivers with retries", "tdvp_uniform.py: excite_top_triv, excite_top_nontriv, *_brute")],
 [], ["spectra"])

prop("P18", "Dissipative trajectories follow the drawn noise and restore the model",
 "Each stochastic step of an open finite chain equals the deterministic and noise-driven drift given by the model, the jump operators and the noise values drawn for that step, projected on the tangent space; the same random stream gives the same trajectory. "
 "After every step, completed or failed, the model Hamiltonian is what it was before, and the average over noise reproduces the decay of the corresponding master equation to first order.",
 ["schedules", "histories", "crash_points", "configurations"],
 "All noise sequences, jump operators, step sizes, models and interruption points.",
 "Dissipative evolution has no tests.",
 ["tdvp_gen_diss.py"],
 [("stochastic effective Hamiltonian", "tdvp_gen_diss.py: take_step_dissipative, calc_Y etc."),],
 [], ["state vector and Hamiltonian around each step"])

prop("P19", "Tensor-network contraction kernels agree with their definitions",
 "Every low-level transfer-map, matrix-wrapper and local linear-algebra helper returns the value of the contraction it documents for any shapes and storage kinds.",
 ["inputs"],
 "All shapes, operators and matrix-wrapper kinds.",
 "Existing kernel tests sample a handful of shapes; but the helpers are pure functions of their arguments.",
 ["core_common.py", "tdvp_common.py", "matmul.py", "nullspace.py", "sexpmv.py"],
 [("kernels", "core_common.py: eps_*; tdvp_common.py: calc_C*, calc_Bs*; matmul.py: eyemat, simple_diag_matrix")])

prop("P20", "Compiled and GPU kernels agree with the reference kernels",
 "The optional compiled and graphics-processor kernels return the same values as the reference kernels for every input.",
 ["inputs", "configurations"],
 "All inputs for which an alternative kernel is selected.",
 "The alternatives are not built or importable in the test environment.",
 ["cuda_alternatives.py", "tdvp_calc_C.pyx", "allclose.pyx"],
 [("alternative kernels", "cuda_alternatives.py, *.pyx")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
