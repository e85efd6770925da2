#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    assert statement.count(". ") <= 2, id
    P.append(d)

TN = "acetn/ipeps/tensor_network.py"; ST = "acetn/ipeps/site_tensor.py"; IP = "acetn/ipeps/ipeps.py"
CFG = "acetn/ipeps/ipeps_config.py"; DM = "acetn/renormalization/directional_mover.py"
PR = "acetn/renormalization/projectors.py"; CT = "acetn/renormalization/ctmrg.py"
RD = "acetn/measurement/rdm.py"; ME = "acetn/measurement/measure.py"; GA = "acetn/evolution/gate.py"
EV = "acetn/evolution/evolve.py"; FU = "acetn/evolution/full_update.py"; FF = "acetn/evolution/fast_full_update.py"
SU = "acetn/evolution/simple_update.py"; LT = "acetn/evolution/lambda_tensors.py"
TU = "acetn/evolution/tensor_update.py"; AL = "acetn/evolution/als_solver.py"; PM = "acetn/model/pauli_matrix.py"
DI = "acetn/utils/distributed.py"

p("C01", "The periodic unit cell has every site and every bond exactly once",
  "For every unit-cell size nx by ny the network has exactly one site tensor per cell coordinate, and one horizontal and one vertical bond starting at every site and no others. "
  "Each bond joins its first site to the site one step right (direction 2) or one step up (direction 1) with periodic wrapping, also in cells of width or height 1.",
  ["configurations"], "all nx >= 1, ny >= 1", "Tests only count the 8 bonds of one 2x2 cell; a wrapping or direction error at other sizes is invisible.",
  [TN, "acetn/ipeps/bond.py"], [("bond and site enumeration", TN + ":build_bond_list/build_site_list"), ("bond value object", "acetn/ipeps/bond.py:Bond")],
  ["site list and bond list of a constructed network"])
p("C02", "Networks, copies and gate sets never share state",
  "Changing one network (assigning a site or its tensors, re-initialising, loading, renormalising, evolving, changing its boundary dimension or its model) leaves the tensors, dimensions and model of every other network, of every copy of it and of the caller's configuration unchanged (a model class registered under an explicitly chosen name is shared by that name). "
  "Tensors stored in a network are its own: later in-place changes to the tensors handed in, or to those of a copy, do not reach it. Gates built for one evolution do not appear in or alter another.",
  ["histories"], "all pairs of networks and all sequences of public operations on one of them", "Tests use one network at a time and never look at a second one after a change.",
  [TN, ST, GA, IP, CFG], [("per-instance site map", TN + ":__init__"), ("clone on assignment", ST + ":__setitem__"), ("per-instance gate map", GA + ":__init__")],
  ["tensors of the other network after the operation"], [("_tensor_network", "site -> site tensor", TN), ("_gate", "site or bond -> gate", GA)])
p("C03", "Copy, conversion and save/load reproduce the network exactly",
  "Copying a network or site tensor, converting its dtype or device, constructing a network from another one, and saving then loading it each yield, at every site, the same site tensor and the same four corner and four edge tensors in the same positions, in the requested dtype and on the requested device, with the same sites and bonds. "
  "Saving or copying does not change the source network.",
  ["inputs", "histories"], "all cell sizes, tensors, dtypes and environment shapes", "Tests compare only the site tensors of one 2x2 network, not corners, edges, order, dtype or side effects.",
  [TN, ST], [("copy/to/save/load", TN), ("site tensor copy", ST + ":copy_from/to/copy")], ["tensors after the round trip"])
p("C04", "Initial product state and initial environment",
  "Initialising a network gives every site a site tensor of norm one that is proportional to the requested site state on the all-zero bond component plus noise entries in [0, 0.01], with bond and physical legs of the configured sizes. "
  "Its four corner and four edge tensors are the normalised contractions of that tensor with its conjugate over the legs that point out of the corner or edge, each open leg pair in the orientation all later contractions assume; the first index of a pair belongs to the tensor and the second to its conjugate.",
  ["inputs", "configurations"], "all bond and physical dimensions, site states (real or complex), noise draws and cell sizes", "Tests check only shapes at one size.",
  [ST, TN], [("site initialisation", ST + ":initialize_site_tensor"), ("environment initialisation", ST + ":initialize_corner_tensors/initialize_edge_tensors")],
  ["site, corner and edge tensors of a fresh network"])
p("C05", "A directional move absorbs exactly one row or column correctly",
  "A left, up, right or down move at a column (row) replaces, at every site of the neighbouring column (row) on the inner side, the two corners and the one edge facing the absorbed side by the norm-one contraction of the absorbed column's corners, edges and site tensors with the projector pairs of the two cuts they cross. "
  "All projectors are computed from the four sites around their cut in the state before the move; nothing else in the network changes. This holds with periodic wrapping for every unit cell size.",
  ["inputs", "configurations"], "all cell sizes including 1, all columns/rows, all tensors and boundary dimensions, real and complex", "Tests run moves on 2x2 cells, where (i+1)%2 equals (i-1)%2, and compare only against reference energies.",
  [DM, ST], [("moves", DM + ":left_move/up_move/right_move/down_move"), ("projector sites", DM + ":calculate_*_projectors"), ("boundary update", DM + ":renormalize_boundary")],
  ["corner and edge tensors before and after a move"])
p("C06", "A renormalization performs complete sweeps and leaves the state alone",
  "Each renormalization performs exactly the configured number of sweeps, and each sweep absorbs every column once from the left and once from the right and every row once from above and once from below, successive absorptions from one side taking neighbouring columns (rows) in the direction of that move. "
  "Site tensors, the site list and the bond list are never changed by it.",
  ["configurations", "histories"], "all cell sizes and numbers of steps", "Convergence tests on 2x2 cells pass even when a row is skipped in larger cells.",
  [CT, IP, DM], [("sweep loop", CT + ":ctmrg")], ["sequence of moves; site tensors before and after"])
p("C07", "Projectors realise the optimal truncation of the cut",
  "For every cut the two projectors inserted between the two halves of the environment give the truncated singular value decomposition of their product, and contracted with each other across the cut they give the identity up to a common positive factor. "
  "The kept dimension is the number of singular values above the cutoff relative to the largest, but at most the configured boundary dimension. Half-system and full-system variants contract exactly the two or four quarters around the cut, and the randomized variants give the same kept subspace as the full-rank ones whenever the randomized decomposition is exact.",
  ["inputs", "configurations"], "all site tensors and environments, real and complex, all bond and boundary dimensions, directions and cutoffs", "Tests compare shapes and one real-valued 2x2 example within loose tolerances.",
  [PR], [("quarter tensors", PR + ":make_quarter_tensor"), ("projectors", PR + ":calculate_half_system/calculate_full_system/calculate_projectors")],
  ["projector pair for a set of four site tensors"])
p("C08", "Randomized SVD returns a valid decomposition of the given matrix",
  "For every real or complex matrix the randomized decomposition returns U and V with orthonormal columns and non-negative non-increasing singular values, at most min(q, m, n) of them, with U diag(S) V^H equal to the matrix projected on the computed range, hence equal to the matrix when its rank does not exceed q. "
  "The range comes from (A A^H)^niter A applied to a random matrix, and the fused versions for products of two and four matrices decompose the product they are given, identically to the plain version for equal random draws. Inputs are not modified.",
  ["inputs"], "all matrix shapes, ranks, dtypes, q and niter", "Tests sample a few sizes with fixed low-rank structure.",
  ["acetn/linalg/svd_lowrank.py", "acetn/linalg/fused_matmul_svd_lowrank.py", "acetn/linalg/fused_3matmul_svd_lowrank.py"],
  [("range finder and projection", "acetn/linalg/svd_lowrank.py:svd_lowrank"), ("fused versions", "acetn/linalg/fused_*.py")], ["returned U, S, V"])
p("C09", "Reduced density matrices equal the full environment contraction",
  "The reduced density matrix of a site or of a bond equals the complete contraction of the corners and edges around it with the site tensors and their conjugates, bra indices first and the bond's first site before its second, for every bond direction. "
  "Block-wise and direct evaluation of bond density matrices agree exactly, and computing them changes nothing.",
  ["inputs", "configurations"], "all tensors, real and complex, all dimensions (different at every boundary leg), all sites, bonds and directions", "Tests compare two evaluation orders on one random real example.",
  [RD], [("site contraction", RD + ":build_site_rdm"), ("bond contraction", RD + ":build_bond_rdm and cores")], ["density matrices"])
p("C10", "Measured energy and averages count every site and bond once",
  "The measured energy is the sum of all one-site energies over all sites and all two-site energies over all bonds of the unit cell divided by the number of sites. "
  "Every one-site observable is averaged over all sites with that site's own operator, and every two-site observable over all bonds with that bond's own operator; a model without one-site terms or observables is measured without them.",
  ["configurations", "inputs"], "all cell sizes and all models with site- and bond-dependent terms and any set of observables", "Tests check final energies of uniform models on 2x2 cells.",
  [ME], [("accumulation and averaging", ME + ":measure/calculate_one_site_measurements/calculate_two_site_measurements")], ["returned dictionary"])
p("C11", "Expectation values are normalised traces of operator times state",
  "The expectation value of an operator on a site or bond is the real part of the trace of the operator applied to the ket physical indices of the density matrix, divided by the trace of the density matrix. "
  "It is therefore linear in the operator, equal to one for the identity, independent of the scale of any tensor, and correctly oriented for complex and non-symmetric operators and for two different sites.",
  ["inputs"], "all density matrices and operators, real and complex, any physical dimension", "Tests only measure real symmetric operators.",
  [ME], [("trace formulas", ME + ":measure_one_site/measure_two_site"), ("normalisation", ME + ":measure_site_energy/measure_bond_energy and observables")], ["measured values"])
p("C12", "Trotter gates exponentiate the whole Hamiltonian exactly once",
  "Each bond gate is exp(-tau h) of that bond's generator, reshaped with the first site's indices before the second's, and the generators of all bonds sum to the full Hamiltonian of the unit cell: every two-site term once and every one-site term once in total, also when only some sites have one. "
  "Building gates changes neither the model's own operators nor previously built gates.",
  ["inputs", "configurations"], "all Hamiltonians (real or complex, bond and site dependent), time steps, cell sizes", "Tests evolve two uniform models only and never compare gates with the Hamiltonian.",
  [GA], [("gate construction", GA + ":build_two_site_gates/calculate_gate")], ["gates; operators returned by the model"])
p("C13", "The simple update applies the gate with truncation and restores bond weights",
  "A simple-update step on a bond weighs both site tensors with the weights of their other bonds, applies the bond's gate, truncates the result to the bond dimension by its singular value decomposition, gives the square root of the kept, normalised singular values to both sides and as new weight of this bond, and removes the other weights again. "
  "Without truncation the pair of tensors therefore represents exactly the gate applied to the old pair, up to a positive factor. Only the two site tensors and this bond's weight change.",
  ["inputs", "configurations"], "all tensors, weights, gates, dimensions, bond directions and cell sizes", "Tests only look at the final energy of a symmetric model, which most leg mix-ups leave nearly unchanged.",
  [SU, LT, TU], [("bond step", SU + ":bond_update"), ("weights", LT + ":absorb/strip/get")], ["site tensors and weights before and after"])
p("C14", "Full update: exact reduction, correct norm environment and local effect",
  "For a bond in any direction, splitting both site tensors into an isometric and a reduced part and recombining them is exact, and the norm environment used for the reduced problem is the contraction of all surrounding corners, edges and isometric parts with their conjugates, blocked and direct evaluation alike. "
  "The gate acts on the physical indices of the two reduced tensors in site order, and the new site tensors have norm one, keep their leg order and shape, and are the only site tensors changed.",
  ["inputs", "configurations"], "all tensors, real and complex, bond/physical/boundary dimensions (also physical larger than bond squared), directions and cell sizes", "Tests compare blocked and direct contraction for one random example and a final energy.",
  [FU, TU, FF], [("reduction", TU + ":decompose_site_tensors/recompose_site_tensors/permute_bond_tensors"), ("norm environment", FU + ":build_norm_tensor and cores"), ("update", FU + ":tensor_update/update_reduced_tensors")],
  ["reduced tensors, norm tensor, updated site tensors"])
p("C15", "Positive approximation and gauge fixing do not change the update problem",
  "The positive approximation returns a square root of the norm environment, which is left unchanged when its smallest eigenvalue reaches the cutoff and otherwise shifted by a non-negative multiple of the identity that makes it positive. "
  "Gauge fixing transforms the norm environment and the target consistently, so that the overlap of any pair with the target and the norm of any pair are preserved, and transforming the solution back with the returned inverses undoes it.",
  ["inputs"], "all Hermitian norm environments, targets, cutoffs and dimensions, real and complex", "No test looks at either step.",
  [FU], [("positive approximation", FU + ":positive_approx"), ("gauge fixing", FU + ":gauge_fix"), ("composition", FU + ":precondition_norm_tensor/finalize_reduced_tensors")], ["square root, transformed norm tensor and target"])
p("C16", "ALS steps solve their normal equations and stop as configured",
  "Each half step of the alternating solver returns the solution of the regularised normal equations for one reduced tensor with the current other one held fixed, for both linear-solver methods, starting from the truncated singular value decomposition of the target. "
  "The quantity used for convergence is the squared distance to the target up to a constant, the iteration alternates first and second tensor and stops after the configured maximum or once the relative change falls below the tolerance after at least three rounds, and the inputs are left unmodified.",
  ["inputs", "configurations"], "all norm environments, targets, shapes, iteration limits, tolerances and regularisations, real and complex", "Tests solve one random problem per method and look at the final error.",
  [AL], [("half steps", AL + ":solve_a1r/solve_a2r/solve_ar"), ("normal equations", AL + ":build_*"), ("cost", AL + ":calculate_cost"), ("loop", AL + ":solve_torch")], ["solver result and intermediate tensors"])
p("C17", "Balancing the reduced tensors preserves their product",
  "After a full update the two reduced tensors are rebalanced so that their contraction over the shared bond is unchanged up to a positive factor, after undoing the gauge transformation when one was applied. "
  "Both carry the same singular-value weights on the shared bond, and the bond dimension and leg order stay the same.",
  ["inputs"], "all reduced tensors and dimensions with the gauge fix on or off, real and complex", "No test looks at this step; a wrong leg order shows up only for asymmetric tensors.",
  [FU], [("balancing", FU + ":finalize_reduced_tensors")], ["product of the two reduced tensors"])
p("C18", "Evolution updates every bond once per step and refreshes both sides",
  "An evolution of a given number of steps applies to every bond of the unit cell exactly one update per step, with that bond's own gate, in bond order on one step and in reversed order on the next. "
  "In the full scheme every update is followed by absorbing the changed column (row) pair from the two opposite sides along the bond before the next update; the environment is renormalised before and after the evolution. The product state of the model is only set up when no state was given, loaded or evolved before.",
  ["histories", "configurations"], "all step counts, cell sizes, bond directions, schemes and call histories", "Tests check energies after many steps, which tolerate skipped bonds and stale environments.",
  [EV, FF, IP], [("loop", EV + ":evolve"), ("absorption", FF + ":absorb_bond"), ("driver", IP + ":evolve")], ["sequence of bond updates and moves"])
p("C19", "Distributed runs compute what a single process computes",
  "For any number of processes, every cell size and both pairs of directions, a distributed pair of opposite moves gives every process the same tensors as performing both moves in one process with projectors taken from the state before them, and all processes take part in the same collective operations. "
  "A distributed bond update leaves every process with the tensors computed by the first process. With half-system projectors a whole distributed run therefore equals the single-process run.",
  ["configurations", "schedules"], "all world sizes >= 2 (also odd, and larger than the cell), cell sizes and ranks", "No test runs more than one process.",
  [DM, DI, FF], [("distributed moves", DM + ":left_right_move_dist/up_down_move_dist"), ("gather", DI + ":all_gather_tensor"), ("broadcast", FF + ":bond_update")], ["tensors on every rank"])
p("C20", "Pauli algebra and built-in models give the documented operators",
  "Products, sums, differences, negation, scaling and division of Pauli matrices give the matrices of the corresponding operators, Kronecker products in site order, without changing their operands; in real dtypes every product with an even number of Y factors equals the true operator. "
  "The built-in Ising and Heisenberg models give exactly their documented Hamiltonians, observables and initial states at every site and bond with the configured parameters, and bond directions are named after the bond's direction code.",
  ["inputs", "programs"], "all expressions over Pauli matrices, all dtypes, parameters, sites and bonds", "Tests check single operations on single matrices in one real dtype.",
  [PM, "acetn/model/models/ising.py", "acetn/model/models/heisenberg.py", "acetn/model/model.py"], [("operators", PM + ":PauliMatrix"), ("models", "acetn/model/models")], ["matrices"])
p("C21", "Configuration options have their documented defaults and take effect",
  "Every documented option defaults to its documented value when omitted, is used with the value given (also after later changes of boundary dimension, model or model parameters through the public methods), and reaches the step it documents. "
  "Unknown options, projector types, update schemes and model names are rejected, and unavailable devices or backends fall back as documented.",
  ["configurations"], "all combinations of given and omitted options", "Tests construct a handful of configurations and never look at which value an algorithm step received.",
  [CFG, IP, PR, EV, AL, FU, "acetn/model/model_factory.py"], [("config dataclasses", CFG), ("consumers", PR + ":ProjectorCalculator.__init__, " + AL + ":ALSSolver.__init__, " + FU + ":FullUpdater.__init__")], ["values reaching the numerical routines"])
p("C22", "Shapes, matching boundary dimensions, dtype and norm are invariants",
  "After any sequence of initialisation, moves, renormalisation and evolution, every site tensor has shape (D, D, D, D, d), every corner and edge tensor has norm one and at most max(chi, initial) boundary indices, and boundary legs that later contractions join have equal dimensions. "
  "All of them have the configured dtype and device.",
  ["histories", "configurations"], "all sequences of public operations, cell sizes, dimensions and dtypes", "Tests look at shapes after one operation at one size.",
  [ST, DM, TU, SU, FF], [("assignment converts dtype/device", ST + ":__setitem__"), ("normalisation", DM + ":renormalize_*")], ["shapes, dtypes and norms of all tensors"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
open(out, "w").write("".join(json.dumps(d) + "\n" for d in P))
print(len(P), "properties")
