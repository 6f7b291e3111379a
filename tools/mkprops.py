#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the list stays consistent)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))
G = "quspin/basis/basis_general/_basis_general_core/source/"
D1 = "quspin/basis/basis_1d/_basis_1d_core/sources/"
p("C01", "Operator strings act on basis states as their defining local operators",
  "Applying an operator string with site indices to a product basis state yields exactly the state, matrix element and (for fermions) Jordan-Wigner sign of the ordered product of the named local operators, rightmost first, and a vanishing product gives no matrix element. This holds for spin-1/2, hard-core boson, boson, higher-spin, spinless- and spinful-fermion bases, for every state, string and site list. Unknown operator letters are rejected.",
  ["inputs"], "all basis states, all operator strings of any length, all site lists with sites in range, all chain lengths that fit the integer type, both one-dimensional and general bases",
  "tests multiply a few fixed strings on L<=8 chains and compare two implementations of this package with each other; strings x sites x states is unbounded and sign errors need particular occupation patterns",
  [G+"hcb_basis_core.h", G+"boson_basis_core.h", G+"higher_spin_basis_core.h", G+"spinless_fermion_basis_core.h", G+"spinful_fermion_basis_core.h", D1+"hcp_ops.pyx", D1+"boson_ops.pyx", D1+"spf_ops.pyx"],
  [("loop over the operator string, rightmost first", G+"*_basis_core.h: op()"), ("sign from number of occupied sites before the acted site", G+"spinless_fermion_basis_core.h: op()"), ("1d loop", D1+"{hcp,boson,spf}_ops.pyx: op_func")],
  ["basis.Op(opstr,indx,J,dtype)", "hamiltonian(...).toarray()"])
p("C02", "Symmetry transformations act on states as the declared site maps",
  "A symmetry transformation given as a site map moves the occupation of every site to its image, complements it where the map says so, and leaves the rest alone; the result is a valid state of the same chain. For fermions the accompanying sign is the parity of the reordering of the occupied modes. The built-in translation, reflection, inversion and sublattice maps of the one-dimensional bases obey the same rule.",
  ["inputs", "configurations"], "all basis states and all site permutations with sublattice/particle-hole flips, all chain lengths that fit the integer type",
  "tests exercise a handful of lattice maps on small systems and only through the resulting block dimensions",
  [G+"hcb_basis_core.h", G+"benes_perm.h", G+"boson_basis_core.h", G+"spinless_fermion_basis_core.h", G+"spinful_fermion_basis_core.h", D1+"hcp_bitops.pyx", D1+"boson_bitops.pyx", D1+"spf_bitops.pyx"],
  [("bit permutation network", G+"benes_perm.h: benes_bwd, gen_benes"), ("fermionic reordering sign", G+"spinless_fermion_basis_core.h: fermionic map sign"), ("1d shift / reflection / flips", D1+"*_bitops.pyx")],
  ["basis.representative", "basis.get_proj", "spectra of symmetry blocks"])
p("C03", "Particle-number sectors contain every state of the sector exactly once",
  "A basis restricted to given particle numbers (or magnetisation) contains every product state with those numbers exactly once, no other state, and in the documented decreasing integer order; its size equals the combinatorial dimension. This holds for hard-core, bosonic, higher-spin, spinless- and spinful-fermion bases.",
  ["inputs", "configurations"], "all chain lengths, all allowed particle numbers and lists of them, all local dimensions",
  "tests compare sizes of a few small sectors; a skipped or repeated successor state needs particular bit patterns",
  [G+"hcb_basis_core.h", G+"boson_basis_core.h", G+"spinful_fermion_basis_core.h", D1+"hcp_next_state.pyx", D1+"boson_next_state.pyx", D1+"spf_next_state.pyx", "quspin/basis/basis_general/base_general.py", "quspin/basis/basis_1d/base_1d.py"],
  [("successor function within a particle sector", G+"*_basis_core.h: next_state_pcon"), ("enumeration loops", G+"make_general_basis.h"), ("1d successor", D1+"*_next_state.pyx")],
  ["basis.states", "basis.Ns"])
p("C04", "Symmetry-reduced bases hold one normalised representative per surviving orbit",
  "A symmetry-reduced basis contains exactly one representative (the largest integer of its orbit) for every orbit whose projected state does not vanish in the requested symmetry sector, and no other state. The stored normalisation is the squared norm of the projected state, so the sectors' dimensions add up to the full dimension.",
  ["inputs", "configurations"], "all states, all sets of commuting symmetry maps and sector labels (general bases) and all combinations of translation, parity and inversion blocks (1d bases)",
  "tests sum block dimensions for a few lattices; orbits with accidental stabilisers or fermionic signs are rarely sampled",
  [G+"general_basis_core.h", G+"make_general_basis.h", D1+"checkstate.pyx", D1+"refstate.pyx", D1+"basis_templates.pyx"],
  [("orbit sum with characters", G+"general_basis_core.h: check_state, ref_state"), ("1d tests", D1+"checkstate.pyx"), ("1d representatives", D1+"refstate.pyx")],
  ["basis.states", "basis.Ns", "basis.normalization", "basis.representative"])
p("C05", "State lookup is the exact inverse of the basis listing",
  "For every basis, the index returned for a state is the position at which that state is listed, and looking up a state that is not in the basis reports that it is absent, never another state's index. Integer and string forms of a state convert into each other without loss.",
  ["inputs"], "all sorted basis listings of any length and with any block partition, all query states present or absent",
  "tests look up a few states of small bases; boundary positions, single-element blocks and absent states are not covered",
  [G+"general_basis_core.h", G+"general_basis_op.h", G+"general_basis_rep.h", D1+"refstate.pyx", "quspin/basis/lattice.py", "quspin/basis/basis_general/base_general.py", "quspin/basis/basis_1d/base_1d.py"],
  [("block-wise binary search", G+"general_basis_core.h: rep_position"), ("binary search", D1+"refstate.pyx: findzstate"), ("lookup", "quspin/basis/lattice.py: index, int_to_state, state_to_int")],
  ["basis.index", "basis.int_to_state", "basis.state_to_int"])
p("C06", "Sector matrices equal the projected full-space operator",
  "For an operator that respects the chosen symmetries and particle-number conservation, the matrix built in a symmetry sector equals the full-space matrix sandwiched between the sector's orthonormal symmetry states; without symmetries it equals the Kronecker-product matrix. Consequently it is Hermitian for Hermitian input, and the sector spectra together make up the full spectrum.",
  ["inputs", "configurations"], "all symmetric operators, all sectors, all basis families, one-dimensional and general, every supported data type",
  "tests compare one-dimensional with general bases (sharing conventions) on a few models; phases and norms enter only in sectors and orbits that are not sampled",
  [G+"general_basis_op.h", "quspin/basis/base.py", "quspin/basis/basis_general/base_general.py", "quspin/basis/basis_1d/base_1d.py", D1+"op_templates.pyx", "quspin/operators/_make_hamiltonian.py"],
  [("matrix elements column by column", G+"general_basis_op.h: general_op"), ("1d matrix elements with norm ratios and characters", D1+"op_templates.pyx"), ("assembly", "quspin/basis/base.py: _make_matrix")],
  ["hamiltonian(...).toarray()", "basis.Op"])
p("C07", "Matrix-free operator application agrees with the assembled matrix",
  "Applying an operator list directly to vectors, with any combination of the transpose and conjugate flags, scaling and accumulation into an output, gives the same result as multiplying by the assembled matrix. Evaluating it between given kets, or from one symmetry sector into another, gives the corresponding matrix elements.",
  ["inputs", "configurations"], "all operator lists, vectors, flag combinations, ket lists and pairs of sectors",
  "tests apply a few lists with default flags; the other branches and diagonal/off-diagonal special cases carry their own copies of the phase and norm algebra",
  [G+"general_basis_op.h", "quspin/basis/base.py", "quspin/basis/basis_general/base_general.py"],
  [("inplace application", G+"general_basis_op.h: general_inplace_op"), ("bra-ket elements", G+"general_basis_op.h: general_op_bra_ket"), ("sector shift", G+"general_basis_op.h: general_op_shift_sectors")],
  ["basis.inplace_Op", "basis.Op_bra_ket", "basis.Op_shift_sector"])
p("C08", "Basis changes between a symmetry sector and its parent space are isometries",
  "The projector of a sector has orthonormal columns equal to the normalised symmetry states; project_from, get_vec, project_to and get_proj (sparse or dense, into the full or the particle-conserving space) all describe this one isometry, and projecting up and back is the identity. Amplitudes computed for individual states agree with the projected vector.",
  ["inputs", "configurations"], "all sectors, all vectors (real or complex, single or several), sparse and dense paths, full and particle-conserving target",
  "tests cover get_vec for real sectors mostly; complex momentum sectors, pcon targets and the reverse projection are not exercised",
  [G+"general_basis_get_vec.h", G+"general_basis_get_amp.h", "quspin/basis/basis_general/base_general.py", "quspin/basis/basis_1d/base_1d.py"],
  [("recursive symmetrisation", G+"general_basis_get_vec.h: project_from/to"), ("amplitudes", G+"general_basis_get_amp.h"), ("projector", "base_general.py: get_proj, project_to, project_from")],
  ["basis.get_proj", "basis.project_from", "basis.project_to", "basis.get_vec", "basis.get_amp"])
p("C09", "Matrix-vector kernels compute y = aAx or y += aAx exactly as stated",
  "For CSR, CSC, DIA and dense matrices, single and multiple vectors, contiguous or strided, the kernels set y to a*A*x when overwriting and add a*A*x to y otherwise, for every shape and data type combination they accept. They read only the matrix and x, write only the addressed entries of y, and never access memory outside the arrays.",
  ["inputs", "configurations"], "all matrix structures (empty rows, duplicate entries, any diagonals), all shapes, strides, scalars and dtypes",
  "tests use random square matrices with contiguous vectors; rectangular, strided, F-ordered and accumulate variants are separate loops",
  ["quspin/tools/matvec/_oputils/csr.h", "quspin/tools/matvec/_oputils/csc.h", "quspin/tools/matvec/_oputils/dia.h", "quspin/tools/matvec/_oputils/utils.h", "quspin/tools/matvec/_oputils.pyx", "quspin/tools/matvec/matvec_core.py"],
  [("kernels", "quspin/tools/matvec/_oputils/*.h"), ("dispatch", "quspin/tools/matvec/_oputils.pyx"), ("public entry", "quspin/tools/matvec/matvec_core.py: matvec")],
  ["quspin.tools.misc.matvec", "get_matvec_function", "hamiltonian.dot"])
p("C10", "Hamiltonian arithmetic is matrix arithmetic at every time",
  "For Hamiltonians A and B with any mix of static and time-dependent parts and any storage formats, the objects produced by +, -, *, unary minus, scalar multiplication and division, powers, transpose, conjugate, adjoint, copy, type and format conversion and projections V^dagger H V evaluate at every time to the corresponding expression of the matrices A(t) and B(t). The in-place forms give the same result, and no operation other than an in-place one changes an operand.",
  ["inputs", "histories"], "all matrices, all driving functions with all argument tuples, all times, all sequences of arithmetic operations, all storage formats",
  "tests evaluate a few fixed sums and products; the result depends on which terms share a driving function, which storage formats meet and what was aliased earlier",
  ["quspin/operators/hamiltonian_core.py", "quspin/operators/_functions.py", "quspin/operators/_make_hamiltonian.py"],
  [("term-wise algebra over the dictionary of driving functions", "hamiltonian_core.py: _add_*, _sub_*, _mul_*, _imul_*, _rmul_*"), ("driving-function identity and products", "_functions.py")],
  ["hamiltonian.toarray(time)", "hamiltonian(t)"],
  [("_static/_dynamic", "H(t) = static + sum over dynamic of f(t)*M", "hamiltonian_core.py")])
p("C11", "Quantum operators are linear in their parameters",
  "A parameter-dependent operator evaluated with given parameters is the sum of its component matrices, each multiplied by its parameter (1 when the parameter is not given); its matrix forms, products with vectors, traces, diagonals, adjoints, sums, differences, scalings, format conversions and the Hamiltonian made from it all agree with that sum. Unknown parameters are rejected and operands are left unchanged.",
  ["inputs", "histories"], "all component sets, all parameter values, all sequences of operations",
  "tests use one or two components with particular values; defaulted parameters and operands that lack a component are separate branches",
  ["quspin/operators/quantum_operator_core.py"],
  [("parameter handling", "quantum_operator_core.py: _check_scalar_pars, tocsr, toarray, dot"), ("arithmetic", "quantum_operator_core.py: __iadd__, __isub__, __imul__")],
  ["quantum_operator.toarray(pars)", "quantum_operator.dot", "quantum_operator.tohamiltonian"])
p("C12", "Operator actions, expectation values and elements agree with the matrix",
  "Left and right multiplication of vectors and of stacks of vectors by a Hamiltonian or linear operator, expectation values, fluctuations, matrix elements, traces and diagonals equal what the operator's matrix at that time gives, for single times and lists of times, for kets and density matrices, with and without output arrays. The output array contract (overwrite or accumulate, scaled by a) is honoured.",
  ["inputs", "configurations"], "all operators, states, times, flags, scalings and output modes",
  "tests cover the default call; scaling, accumulation, time lists, density matrices and right multiplication are separate branches",
  ["quspin/operators/hamiltonian_core.py", "quspin/operators/quantum_LinearOperator_core.py"],
  [("dot / rdot / expt_value / quant_fluct / matrix_ele / trace / diagonal", "hamiltonian_core.py"), ("linear operator algebra", "quantum_LinearOperator_core.py")],
  ["hamiltonian.dot", "hamiltonian.rdot", "hamiltonian.expt_value", "quantum_LinearOperator.dot"])
p("C13", "Equations of motion handed to the integrators are the physical ones",
  "The right-hand side integrated for a Hamiltonian is -iH(t)psi for the Schroedinger equation (also when real and imaginary parts are stacked), -i[H(t),rho] for the Liouville-von Neumann equation and -H(t)psi in imaginary time, and states are returned in the caller's shape and units for scalar times, time lists and iterators alike.",
  ["inputs", "configurations"], "all Hamiltonians in all storage formats, all states or stacks of states, all times and integrator modes",
  "tests evolve a few CSR Hamiltonians; other storage formats, complex matrices and stacked modes reach different code",
  ["quspin/operators/hamiltonian_core.py", "quspin/tools/evolution.py"],
  [("right-hand sides", "hamiltonian_core.py: __SO, __SO_real, __ISO, __LO"), ("integration driver", "quspin/tools/evolution.py: evolve")],
  ["hamiltonian.evolve", "quspin.tools.evolution.evolve"])
p("C14", "Reduced density matrices and entropies follow from the right subsystem split",
  "Reshaping a state for a subsystem sends each basis amplitude to the entry addressed by the occupations on the chosen sites (in the order given) and on the remaining sites. Partial traces of pure or mixed, single or stacked, dense or sparse states are then the reduced density matrices, and the entropies are the von Neumann or Renyi entropies of their spectra.",
  ["inputs", "configurations"], "all states, all subsystems in any order, all chain lengths and local dimensions, pure and mixed, dense and sparse",
  "tests compare two code paths of the package on random states; both share the reshaping, and entropies are invariant under many index errors",
  ["quspin/basis/_reshape_subsys.py", "quspin/basis/_basis_utils.pyx", "quspin/basis/lattice.py", "quspin/basis/tensor.py"],
  [("site shuffle", "_basis_utils.pyx: _shuffle_sites, _reduce_transpose"), ("partial traces", "_reshape_subsys.py"), ("entropies", "lattice.py: _ent_entropy")],
  ["basis.partial_trace", "basis.ent_entropy"])
p("C15", "Input checks accept compatible operator lists and only those",
  "An operator list accepted by the Hermiticity, particle-conservation (bases of one particle number) or symmetry check denotes an operator that is Hermitian, conserves the restricted particle numbers, or commutes with the symmetries. Conversely a list that contains each term's conjugate (or image under each symmetry) with the right coupling is accepted, where couplings of repeated terms add up and factors on different sites may be reordered. The expanded form of a list denotes the same operator.",
  ["inputs"], "all static and dynamic operator lists for all basis families",
  "tests build valid Hamiltonians; few invalid ones are tried, and reordering signs matter only for strings with several fermionic factors",
  ["quspin/basis/base.py", "quspin/basis/basis_1d/_check_1d_symm.py", "quspin/basis/basis_1d/_check_1d_symm_spf.py", "quspin/basis/basis_general/base_general.py", "quspin/basis/basis_1d/fermion.py", "quspin/basis/basis_1d/spin.py", "quspin/basis/basis_general/fermion.py"],
  [("conjugate, sort, expand, consolidate", "basis/*: _hc_opstr, _sort_opstr, _expand_opstr, _consolidate_local_lists"), ("checks", "base.py: check_hermitian, check_symm, check_pcon")],
  ["basis.check_hermitian", "basis.check_symm", "basis.check_pcon", "basis.expanded_form"])
p("C16", "Product bases order and combine their factors consistently",
  "In a tensor-product or particle-photon basis the state index is left index times right dimension plus right index, operator strings split at the bar act on their own factor, and matrices, projections, lookups and partial traces all use this one convention. With total-excitation conservation exactly the states of the requested total number are kept.",
  ["inputs", "configurations"], "all factor bases (including nested products), all operator strings, all states",
  "tests use two or three small factors; asymmetric factor sizes and empty factors are special-cased in the code",
  ["quspin/basis/tensor.py", "quspin/basis/photon.py"],
  [("index arithmetic of Op", "tensor.py: Op, index"), ("projection", "tensor.py: get_proj, project_from"), ("conserving photon basis", "photon.py")],
  ["tensor_basis.Op", "tensor_basis.index", "photon_basis.Op"])
p("C17", "Bitwise operations on basis-state integers are exact elementwise operations",
  "The bitwise and/or/xor/not/shift functions on arrays of basis-state integers compute the exact result for every element selected by the mask, leave the other output elements untouched, and never modify their inputs, for every integer width.",
  ["inputs"], "all arrays, masks, shift amounts and integer widths",
  "tests compare a few random arrays without masks of partial selection",
  [G+"general_basis_bitops.h", "quspin/basis/basis_general/_basis_general_core/general_basis_utils.pyx"],
  [("elementwise loops", G+"general_basis_bitops.h"), ("dispatch", "general_basis_utils.pyx")],
  ["quspin.basis.bitwise_and/or/xor/not/leftshift/rightshift"])
p("C18", "Exponential action equals the matrix exponential",
  "Applying the parallel exponential of a sparse matrix to a vector, and applying, right-applying or sandwiching with an exponential operator, give exp(aA) times the input (respectively its transpose-side and similarity forms) within the stated tolerance, over whole grids as well as for single values, and leave A and (unless asked) the input unchanged.",
  ["inputs", "configurations"], "all square matrices, scalars a, vectors, grids and modes",
  "tests use a few random matrices and a=1 or -i dt; adaptivity depends on norms that are not sampled",
  ["quspin/tools/expm_multiply_parallel_core/expm_multiply_parallel_core.py", "quspin/tools/expm_multiply_parallel_core/source/expm_multiply_parallel_impl.h", "quspin/operators/exp_op_core.py"],
  [("truncated Taylor steps", "expm_multiply_parallel_core/source"), ("grid iteration", "exp_op_core.py")],
  ["expm_multiply_parallel.dot", "exp_op.dot", "exp_op.rdot", "exp_op.sandwich"])
p("C19", "Krylov and ensemble routines return what they claim to precision",
  "Lanczos bases are orthonormal and tridiagonalise the operator, Lanczos exponentials, FTLM/LTLM traces, diagonal-ensemble and Floquet quantities equal their defining expressions within floating-point tolerance.",
  ["inputs"], "all operators and starting vectors",
  "tests check a few random matrices",
  ["quspin/tools/lanczos/_lanczos_utils.py", "quspin/tools/measurements.py", "quspin/tools/Floquet.py"],
  [("Lanczos recursion", "quspin/tools/lanczos/_lanczos_utils.py"), ("diagonal ensemble", "quspin/tools/measurements.py")],
  ["lanczos_full", "diag_ensemble", "Floquet"])
p("C20", "Block decomposition tools reproduce the undecomposed evolution",
  "Block-diagonal Hamiltonians assembled from symmetry sectors, and evolution or exponentiation through symmetry blocks, equal the same operation in the full space, independent of the number of worker processes and of the order in which they finish.",
  ["inputs", "schedules"], "all block lists, states, worker counts and interleavings",
  "tests use two processes and compare once",
  ["quspin/tools/block_tools.py"],
  [("parallel generator and summation", "quspin/tools/block_tools.py: _generate_parallel, block_ops.evolve/expm")],
  ["block_ops.evolve", "block_ops.expm", "block_diag_hamiltonian"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
