"""Registry: what decides each property.  proofs: (module, function, args) run by the deductive engines; bounded: module."""
TRUST_IR = ["clang -O2 lowering of the real C++ templates to LLVM IR", "vf/ir.py, vf/vc.py (parser and verification-condition "
            "generator)", "z3 4.x", "floating point arithmetic treated as exact real arithmetic",
            "integer -> real conversion, sqrt as uninterpreted functions with the stated facts"]
CHECKS = {}
CHECKS["C01"] = dict(
    proofs=[("contracts.c01_ir", "task", (c, t)) for c in ("spin", "boson", "fermion", "spinful", "hcb") for t in ("u64", "u32")],
    bounded="c01", level="proof", trusted=TRUST_IR,
    technique="deductive verification (VCs from the LLVM IR of the real op() templates, loop invariants by Houdini, z3)",
    note="op() of all five general cores proved for every state, string and site list at 32 and 64 bit; Python dispatch, scaling by "
         "pauli, 1D cores and wide integers only by the bounded part",
    assumptions=["0 <= site < N (checked by the Python callers)", "sps^k does not overflow the state type (constructor choice of type)",
                 "division/remainder/multiplication by non-constants: uninterpreted with listed facts (boson, higher spin)"])
BND = "bounded stand-in (labelled bounded, not proof): contracts evaluated concretely on the rebuilt package against an independent "
CHECKS["C04"] = dict(proofs=[], bounded="c04", level="exploration", trusted=["bounded/oracle.py"],
    technique="contracts on the basis constructors evaluated on enumerated sectors (bounded stand-in for deductive verification)",
    note=BND + "projector oracle: about 4700 sectors of all bases", assumptions=[])
CHECKS["C06"] = dict(proofs=[], bounded="c06", level="exploration", trusted=["bounded/oracle.py"],
    technique="contracts on matrix construction evaluated on enumerated sectors (bounded stand-in for deductive verification)",
    note=BND + "Kronecker/Jordan-Wigner oracle: about 4700 sectors with random symmetric operators", assumptions=[])
CHECKS["C08"] = dict(proofs=[], bounded="c08", level="exploration", trusted=["bounded/oracle.py"],
    technique="contracts on the basis changes evaluated on enumerated sectors (bounded stand-in for deductive verification)",
    note=BND + "isometry oracle: about 4700 sectors", assumptions=[])
for _id, _mod, _what in (("C02", "c02", "symmetry maps of general and 1D bases, group orders, reference signs against index-level site maps"),
                         ("C03", "c03", "about 3400 particle sectors (all small ones, long chains with few particles or holes, more than 64 sites)"),
                         ("C05", "c05", "state <-> index <-> string conversions on about 4700 sectors"),
                         ("C07", "c07", "inplace_Op (flags, dtypes, layouts, v_out), Op_bra_ket, Op_shift_sector on about 4000 sectors"),
                         ("C09", "c09", "csr/csc/dia/dense matvecs on guarded buffers: all layouts, dtypes, index types, shapes, rejected arguments"),
                         ("C10", "c10", "sequences of hamiltonian arithmetic against plain matrices at several times, with operand snapshots"),
                         ("C11", "c11", "quantum_operator forms, actions, arithmetic and parameters against sums of component matrices"),
                         ("C12", "c12", "hamiltonian and quantum_LinearOperator actions, expectation values and elements against the matrix"),
                         ("C13", "c13", "evolved states against an independent integration of the equations of motion"),
                         ("C14", "c14", "partial traces and entropies of random pure and mixed, single and stacked, dense and sparse states on enumerated sectors"),
                         ("C15", "c15", "expanded_form, check_hermitian, check_pcon, check_symm against the dense matrices of random operator lists"),
                         ("C16", "c16", "Kronecker products of the factors' oracles: matrices, projectors, partial traces, entropies of tensor and photon bases"),
                         ("C17", "c17", "integer arithmetic of python on random words of every width, shape, mask and layout; python integer conversions"),
                         ("C18", "c18", "dense matrix exponentials: exp_op (grids, shifts, iterators, every operator form) and expm_multiply_parallel"),
                         ("C19", "c19", "measurements and tools: Lanczos/Krylov, FTLM/LTLM, diagonal ensembles, time-dependent observables, entropies, Floquet, projections"),
                         ("C20", "c20", "block decompositions: block_diag_hamiltonian, block_ops.evolve/expm for every number of processes, against the full space")):
    CHECKS[_id] = dict(proofs=[], bounded=_mod, level="exploration", trusted=["bounded/oracle.py"],
        technique="contracts evaluated on enumerated inputs (bounded stand-in for deductive verification)",
        note=BND + "oracle: " + _what, assumptions=[])
_DED = "deductive verification (VCs from the LLVM IR of the real templates, loop invariants by Houdini, z3/cvc5) + bounded stand-in for the rest"
CHECKS["C17"].update(
    proofs=[("contracts.c17_ir", "task", (t,)) for t in ("u32", "u64")], level="proof", trusted=TRUST_IR + ["bounded/oracle.py"], technique=_DED,
    note="bitwise_op/not/left_shift/right_shift loops proved for every array content, length, mask and exact aliasing at 32 and 64 bit; wide "
         "integers, the Cython dispatch and python_int conversions only by the bounded part (python integer arithmetic as oracle)",
    assumptions=["partially overlapping views of out and the inputs are excluded (precondition)", "array lengths below 2^60"])
CHECKS["C09"].update(
    proofs=[("contracts.c09_ir", "task", (f, t)) for f in ("csr", "csc") for t in ("d", "z")]
    + [("contracts.c09_ir", "task", ("dia", t, (k,))) for t in ("d", "z") for k in (False, True)],
    level="proof", trusted=TRUST_IR + ["cvc5", "bounded/oracle.py"], technique=_DED,
    note="serial csr/csc/dia matrix-vector kernels (contiguous and strided, real and complex double, 32-bit indices) proved for every matrix, "
         "vector and stride; multi-vector kernels, other dtypes, 64-bit indices, the Cython dispatch and rejected arguments only by the bounded part",
    assumptions=["the sparse format is valid (what scipy guarantees): monotone pointers, indices in range, |offset| and sizes below 2^30",
                 "x, y and the matrix arrays do not overlap; distinct elements of a strided y do not overlap",
                 "products of reals: commutative uninterpreted function (complex, dia) or exact real product"])
NA = {}
