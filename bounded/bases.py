"""Construct package bases from plain descriptions, together with the oracle system that specifies them."""
import warnings
import numpy as np
from bounded.oracle import Sys
warnings.simplefilter("ignore")


def general(kind, N, sps=2, pauli=1, blocks=None, **kw):
    """blocks: {name: (map, q)}"""
    from quspin.basis import (spin_basis_general, boson_basis_general, spinless_fermion_basis_general,
                              spinful_fermion_basis_general)
    blocks = {k: (np.array(m), q) for k, (m, q) in (blocks or {}).items()}
    if kind == "spin12":
        return spin_basis_general(N, pauli=pauli, **kw, **blocks)
    if kind == "hcb":
        return boson_basis_general(N, sps=2, **kw, **blocks)
    if kind == "boson":
        return boson_basis_general(N, sps=sps, **kw, **blocks)
    if kind == "spin":
        return spin_basis_general(N, S=spin_name(sps), pauli=False, **kw, **blocks)
    if kind == "fermion":
        return spinless_fermion_basis_general(N, **kw, **blocks)
    if kind == "spinful":
        return spinful_fermion_basis_general(N, **kw, **blocks)
    raise KeyError(kind)


def spin_name(sps):
    return f"{sps - 1}/2" if sps % 2 == 0 else str((sps - 1) // 2)


def one_d(kind, L, sps=2, pauli=1, **kw):
    from quspin.basis import (spin_basis_1d, boson_basis_1d, spinless_fermion_basis_1d, spinful_fermion_basis_1d)
    if kind == "spin12":
        return spin_basis_1d(L, pauli=pauli, **kw)
    if kind == "hcb":
        return boson_basis_1d(L, sps=2, **kw)
    if kind == "boson":
        return boson_basis_1d(L, sps=sps, **kw)
    if kind == "spin":
        return spin_basis_1d(L, S=spin_name(sps), pauli=False, **kw)
    if kind == "fermion":
        return spinless_fermion_basis_1d(L, **kw)
    if kind == "spinful":
        return spinful_fermion_basis_1d(L, **kw)
    raise KeyError(kind)


def system(kind, N, sps=2, pauli=1):
    if kind == "spinful":
        return Sys("fermion", 2 * N)
    if kind == "fermion":
        return Sys("fermion", N)
    return Sys(kind, N, sps if kind in ("boson", "spin") else 2, pauli)


LETTERS = {"spin12": "Ixyzn+-", "hcb": "Ixyzn+-", "boson": "Izn+-", "spin": "Iz+-", "fermion": "Izn+-", "spinful": "Izn+-"}
PKEY = {"spin12": "Nup", "spin": "Nup", "hcb": "Nb", "boson": "Nb", "fermion": "Nf", "spinful": "Nf"}
