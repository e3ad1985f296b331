"""Code / Tanner graph: syndromes, stabilizer membership, adjacency, construction from files. Exploration: cpp/p06.cpp"""
import cppcheck

cppcheck.define(
    globals(), "p06", "core_mc",
    'all matrices with <=4 columns and <=3 rows, all orthogonal pairs with <=3 qubits, all X and Z errors, 3 file layouts',
    assumes=[],
    thorough_bounds='as quick with <=5 columns, pairs <=4 qubits',
    tmp=True)
