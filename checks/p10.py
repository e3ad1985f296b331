"""Single errors between correction steps never change a logical measurement. Exploration: cpp/p10.cpp"""
import cppcheck

cppcheck.define(
    globals(), "p10", "ecc",
    "codes Q3Shor (bit flips), Q5Laflamme, Q7Steane, Q9Shor, Q9Surface (all Paulis), Q18Surface (X and Z); circuits of up to 2 gates on one qubit and 1 on two, "
    "correction frequencies 1 and 2 (two qubits: 1 on thorough); one Pauli error of every kind on every data qubit of every block at every gate boundary that a correction "
    "step follows; two simultaneous errors in different blocks or different correction rounds (quick: a fixed third of the pairs (p+2q)%3=0 for blocks of more than 5 qubits). "
    "All measurement outcomes are followed exactly",
    assumes=["gate boundaries of the mapped circuit are found as the longest common prefix of the mappings of a circuit and its extensions"],
    thorough_bounds="as quick with one gate more per sequence and all positions and pairs")
