"""Gates a code cannot perform are rejected; size of the mapped circuit. Exploration: cpp/p11.cpp"""
import cppcheck

cppcheck.define(
    globals(), "p11", "ecc",
    "every code x every gate of OpenQASM 2 / mqt-core with up to two controls on every wiring of 1-3 qubits, alone and behind other gates: either rejected "
    "with an exception, or the mapped circuit measures the same distribution in every Pauli frame of a phase sensitive test circuit; number of physical qubits and classical bits of the mapped "
    "circuit for every register of up to 3 (thorough 5) qubits",
    assumes=["unobservable: phases Q3Shor accumulates (its T gates are physical)"])
