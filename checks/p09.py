"""Mapped circuits measure what the original circuit measures. Exploration: cpp/p09.cpp"""
import cppcheck

cppcheck.define(
    globals(), "p09", "ecc",
    "codes Id, Q3Shor, Q5Laflamme, Q7Steane, Q9Shor, Q9Surface, Q18Surface; all sequences of their gates on one qubit up to length 2-4 with "
    "correction frequencies 0,1,2,3; all sequences of 2-3 gates between two H (Id, Q7Steane); all sequences on two qubits up to length 1-2 plus phase sensitive entangling circuits; three qubits; every set "
    "of idle qubits of a register of three; every wiring of up to two measurements with barriers and identities; several classical registers; gates "
    "behind measurements. All measurement and reset outcomes of the mapped circuit are followed exactly (no sampling)",
    assumes=["the state vector simulator of cpp/qsim.hpp (same semantics for original and mapped circuit), OpenQASM import and export of mqt-core",
             "Q9Shor's controlled Y and Z and Q18Surface H on both of two qubits are outside the bound (state size)"],
    thorough_bounds="as quick with sequences one gate longer, three-qubit circuits for all codes but Q18Surface, full measurement wirings")
