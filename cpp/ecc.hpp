// Common parts of the checks of the circuit mapping (error correction framework).
#pragma once
#include "mc.hpp"
#include "qsim.hpp"
#include "ecc/Id.hpp"
#include "ecc/Q18Surface.hpp"
#include "ecc/Q3Shor.hpp"
#include "ecc/Q5Laflamme.hpp"
#include "ecc/Q7Steane.hpp"
#include "ecc/Q9Shor.hpp"
#include "ecc/Q9Surface.hpp"

#include <functional>
#include <iostream>
namespace eccmc {
using namespace qsim;
using Seq = std::vector<std::string>;

inline std::unique_ptr<ecc::Ecc> mapper(const std::string& name, std::shared_ptr<qc::QuantumComputation> qc, std::size_t f) {
    if (name == "Id") { return std::make_unique<ecc::Id>(qc, f); }
    if (name == "Q3Shor") { return std::make_unique<ecc::Q3Shor>(qc, f); }
    if (name == "Q5Laflamme") { return std::make_unique<ecc::Q5Laflamme>(qc, f); }
    if (name == "Q7Steane") { return std::make_unique<ecc::Q7Steane>(qc, f); }
    if (name == "Q9Shor") { return std::make_unique<ecc::Q9Shor>(qc, f); }
    if (name == "Q9Surface") { return std::make_unique<ecc::Q9Surface>(qc, f); }
    if (name == "Q18Surface") { return std::make_unique<ecc::Q18Surface>(qc, f); }
    throw std::runtime_error("unknown code");
}
struct Rejected {
    std::string what;
};
inline std::string mapQasm(const std::string& name, const std::string& qasm, std::size_t f) {
    auto               qc = std::make_shared<qc::QuantumComputation>();
    std::istringstream is(qasm);
    qc->import(is, qc::Format::OpenQASM2);
    auto m = mapper(name, qc, f);
    try {
        auto               r = m->apply();
        std::ostringstream o;
        r->dump(o, qc::Format::OpenQASM2);
        return o.str();
    } catch (const qc::QFRException& e) {
        throw Rejected{e.what()};
    }
}
inline std::string head(int n, int nc) {
    return "OPENQASM 2.0;\ninclude \"qelib1.inc\";\nqreg q[" + std::to_string(n) + "];\ncreg c[" + std::to_string(nc) + "];\n";
}
inline std::string text(const Seq& s) {
    std::string t;
    for (auto& g : s) { t += g + ";\n"; }
    return t;
}
inline std::string line(const Seq& s) {
    std::string t;
    for (auto& g : s) { t += (t.empty() ? "" : "; ") + g; }
    return t;
}
inline Seq alphabet(const std::string& gates, int n) {
    Seq                out;
    std::istringstream gs(gates);
    std::string        g;
    auto               q = [](int a) { return "q[" + std::to_string(a) + "]"; };
    while (std::getline(gs, g, ',')) {
        if (g == "ccx" || g == "cswap") {
            for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (int c = 0; c < n; c++) {
                        if (a < b && a != c && b != c) { out.push_back(g + " " + q(a) + "," + q(b) + "," + q(c)); }
                    }
        } else if (g[0] == 'c' || g == "swap") {
            for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (a != b && (g != "swap" || a < b)) { out.push_back(g + " " + q(a) + "," + q(b)); }
        } else {
            for (int a = 0; a < n; a++) { out.push_back(g + " " + q(a)); }
        }
    }
    return out;
}
inline std::vector<Seq> sequences(const Seq& alpha, int lo, int hi) {
    std::vector<Seq>              out;
    std::function<void(const Seq&)> go = [&](const Seq& s) {
        if (static_cast<int>(s.size()) >= lo) { out.push_back(s); }
        if (static_cast<int>(s.size()) < hi) {
            for (auto& g : alpha) {
                Seq t = s;
                t.push_back(g);
                go(t);
            }
        }
    };
    go({});
    return out;
}
inline Seq measureAll(int n) {
    Seq s;
    for (int i = 0; i < n; i++) { s.push_back("measure q[" + std::to_string(i) + "] -> c[" + std::to_string(i) + "]"); }
    return s;
}
// number of classical bits of the original circuit = leading classical bits of the mapped one
inline Dist run(const std::string& qasm, int nc, long* steps = nullptr) {
    Sim  s;
    auto d = s.dist(parse(qasm), nc);
    if (steps != nullptr) { *steps += s.steps; }
    return d;
}
} // namespace eccmc
