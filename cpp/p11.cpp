// Gates an encoding cannot execute are rejected, never encoded into something else; layout of the mapped circuit.
#include "ecc.hpp"
using namespace eccmc;

struct Job {
    std::string code;
    int         n;
    std::size_t f;
    std::string pre, gate, post;
};

int main(int argc, char** argv) {
    std::map<std::string, std::string> kv;
    mc::parseArgs(argc, argv, kv);
    const bool quick = kv["tier"] != "thorough";
    mc::opts().timeout = 200;
    const std::vector<std::string> names = {"Id", "Q3Shor", "Q5Laflamme", "Q7Steane", "Q9Shor", "Q9Surface", "Q18Surface"};
    // one, two and three qubit gates of OpenQASM 2, classically controlled gates, resets
    const Seq one = {"x q[0]", "y q[0]", "z q[0]", "h q[0]", "s q[0]", "sdg q[0]", "t q[0]", "tdg q[0]", "sx q[0]", "sxdg q[0]", "rx(pi/4) q[0]", "ry(pi/4) q[0]", "rz(pi/8) q[0]",
                     "u1(pi/8) q[0]", "p(pi/8) q[0]", "u2(0,pi/4) q[0]", "u3(pi/4,pi/2,pi/8) q[0]", "rx(pi) q[0]", "reset q[0]", "u3(0,0,0) q[0]", "u1(pi/2) q[0]", "rz(pi/2) q[0]"};
    const Seq two = {"cx q[0],q[1]", "cx q[1],q[0]", "cy q[0],q[1]", "cz q[0],q[1]", "ch q[0],q[1]", "ch q[1],q[0]", "cs q[0],q[1]", "csdg q[0],q[1]", "ct q[0],q[1]", "csx q[0],q[1]", "swap q[0],q[1]",
                     "crx(pi/4) q[0],q[1]", "crz(pi/4) q[0],q[1]", "cu1(pi/2) q[0],q[1]", "cp(pi/4) q[0],q[1]", "cu3(pi/4,0,0) q[0],q[1]"};
    const Seq three = {"ccx q[0],q[1],q[2]", "ccx q[2],q[0],q[1]", "cswap q[0],q[1],q[2]", "ccz q[0],q[1],q[2]"};
    auto hOk = [](const std::string& c) { return c == "Id" || c == "Q7Steane"; };
    std::vector<Job> js;
    for (auto& c : names) {
        const bool sf = c.find("Surface") != std::string::npos;
        for (std::size_t f : {0, 1}) {
            for (auto& g : one) {
                for (const std::string pre : {"", "x q[0];\n"}) { js.push_back({c, 1, f, pre, g, ""}); }
                if (hOk(c)) {
                    for (const std::string pre : {"h q[0];\n", "h q[0];\ns q[0];\n", "h q[0];\nz q[0];\n"}) {
                        for (const std::string post : {"", "h q[0];\n", "s q[0];\nh q[0];\n"}) { js.push_back({c, 1, f, pre, g, post}); }
                    }
                }
            }
        }
        for (auto& g : two) {
            if (c == "Q9Shor" && (g.rfind("cy", 0) == 0 || g.rfind("cz", 0) == 0)) { continue; } // state size
            for (int m = 0; m < 4; m++) {
                if (sf && m != 1) { continue; }
                std::string pre;
                for (int q = 0; q < 2; q++) { if (((m >> q) & 1) != 0) { pre += "x q[" + std::to_string(q) + "];\n"; } }
                js.push_back({c, 2, 0, pre, g, ""});
            }
            if (hOk(c)) {
                for (const std::string pre : {"h q[0];\n", "h q[1];\n", "h q[0];\nh q[1];\n", "h q[0];\nh q[1];\ns q[1];\n", "h q[0];\nh q[1];\ns q[0];\n", "x q[0];\nh q[1];\nt q[1];\n"}) {
                    for (const std::string post : {"h q[0];\n", "h q[1];\n", "h q[0];\nh q[1];\n"}) { js.push_back({c, 2, 0, pre, g, post}); }
                }
            }
        }
        for (auto& g : three) {
            if (c == "Q9Shor") { continue; } // state size
            for (int m : {0, 3, 5, 7}) {
                if (sf && m != 3) { continue; }
                std::string pre;
                for (int q = 0; q < 3; q++) { if (((m >> q) & 1) != 0) { pre += "x q[" + std::to_string(q) + "];\n"; } }
                js.push_back({c, 3, 0, pre, g, ""});
            }
            if (c == "Id") { js.push_back({c, 3, 0, "h q[0];\nh q[1];\n", g, "h q[0];\nh q[1];\n"}); }
        }
    }
    mc::explore(
            "rejection", js.size(), [&](mc::u64 i, mc::Rec& rec) {
                const auto& j   = js[i];
                const auto  src = head(j.n, j.n) + j.pre + j.gate + ";\n" + j.post + text(measureAll(j.n));
                rec.add("states");
                {
                    auto               qc = std::make_shared<qc::QuantumComputation>();
                    std::istringstream is(src);
                    try {
                        qc->import(is, qc::Format::OpenQASM2);
                    } catch (const std::exception&) {
                        rec.add("not_importable");
                        return;
                    }
                }
                std::string out;
                try {
                    out = mapQasm(j.code, src, j.f);
                } catch (const Rejected& r) {
                    rec.add("rejected");
                    rec.add("traces");
                    if (r.what.empty()) {
                        rec.bad("rejection without a message", {{"code", j.code}, {"circuit", src}});
                    }
                    return;
                }
                long       steps = 0;
                const auto a     = run(src, j.n);
                const auto b     = run(out, j.n, &steps);
                rec.add("traces");
                rec.add("transitions", static_cast<mc::u64>(steps));
                if (!sameDist(a, b)) {
                    rec.bad("gate " + j.gate + " is neither rejected nor encoded correctly: original " + show(a) + "mapped " + show(b), {{"code", j.code}, {"frequency", j.f}, {"circuit", src}});
                } },
            [&](mc::u64 i) { return mc::json{{"code", js[i].code}, {"frequency", js[i].f}, {"circuit", head(js[i].n, js[i].n) + js[i].pre + js[i].gate + ";\n" + js[i].post}}; });
    // layout: every register size, used and idle qubits, classical registers
    struct L {
        std::string code;
        int         n;
        int         used; // mask
    };
    std::vector<L> ls;
    for (auto& c : names) {
        for (int n = 1; n <= (quick ? 3 : 5); n++) {
            for (int u = 1; u < (1 << n); u++) { ls.push_back({c, n, u}); }
        }
    }
    const std::map<std::string, std::pair<std::size_t, std::size_t>> dims = {{"Id", {1, 0}}, {"Q3Shor", {3, 2}}, {"Q5Laflamme", {5, 4}}, {"Q7Steane", {7, 3}}, {"Q9Shor", {9, 8}}, {"Q9Surface", {9, 8}}, {"Q18Surface", {36, 0}}};
    mc::explore(
            "layout", ls.size(), [&](mc::u64 i, mc::Rec& rec) {
                const auto& l = ls[i];
                std::string src = "OPENQASM 2.0;\ninclude \"qelib1.inc\";\nqreg q[" + std::to_string(l.n) + "];\ncreg first[1];\ncreg res[" + std::to_string(l.n) + "];\n";
                int top = 0;
                for (int q = 0; q < l.n; q++) {
                    if (((l.used >> q) & 1) != 0) {
                        src += "x q[" + std::to_string(q) + "];\nmeasure q[" + std::to_string(q) + "] -> res[" + std::to_string(q) + "];\n";
                        top = q + 1;
                    }
                }
                rec.add("states");
                rec.add("transitions", 3);
                rec.add("traces");
                auto               qc = std::make_shared<qc::QuantumComputation>();
                std::istringstream is(src);
                qc->import(is, qc::Format::OpenQASM2);
                std::ostringstream before;
                for (const auto& op : *qc) { op->dumpOpenQASM2(before, std::vector<std::pair<std::string, std::string>>(static_cast<std::size_t>(l.n), {"q", "q"}), std::vector<std::pair<std::string, std::string>>(static_cast<std::size_t>(l.n) + 1, {"c", "c"})); }
                const auto ops = qc->getNops();
                auto       m   = mapper(l.code, qc, 2);
                std::shared_ptr<qc::QuantumComputation> r;
                try {
                    r = m->apply();
                } catch (const qc::QFRException&) {
                    rec.add("rejected");
                    return;
                }
                auto bad = [&](const std::string& w) { rec.bad(w, {{"code", l.code}, {"circuit", src}}); };
                std::ostringstream after;
                for (const auto& op : *m->getOriginalCircuit()) { op->dumpOpenQASM2(after, std::vector<std::pair<std::string, std::string>>(static_cast<std::size_t>(l.n), {"q", "q"}), std::vector<std::pair<std::string, std::string>>(static_cast<std::size_t>(l.n) + 1, {"c", "c"})); }
                if (m->getOriginalCircuit()->getNops() != ops || before.str() != after.str()) { bad("mapping changes the gates of the original circuit"); }
                const auto n   = m->getOriginalCircuit()->getNqubits();
                const auto dim = dims.at(l.code);
                if (n < static_cast<std::size_t>(top) || n > static_cast<std::size_t>(l.n)) { bad("number of qubits of the original circuit is wrong"); }
                if (m->getNOutputQubits(1) < dim.first || r->getNqubits() != m->getNOutputQubits(n)) { bad("number of qubits of the mapped circuit is not the announced one"); }
                if (m->getMappedCircuit() != r) { bad("mapped circuit is not the returned one"); }
                const auto dq = m->getDataQubits();
                if (dq.size() != n * dim.first) { bad("wrong number of data qubits"); }
                for (std::size_t q = 0; q < dq.size(); ++q) { if (dq[q] != q) { bad("data qubits are not the leading qubits"); break; } }
                // own classical bits lead, under their own names
                std::ostringstream o;
                r->dump(o, qc::Format::OpenQASM2);
                const auto t = o.str();
                if (t.find("creg first[1];") == std::string::npos || t.find("creg res[" + std::to_string(l.n) + "];") == std::string::npos) { bad("classical registers of the circuit are missing in the mapped circuit"); }
                for (const auto& op : *r) {
                    for (const auto q : op->getUsedQubits()) { if (q >= r->getNqubits()) { bad("gate outside of the mapped circuit"); } }
                }
                if (m->getName().empty()) { bad("code without a name"); } },
            [&](mc::u64 i) { return mc::json{{"code", ls[i].code}, {"qubits", ls[i].n}, {"used", ls[i].used}}; });
    mc::note("Q7Steane: h q[0]; h q[1]; s q[1]; ch q[0],q[1]; h q[0] -> rejected");
    mc::note("Q3Shor: ccx q[0],q[1],q[2] on 110 -> encoded, measures 111");
    return 0;
}
