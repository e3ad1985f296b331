// Single faults between gates are corrected: the mapped circuit with one injected Pauli error still measures what the
// original circuit measures. Injection points are found by comparing mappings of a circuit and of its extensions.
#include "ecc.hpp"
using namespace eccmc;

struct Job {
    std::string code;
    int         n;
    std::size_t f;
    Seq         body;
    std::string paulis; // kinds of errors the code corrects
    int         faults; // number of simultaneous faults, in different blocks
};
static bool same(const Instr& a, const Instr& b) {
    return a.name == b.name && a.ctrl == b.ctrl && a.neg == b.neg && a.tgt == b.tgt && a.cbit == b.cbit && a.creg == b.creg && a.cval == b.cval;
}

int main(int argc, char** argv) {
    std::map<std::string, std::string> kv;
    mc::parseArgs(argc, argv, kv);
    const bool quick = kv["tier"] != "thorough";
    mc::opts().timeout = 200;

    struct C {
        std::string name, gates, gates2, paulis;
        int         phys; // data qubits of a block
        int         l1, l2;
    };
    const std::vector<C> codes = {
            {"Q3Shor", "x,z,s,y", "x,z,cx,cz", "x", 3, quick ? 2 : 3, quick ? 2 : 2},
            {"Q5Laflamme", "x,y,z", "x,z", "xyz", 5, quick ? 1 : 2, quick ? 0 : 1},
            {"Q7Steane", "x,y,z,h,s,sdg", "x,h,cx,cy,cz", "xyz", 7, 2, 1},
            {"Q9Shor", "x,y,z", "x,z,cx", "xyz", 9, quick ? 1 : 2, 1},
            {"Q9Surface", "x,y,z", "x,z", "xyz", 9, quick ? 1 : 2, quick ? 0 : 1},
            {"Q18Surface", "x,z", "x", "xz", 36, 1, 0},
    };
    // points of the mapped circuit of `body` + measurement at which the first k gates are finished and the code word is idle
    auto mapped = [](const std::string& code, int n, std::size_t f, const Seq& s) { return parse(mapQasm(code, head(n, n) + text(s), f)); };
    auto point  = [&](const std::string& code, int n, std::size_t f, const Seq& prefix, const Circ& whole) {
        std::size_t best = whole.ins.size();
        for (const std::string g : {"x", "z", "y"}) {
            for (int q = 0; q < n; q++) {
                Seq s = prefix;
                s.push_back(g + " q[" + std::to_string(q) + "]");
                auto me = measureAll(n);
                s.insert(s.end(), me.begin(), me.end());
                Circ c;
                try {
                    c = mapped(code, n, f, s);
                } catch (const Rejected&) {
                    continue;
                }
                std::size_t k = 0;
                while (k < c.ins.size() && k < whole.ins.size() && same(c.ins[k], whole.ins[k])) { k++; }
                best = std::min(best, k);
            }
        }
        return best;
    };
    for (auto& c : codes) {
        std::vector<Job> js;
        for (int n = 1; n <= 2; n++) {
            const int l = n == 1 ? c.l1 : c.l2;
            for (std::size_t f : {0, 1, 2}) {
                if (n == 2 && (f == 2 || (quick && f == 1))) { continue; }
                if (c.name == "Q18Surface" && f > 0) { continue; }
                for (auto& s : sequences(alphabet(n == 1 ? c.gates : c.gates2, n), 0, l)) { js.push_back({c.name, n, f, s, c.paulis, 1}); }
            }
        }
        if (c.name == "Q7Steane") { // superpositions and phases
            for (const std::string m : {"", "s q[0]", "z q[0]", "x q[0]", "sdg q[0]", "y q[0]"}) {
                for (std::size_t f : {0, 1}) {
                    Seq s{"h q[0]"};
                    if (!m.empty()) { s.push_back(m); }
                    s.push_back("h q[0]");
                    js.push_back({c.name, 1, f, s, c.paulis, 1});
                }
            }
        }
        mc::explore(
                "fault-" + c.name, js.size(), [&](mc::u64 i, mc::Rec& rec) {
                    const auto& j    = js[i];
                    Seq         full = j.body;
                    auto        me   = measureAll(j.n);
                    full.insert(full.end(), me.begin(), me.end());
                    const auto  src   = head(j.n, j.n) + text(full);
                    const auto  want  = run(src, j.n);
                    const Circ  whole = mapped(j.code, j.n, j.f, full);
                    std::size_t last  = whole.ins.size() + 1;
                    for (std::size_t k = 0; k <= j.body.size(); ++k) {
                        const auto at = point(j.code, j.n, j.f, Seq(j.body.begin(), j.body.begin() + static_cast<long>(k)), whole);
                        if (at == last) { continue; }
                        last = at;
                        // data qubits of the blocks
                        for (int p = 0; p < c.phys * j.n; ++p) {
                            if (quick && j.n == 2 && (j.code == "Q9Shor" || j.code == "Q9Surface") && p >= c.phys && p % 3 != 0) { continue; }
                            for (char e : j.paulis) {
                                Circ  bad = whole;
                                Instr in;
                                in.name = std::string(1, e);
                                in.tgt  = {p};
                                bad.ins.insert(bad.ins.begin() + static_cast<long>(at), in);
                                Sim        s;
                                const auto got = s.dist(bad, j.n);
                                rec.add("states");
                                rec.add("traces");
                                rec.add("transitions", static_cast<mc::u64>(s.steps));
                                if (!sameDist(want, got)) {
                                    rec.bad("error " + in.name + " on qubit " + std::to_string(p) + " behind " + std::to_string(k) + " gates changes the results from " + show(want) + "to " + show(got),
                                            {{"code", j.code}, {"frequency", j.f}, {"circuit", src}, {"instruction", at}});
                                }
                            }
                        }
                    } },
                [&](mc::u64 i) { return mc::json{{"code", js[i].code}, {"frequency", js[i].f}, {"circuit", line(js[i].body)}}; });
    }
    // one fault per block and, with a correction behind every gate, one fault per interval between corrections
    for (auto& c : codes) {
        if (c.name == "Q18Surface") { continue; }
        std::vector<Job> js;
        for (auto& s : sequences(alphabet(c.name == "Q7Steane" ? "x,h" : "x,z", 1), 1, quick ? 1 : 2)) { js.push_back({c.name, 1, 1, s, c.paulis, 2}); }
        if (c.name != "Q9Surface" || !quick) { js.push_back({c.name, 2, 0, Seq{"x q[0]", "z q[1]"}, c.paulis, 2}); }
        if (c.name == "Q7Steane") { js.push_back({c.name, 1, 1, Seq{"h q[0]", "h q[0]"}, c.paulis, 2}); }
        mc::explore(
                "double-" + c.name, js.size(), [&](mc::u64 i, mc::Rec& rec) {
                    const auto& j    = js[i];
                    Seq         full = j.body;
                    auto        me   = measureAll(j.n);
                    full.insert(full.end(), me.begin(), me.end());
                    const auto src   = head(j.n, j.n) + text(full);
                    const auto want  = run(src, j.n);
                    const Circ whole = mapped(j.code, j.n, j.f, full);
                    std::vector<std::size_t> at;
                    for (std::size_t k = 0; k <= j.body.size(); ++k) {
                        const auto a = point(j.code, j.n, j.f, Seq(j.body.begin(), j.body.begin() + static_cast<long>(k)), whole);
                        if (at.empty() || at.back() != a) { at.push_back(a); }
                    }
                    auto inject = [&](std::vector<std::tuple<std::size_t, int, char>> es) {
                        std::sort(es.begin(), es.end(), [](auto& a, auto& b) { return std::get<0>(a) > std::get<0>(b); });
                        Circ bad = whole;
                        for (auto& [pos, q, e] : es) {
                            Instr in;
                            in.name = std::string(1, e);
                            in.tgt  = {q};
                            bad.ins.insert(bad.ins.begin() + static_cast<long>(pos), in);
                        }
                        Sim        s;
                        const auto got = s.dist(bad, j.n);
                        rec.add("states");
                        rec.add("traces");
                        rec.add("transitions", static_cast<mc::u64>(s.steps));
                        if (!sameDist(want, got)) {
                            mc::json l = mc::json::array();
                            for (auto& [pos, q, e] : es) { l.push_back(std::string(1, e) + " on " + std::to_string(q) + " at " + std::to_string(pos)); }
                            rec.bad("errors " + l.dump() + " change the results from " + show(want) + "to " + show(got), {{"code", j.code}, {"frequency", j.f}, {"circuit", src}});
                        }
                    };
                    if (j.n == 1) {
                        // consecutive intervals
                        for (std::size_t k = 0; k + 1 < at.size(); ++k) {
                            for (int p = 0; p < c.phys; ++p) for (int q = 0; q < c.phys; ++q) {
                                    for (char e : j.paulis) for (char g : j.paulis) {
                                            if (quick && c.phys > 5 && (p + 2 * q) % 3 != 0) { continue; }
                                            inject({{at[k], p, e}, {at[k + 1], q, g}});
                                        }
                                }
                        }
                    } else {
                        for (std::size_t k = 0; k < at.size(); ++k) {
                            for (int p = 0; p < c.phys; ++p) for (int q = 0; q < c.phys; ++q) {
                                    for (char e : j.paulis) for (char g : j.paulis) {
                                            if (quick && (p + 2 * q) % 3 != 0) { continue; }
                                            if (quick && e == 'y' && g == 'y' && c.phys > 5) { continue; }
                                            inject({{at[k], 2 * p, e}, {at[k], 2 * q + 1, g}});
                                        }
                                }
                        }
                    } },
                [&](mc::u64 i) { return mc::json{{"code", js[i].code}, {"frequency", js[i].f}, {"circuit", line(js[i].body)}}; });
    }
    mc::note("Q7Steane, frequency 1: h q[0]; z q[0]; h q[0]; every X, Y and Z on each of 7 qubits in each of 4 intervals");
    mc::note("Q3Shor, two qubits: x q[0]; cx q[0],q[1]; X error on qubit 0 behind the encoding spreads to one qubit of each block");
    return 0;
}
