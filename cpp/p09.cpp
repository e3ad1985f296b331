// Circuits mapped into an error correcting code measure exactly what the original circuit measures.
#include "ecc.hpp"
using namespace eccmc;

struct Job {
    std::string code;
    int         n, nc;
    std::size_t f;
    std::string body;  // everything behind the registers
    bool        must;  // has to be accepted
    std::string key;
    // what a recorded defect does to this circuit, and its name: only exactly this deviation is attributed to it
    std::string alt, altKey;
};

int main(int argc, char** argv) {
    std::map<std::string, std::string> kv;
    mc::parseArgs(argc, argv, kv);
    const bool quick = kv["tier"] != "thorough";
    mc::opts().timeout = 120;

    auto check = [](const Job& j, mc::Rec& rec) {
        const auto  src = head(j.n, j.nc) + j.body;
        std::string out;
        rec.add("states");
        try {
            out = mapQasm(j.code, src, j.f);
        } catch (const Rejected& r) {
            rec.add("rejected");
            if (j.must) {
                rec.bad("a circuit of supported gates is rejected (" + r.what + ")", {{"code", j.code}, {"frequency", j.f}, {"circuit", src}}, j.key);
            }
            return;
        }
        long steps = 0;
        const auto a = run(src, j.nc);
        Dist       b;
        try {
            b = run(out, j.nc, &steps);
        } catch (const ParseError& e) {
            rec.bad(std::string("mapped circuit is not valid: ") + e.what(), {{"code", j.code}, {"frequency", j.f}, {"circuit", src}}, j.key);
            return;
        }
        rec.add("transitions", static_cast<mc::u64>(steps));
        rec.add("traces");
        if (!sameDist(a, b)) {
            if (!j.alt.empty() && sameDist(run(head(j.n, j.nc) + j.alt, j.nc), b)) {
                rec.bad("mapped circuit differs as recorded", {{"code", j.code}, {"frequency", j.f}, {"circuit", src}}, j.altKey);
                return;
            }
            rec.bad("measurement results of the mapped circuit differ: original " + show(a) + "mapped " + show(b), {{"code", j.code}, {"frequency", j.f}, {"circuit", src}}, j.key);
        }
    };
    auto go = [&](const std::string& part, const std::vector<Job>& js) {
        mc::explore(
                part, js.size(), [&](mc::u64 i, mc::Rec& rec) { check(js[i], rec); },
                [&](mc::u64 i) { return mc::json{{"code", js[i].code}, {"frequency", js[i].f}, {"circuit", head(js[i].n, js[i].nc) + js[i].body}}; });
    };
    struct C {
        std::string name, g1, g2;
        int         l1, l2; // sequence lengths, one / two qubits
    };
    // gates that the mappings offer
    const std::vector<C> codes = {
            {"Id", "x,y,z,h,s,sdg,t,tdg,id", "x,h,s,cx,cy,cz,ch,swap", 2, 2},
            {"Q3Shor", "x,y,z,s,sdg,t,tdg,id", "x,y,z,s,cx,cy,cz", 3, quick ? 2 : 3},
            {"Q5Laflamme", "x,y,z,id", "x,y,z", quick ? 4 : 5, quick ? 2 : 3},
            {"Q7Steane", "x,y,z,h,s,sdg,t,tdg,id", "x,h,s,cx,cy,cz", quick ? 3 : 4, quick ? 2 : 3},
            {"Q9Shor", "x,y,z,id", "x,y,z,cx", quick ? 4 : 5, quick ? 2 : 3},
            {"Q9Surface", "x,y,z,h,id", "x,y,z,h", quick ? 3 : 4, quick ? 1 : 2},
            {"Q18Surface", "x,y,z,h,id", "x,z,h", quick ? 2 : 4, quick ? 1 : 2},
    };
    auto surface = [](const std::string& s) { return s.find("Surface") != std::string::npos; };
    auto keyOf = [&](const C& c, std::size_t f, const Seq& s) {
        std::string k;
        for (auto& g : s) { k += (k.empty() ? "" : "_"); for (char ch : g) { if (ch != ' ' && ch != '[' && ch != ']') { k += ch; } } }
        return c.name + "/f" + std::to_string(f) + "/" + k;
    };
    for (auto& c : codes) {
        std::vector<Job> js;
        for (std::size_t f : {0, 1, 2, 3}) {
            for (auto& s : sequences(alphabet(c.g1, 1), 0, f > 0 && surface(c.name) ? std::min(c.l1, 3) : c.l1)) {
                js.push_back({c.name, 1, 1, f, text(s) + text(measureAll(1)), true, f > 0 && surface(c.name) ? keyOf(c, f, s) : ""});
            }
        }
        // phase sensitive: sequences between two basis changes
        if (c.name == "Id" || c.name == "Q7Steane") {
            for (std::size_t f : {0, 1, 2}) {
                for (auto& s : sequences(alphabet("x,y,z,h,s,sdg,t,tdg", 1), 2, quick && f > 0 ? 2 : 3)) {
                    js.push_back({c.name, 1, 1, f, "h q[0];\n" + text(s) + "h q[0];\n" + text(measureAll(1)), true, ""});
                }
            }
        }
        go("one-" + c.name, js);
    }
    for (auto& c : codes) {
        std::vector<Job> js;
        for (std::size_t f : {0, 1, 2}) {
            for (auto& s : sequences(alphabet(c.g2, 2), 0, f == 0 ? c.l2 : std::min(c.l2, quick ? 1 : 2))) {
                if (c.name == "Q18Surface" && text(s).find("h q[0]") != std::string::npos && text(s).find("h q[1]") != std::string::npos) { continue; } // state size
                js.push_back({c.name, 2, 2, f, text(s) + text(measureAll(2)), true, f > 0 && surface(c.name) ? keyOf(c, f, s) : ""});
            }
        }
        // entangled and phase sensitive circuits that are longer than the exhaustive bound
        const auto a2 = alphabet(c.g2, 2);
        auto       has = [&](const std::string& g) { return ("," + c.g2 + ",").find("," + g + ",") != std::string::npos; };
        if (has("h") && has("cx")) {
            for (const std::string pre : {"", "s q[1];\n", "s q[0];\n", "s q[0];\ns q[1];\n", "x q[0];\n", "s q[1];\nx q[1];\n"}) {
                for (auto& g : a2) {
                    for (const std::string post : {"h q[0];\n", "h q[1];\n", "h q[0];\nh q[1];\n", "s q[0];\nh q[0];\n", "s q[1];\nh q[1];\nh q[0];\n"}) {
                        js.push_back({c.name, 2, 2, 0, "h q[0];\nh q[1];\n" + pre + g + ";\n" + post + text(measureAll(2)), true, ""});
                    }
                }
            }
        }
        go("two-" + c.name, js);
    }
    // three qubits: a gate behind every set of flips, including idle qubits at any position
    for (auto& c : codes) {
        if (c.name == "Q18Surface" || (quick && (c.name == "Q9Shor" || c.name == "Q7Steane" || c.name == "Q9Surface"))) { continue; }
        std::vector<Job> js;
        auto             a = alphabet(c.name == "Q7Steane" ? "x,cx,cz" : c.name == "Q9Shor" ? "x,cx" : c.name == "Q9Surface" ? "x,z" : c.g2, 3);
        a.push_back("id q[0]");
        for (int m = 0; m < 8; m++) {
            Seq pre;
            for (int q = 0; q < 3; q++) { if (((m >> q) & 1) != 0) { pre.push_back("x q[" + std::to_string(q) + "]"); } }
            for (auto& g : a) {
                Seq s = pre;
                s.push_back(g);
                js.push_back({c.name, 3, 3, 0, text(s) + text(measureAll(3)), true, ""});
            }
        }
        go("three-" + c.name, js);
    }
    // idle qubits: every set of used qubits of a register of three, every assignment of the flips, only used ones measured
    for (auto& c : codes) {
        std::vector<Job> js;
        for (int used = 1; used < 8; used++) {
            for (int m = 0; m < 8; m++) {
                if ((m & ~used) != 0) { continue; }
                Seq s;
                for (int q = 0; q < 3; q++) {
                    if (((used >> q) & 1) != 0) { s.push_back((((m >> q) & 1) != 0 ? "x q[" : "z q[") + std::to_string(q) + "]"); }
                }
                Seq me;
                for (int q = 0; q < 3; q++) { if (((used >> q) & 1) != 0) { me.push_back("measure q[" + std::to_string(q) + "] -> c[" + std::to_string(q) + "]"); } }
                if ((c.name == "Q18Surface" && used >= 4) || (quick && c.name == "Q9Surface" && used >= 4)) { continue; }
                js.push_back({c.name, 3, 3, 0, text(s) + text(me), true, ""});
            }
        }
        go("idle-" + c.name, js);
    }
    // measurements: every wiring of up to two measurements into three classical bits, with barriers and identities in between,
    // both as single statements and as one whole-register statement
    for (auto& c : codes) {
        std::vector<Job> js;
        for (int m = 0; m < 4; m++) {
            Seq pre;
            for (int q = 0; q < 2; q++) { pre.push_back((((m >> q) & 1) != 0 ? "x q[" : "z q[") + std::to_string(q) + "]"); }
            for (const std::string sep : {"", "barrier q;\n", "id q[0];\n", "barrier q[1];\nid q[1];\n"}) {
                if (quick && c.name == "Q9Surface" && sep != "" && sep != "id q[0];\n") { continue; }
                for (int q1 = 0; q1 < 2; q1++) for (int c1 = 0; c1 < 3; c1++) {
                        const auto m1 = "measure q[" + std::to_string(q1) + "] -> c[" + std::to_string(c1) + "];\n";
                        js.push_back({c.name, 2, 3, 0, text(pre) + sep + m1, true, ""});
                        for (int q2 = 0; q2 < 2; q2++) for (int c2 = 0; c2 < 3; c2++) {
                                const auto m2 = "measure q[" + std::to_string(q2) + "] -> c[" + std::to_string(c2) + "];\n";
                                for (std::size_t f : {0, 1}) {
                                    if (f == 1 && quick && (c.name == "Q9Surface" || sep == "id q[0];\n" || c1 == 1)) { continue; }
                                    js.push_back({c.name, 2, 3, f, text(pre) + m1 + sep + m2, true, ""});
                                }
                            }
                    }
            }
            js.push_back({c.name, 2, 2, 0, text(pre) + "measure q -> c;\n", true, ""});
            js.push_back({c.name, 2, 2, 0, text(pre) + "barrier q;\nmeasure q -> c;\n", true, ""});
            js.push_back({c.name, 2, 2, 0, text(pre) + "measure q -> c;\nbarrier q;\n", true, ""});
            js.push_back({c.name, 2, 2, 0, text(pre), true, ""}); // nothing measured
        }
        go("measure-" + c.name, js);
    }
    // several classical registers
    for (auto& c : codes) {
        std::vector<Job> js;
        for (int m = 0; m < 4; m++) {
            for (int w = 0; w < 8; w++) {
                auto cb = [](int i) { return i == 0 ? std::string("c[0]") : i == 1 ? std::string("d[0]") : i == 2 ? std::string("d[1]") : std::string("e[0]"); };
                std::string b = "creg d[2];\ncreg e[1];\n";
                for (int q = 0; q < 2; q++) { b += (((m >> q) & 1) != 0 ? "x q[" : "z q[") + std::to_string(q) + "];\n"; }
                const int i = w % 4;
                const int k = (i + 1 + w / 4) % 4;
                b += "measure q[0] -> " + cb(i) + ";\nmeasure q[1] -> " + cb(k) + ";\n";
                js.push_back({c.name, 2, 1, 0, b, true, ""});
                js.back().nc = 1;
            }
        }
        mc::explore(
                "registers-" + c.name, js.size(), [&](mc::u64 i, mc::Rec& rec) {
                    auto j = js[i];
                    const auto src = head(j.n, 1) + j.body;
                    long steps = 0;
                    std::string out = mapQasm(j.code, src, 0);
                    const auto a = run(src, 4), b = run(out, 4, &steps);
                    rec.add("states");
                    rec.add("traces");
                    rec.add("transitions", static_cast<mc::u64>(steps));
                    if (!sameDist(a, b)) {
                        rec.bad("results in several classical registers differ: original " + show(a) + "mapped " + show(b), {{"code", j.code}, {"circuit", src}});
                    } },
                [&](mc::u64 i) { return mc::json{{"code", js[i].code}, {"circuit", head(2, 1) + js[i].body}}; });
    }
    // gates behind a measurement
    for (auto& c : codes) {
        std::vector<Job> js;
        const auto       a = alphabet(c.name == "Q9Shor" || c.name == "Q5Laflamme" ? "x,y,z" : surface(c.name) ? "x,z" : c.name == "Q3Shor" ? "x,z,s" : "x,z,h", 1);
        auto push = [&](int n, int nc, std::size_t f, const std::string& pre, const std::string& post) {
            Job j{c.name, n, nc, f, pre + post, true, "", "", ""};
            if (c.name == "Q5Laflamme") {
                j.alt    = pre + "reset q;\n" + post;
                j.altKey = "Q5Laflamme/reencode-resets";
            } else if (c.name == "Q7Steane" || surface(c.name)) {
                j.alt    = "creg junk[" + std::to_string(n) + "];\n" + pre + "measure q -> junk;\n" + post;
                j.altKey = c.name + "/decode-dephases";
            }
            js.push_back(j);
        };
        for (auto& p : sequences(a, 0, 2)) {
            for (auto& s : sequences(a, 1, 2)) {
                push(1, 2, 0, text(p) + "measure q[0] -> c[0];\n", text(s) + "measure q[0] -> c[1];\n");
            }
        }
        // other qubits keep their state
        for (int m = 0; m < (c.name == "Q7Steane" ? 9 : 4); m++) {
            Seq p;
            int v = m;
            for (int q = 0; q < 2; q++) {
                const int b = m < 4 ? (m >> q) & 1 : (q == 0 ? (m - 4) % 2 : 2 - (m - 4) % 3);
                p.push_back(std::string(b == 0 ? "z" : b == 1 ? "x" : "h") + " q[" + std::to_string(q) + "]");
            }
            for (auto& g : alphabet(line(p).find("h") != std::string::npos ? "h" : "x,z", 2)) {
                push(2, 3, 0, text(p) + "measure q[0] -> c[0];\n", g + ";\nmeasure q[0] -> c[1];\nmeasure q[1] -> c[2];\n");
            }
        }
        if (c.name == "Q18Surface") {
            for (const std::string p : {"z", "x"}) {
                js.push_back({c.name, 2, 3, 0, p + " q[0];\nh q[1];\nmeasure q[0] -> c[0];\nh q[1];\nmeasure q[0] -> c[1];\nmeasure q[1] -> c[2];\n", true, "Q18Surface/" + p + "q0_hq1_measureq0_hq1"});
            }
        }
        go("midcircuit-" + c.name, js);
    }
    mc::note("Q7Steane, frequency 2: h q[0]; t q[0]; h q[0]; measure -> distribution 0.853553/0.146447 in original and mapped circuit");
    mc::note("Q9Surface, frequency 0: h q[0]; z q[0]; h q[0]; measure q[0] -> c[0] gives 1 with probability 1");
    mc::note("Q3Shor: register of three, q[0] idle, x q[2]; measure q[1] -> c[1]; measure q[2] -> c[2]");
    return 0;
}
