// Exact simulator for the OpenQASM 2 text that the circuit mapper emits: sparse state vector, every
// measurement / reset outcome with non-zero probability is followed as a separate branch.
#pragma once
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdint>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>
namespace qsim {
using Q  = unsigned __int128; // up to 128 qubits
using C  = std::complex<double>;
struct Instr {
    std::string      name; // gate name without leading c's
    std::vector<int> ctrl;
    std::vector<int> neg; // negative control flags
    std::vector<int> tgt;
    int              cbit = -1;   // for measure
    int              creg = -1;   // classical control register (-1: unconditional)
    uint64_t         cval = 0;
    std::vector<C>   mat; // name == "mat": row-major 2x2 matrix
};
struct Circ {
    int                                nq = 0, nc = 0;
    std::vector<std::string>           cregName;
    std::vector<std::pair<int, int>>   creg; // start, size
    std::vector<Instr>                 ins;
    std::vector<int>                   insLine;
};
struct ParseError : std::runtime_error { using std::runtime_error::runtime_error; };
inline std::string trim(const std::string& s) {
    size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n");
    return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
inline Circ parse(const std::string& text) {
    Circ c;
    std::map<std::string, std::pair<int, int>> qr, cr;
    std::istringstream is(text);
    std::string line;
    auto qbits = [&](std::string op) -> std::vector<int> {
        op = trim(op);
        auto b = op.find('[');
        if (b == std::string::npos) {
            auto it = qr.find(op);
            if (it == qr.end()) throw ParseError("qreg " + op);
            std::vector<int> r;
            for (int i = 0; i < it->second.second; i++) r.push_back(it->second.first + i);
            return r;
        }
        auto it = qr.find(trim(op.substr(0, b)));
        if (it == qr.end()) throw ParseError("qreg " + op);
        int i = std::stoi(op.substr(b + 1));
        if (i >= it->second.second) throw ParseError("qubit index out of range " + op);
        return {it->second.first + i};
    };
    auto cbits = [&](std::string op) -> std::vector<int> {
        op = trim(op);
        auto b = op.find('[');
        auto it = cr.find(trim(op.substr(0, b)));
        if (it == cr.end()) throw ParseError("creg " + op);
        if (b == std::string::npos) {
            std::vector<int> r;
            for (int i = 0; i < it->second.second; i++) r.push_back(it->second.first + i);
            return r;
        }
        int i = std::stoi(op.substr(b + 1));
        if (i >= it->second.second) throw ParseError("clbit index out of range " + op);
        return {it->second.first + i};
    };
    int lineNo = 0;
    while (std::getline(is, line)) {
        lineNo++;
        auto cm = line.find("//");
        if (cm != std::string::npos) line = line.substr(0, cm);
        std::istringstream parts(line);
        std::string st;
        while (std::getline(parts, st, ';')) {
            st = trim(st);
            if (st.empty() || st == "}" || st.rfind("gate ", 0) == 0 || st.rfind("opaque", 0) == 0 || st.rfind("OPENQASM", 0) == 0 || st.rfind("include", 0) == 0) continue;
            if (st.rfind("qreg", 0) == 0 || st.rfind("creg", 0) == 0) {
                auto b = st.find('['), e = st.find(']');
                std::string nm = trim(st.substr(4, b - 4));
                int sz = std::stoi(st.substr(b + 1, e - b - 1));
                if (st[0] == 'q') { if (qr.count(nm)) throw ParseError("duplicate qreg"); qr[nm] = {c.nq, sz}; c.nq += sz; }
                else { if (cr.count(nm)) throw ParseError("duplicate creg"); cr[nm] = {c.nc, sz}; c.cregName.push_back(nm); c.creg.push_back({c.nc, sz}); c.nc += sz; }
                continue;
            }
            Instr in;
            if (st.rfind("if", 0) == 0) {
                auto a = st.find('('), b = st.find(')'), eq = st.find("==");
                std::string rn = trim(st.substr(a + 1, eq - a - 1));
                in.cval = std::stoull(st.substr(eq + 2, b - eq - 2));
                in.creg = -1;
                for (size_t i = 0; i < c.cregName.size(); i++) if (c.cregName[i] == rn) in.creg = (int)i;
                if (in.creg < 0) throw ParseError("if on unknown creg " + rn);
                st = trim(st.substr(b + 1));
            }
            if (st.rfind("measure", 0) == 0) {
                auto ar = st.find("->");
                auto qs = qbits(st.substr(7, ar - 7));
                auto cs = cbits(st.substr(ar + 2));
                if (qs.size() != cs.size()) throw ParseError("measure size mismatch: " + st);
                for (size_t i = 0; i < qs.size(); i++) { Instr m = in; m.name = "measure"; m.tgt = {qs[i]}; m.cbit = cs[i]; c.ins.push_back(m); c.insLine.push_back(lineNo); }
                continue;
            }
            // strip ctrl @ / negctrl @ style prefixes
            while (true) {
                if (st.rfind("ctrl", 0) == 0 || st.rfind("negctrl", 0) == 0) {
                    bool ng = st[0] == 'n';
                    auto at = st.find('@');
                    int k = 1;
                    auto p = st.find('(');
                    if (p != std::string::npos && p < at) k = std::stoi(st.substr(p + 1));
                    for (int i = 0; i < k; i++) in.neg.push_back(ng);
                    st = trim(st.substr(at + 1));
                } else break;
            }
            auto sp = st.find_first_of(" \t");
            {
                const auto lp = st.find('(');
                if (lp != std::string::npos && lp < sp) sp = st.find(')', lp) + 1;
            }
            std::string g = st.substr(0, sp), ops = sp == std::string::npos ? "" : st.substr(sp);
            {
                const auto lp = g.find('(');
                if (lp != std::string::npos) { // phase gates by multiples of pi/4
                    std::string base = g.substr(0, lp), ang = g.substr(lp + 1, g.size() - lp - 2);
                    size_t      nc_  = 0;
                    while (base.size() > 1 && base[0] == 'c') { base = base.substr(1); nc_++; }
                    std::vector<double> par;
                    {
                        std::istringstream ps(ang);
                        std::string        a1;
                        while (std::getline(ps, a1, ',')) {
                            a1 = trim(a1);
                            double sg = 1, v = 0;
                            if (!a1.empty() && a1[0] == '-') { sg = -1; a1 = a1.substr(1); }
                            const auto pi = a1.find("pi");
                            if (pi == std::string::npos) v = std::stod(a1);
                            else {
                                v = M_PI;
                                if (pi > 0) v *= std::stod(a1.substr(0, pi));
                                if (a1.size() > pi + 2) { const double d = std::stod(a1.substr(pi + 3)); v = a1[pi + 2] == '/' ? v / d : v * d; }
                            }
                            par.push_back(sg * v);
                        }
                    }
                    const C I(0, 1);
                    auto    u3 = [&](double t, double f, double l) { return std::vector<C>{std::cos(t / 2), -std::exp(I * l) * std::sin(t / 2), std::exp(I * f) * std::sin(t / 2), std::exp(I * (f + l)) * std::cos(t / 2)}; };
                    if (base == "rx") in.mat = {std::cos(par.at(0) / 2), -I * std::sin(par[0] / 2), -I * std::sin(par[0] / 2), std::cos(par[0] / 2)};
                    else if (base == "ry") in.mat = {std::cos(par.at(0) / 2), -std::sin(par[0] / 2), std::sin(par[0] / 2), std::cos(par[0] / 2)};
                    else if (base == "rz") in.mat = {std::exp(-I * (par.at(0) / 2)), 0, 0, std::exp(I * (par[0] / 2))};
                    else if (base == "p" || base == "u1") in.mat = {1, 0, 0, std::exp(I * par.at(0))};
                    else if (base == "u2") in.mat = u3(M_PI / 2, par.at(0), par.at(1));
                    else if (base == "u3" || base == "u" || base == "U") in.mat = u3(par.at(0), par.at(1), par.at(2));
                    else throw ParseError("unsupported gate in output: " + st);
                    g = std::string(nc_, 'c') + "mat";
                    if ((base == "p" || base == "u1") && std::abs(par[0] / (M_PI / 4) - std::round(par[0] / (M_PI / 4))) < 1e-9) {
                    const long k = std::lround(par[0] / (M_PI / 4));
                    in.mat.clear();
                    static const char* nm[] = {"id", "t", "s", "st", "z", "zt", "sdg", "tdg"};
                    g = std::string(nc_, 'c') + nm[((k % 8) + 8) % 8];
                    }
                }
            }
            if (g == "barrier") continue;
            std::vector<std::vector<int>> args;
            std::istringstream as(ops);
            std::string a;
            while (std::getline(as, a, ',')) args.push_back(qbits(a));
            if (g == "reset") {
                for (auto& v : args) for (int q : v) { Instr r = in; r.name = "reset"; r.tgt = {q}; c.ins.push_back(r); c.insLine.push_back(lineNo); }
                continue;
            }
            size_t nctrl = in.neg.size();
            while (g.size() > 1 && g[0] == 'c') { g = g.substr(1); in.neg.push_back(0); nctrl++; }
            static const std::vector<std::string> known = {"x", "y", "z", "h", "s", "sdg", "t", "tdg", "st", "zt", "id", "i", "swap", "mat", "sx", "sxdg", "v", "vdg"};
            if (std::find(known.begin(), known.end(), g) == known.end()) throw ParseError("unsupported gate in output: " + st);
            size_t nt = g == "swap" ? 2 : 1;
            if (args.size() != nctrl + nt) {
                throw ParseError("wrong number of operands: " + st);
            }
            // broadcast over registers
            size_t width = 1;
            for (auto& v : args) width = std::max(width, v.size());
            for (size_t w = 0; w < width; w++) {
                Instr r = in; r.name = g;
                if (g == "sx" || g == "v") { r.name = "mat"; r.mat = {C(.5, .5), C(.5, -.5), C(.5, -.5), C(.5, .5)}; }
                if (g == "sxdg" || g == "vdg") { r.name = "mat"; r.mat = {C(.5, -.5), C(.5, .5), C(.5, .5), C(.5, -.5)}; }
                for (size_t i = 0; i < args.size(); i++) {
                    int q = args[i].size() == 1 ? args[i][0] : args[i].at(w);
                    if (i < nctrl) r.ctrl.push_back(q); else r.tgt.push_back(q);
                }
                c.ins.push_back(r);
                c.insLine.push_back(lineNo);
            }
        }
    }
    return c;
}
struct KeyHash { size_t operator()(const Q& k) const { uint64_t a = (uint64_t)k, b = (uint64_t)(k >> 64); a ^= b * 0x9E3779B97F4A7C15ULL; a ^= a >> 29; a *= 0xBF58476D1CE4E5B9ULL; a ^= a >> 32; return a; } };
struct State {
    std::vector<std::pair<Q, C>> amp; // unsorted, unique keys
    std::vector<char> cb;
    double prob = 1.0;
};
using Dist = std::map<std::string, double>;
struct Sim {
    long branches = 0, steps = 0;
    static constexpr double EPS = 1e-10;
    static void gate1(State& s, const Instr& in) {
        const std::string& g = in.name;
        Q cm = 0, cv = 0;
        for (size_t i = 0; i < in.ctrl.size(); i++) { cm |= (Q)1 << in.ctrl[i]; if (!in.neg[i]) cv |= (Q)1 << in.ctrl[i]; }
        Q t = (Q)1 << in.tgt[0];
        const double r2 = std::sqrt(0.5);
        if (g == "x") { for (auto& a : s.amp) if ((a.first & cm) == cv) a.first ^= t; }
        else if (g == "swap") { Q u = (Q)1 << in.tgt[1]; for (auto& a : s.amp) if ((a.first & cm) == cv) { bool p = (a.first & t) != 0, q = (a.first & u) != 0; if (p != q) a.first ^= t | u; } }
        else if (g == "y") { for (auto& a : s.amp) if ((a.first & cm) == cv) { bool one = (a.first & t) != 0; a.first ^= t; a.second *= one ? C(0, -1) : C(0, 1); } }
        else if (g == "z" || g == "s" || g == "sdg" || g == "t" || g == "tdg" || g == "st" || g == "zt") {
            C ph = g == "z" ? C(-1, 0) : g == "s" ? C(0, 1) : g == "sdg" ? C(0, -1) : g == "t" ? C(r2, r2) : g == "st" ? C(-r2, r2) : g == "zt" ? C(-r2, -r2) : C(r2, -r2);
            for (auto& a : s.amp) if ((a.first & cm) == cv && (a.first & t)) a.second *= ph;
        } else if (g == "h" || g == "mat") {
            const std::vector<C> M = g == "h" ? std::vector<C>{r2, r2, r2, -r2} : in.mat;
            std::unordered_map<Q, C, KeyHash> m;
            m.reserve(s.amp.size() * 2);
            for (auto& a : s.amp) {
                if ((a.first & cm) != cv) { m[a.first] += a.second; continue; }
                bool one = (a.first & t) != 0;
                Q z = a.first & ~t;
                m[z] += a.second * M[one ? 1 : 0];
                m[z | t] += a.second * M[one ? 3 : 2];
            }
            s.amp.clear();
            for (auto& a : m) if (std::norm(a.second) > 1e-20) s.amp.push_back(a);
        } else if (g == "id" || g == "i") {}
        else throw ParseError("gate " + g);
    }

    // canonical form: sorted, global phase removed
    static std::string key(State& s) {
        std::sort(s.amp.begin(), s.amp.end(), [](auto& a, auto& b) { return a.first < b.first; });
        const C ph = std::conj(s.amp[0].second) / std::abs(s.amp[0].second);
        std::string k(s.cb.begin(), s.cb.end());
        for (auto& a : s.amp) {
            a.second *= ph;
            const long re = std::lround(a.second.real() * 1e6), im = std::lround(a.second.imag() * 1e6);
            k.append(reinterpret_cast<const char*>(&a.first), sizeof(Q));
            k.append(reinterpret_cast<const char*>(&re), sizeof re);
            k.append(reinterpret_cast<const char*>(&im), sizeof im);
        }
        return k;
    }
    static void merge(std::vector<State>& br) {
        std::unordered_map<std::string, size_t> seen;
        std::vector<State>                      out;
        for (auto& s : br) {
            auto [it, fresh] = seen.emplace(key(s), out.size());
            if (fresh) out.push_back(std::move(s));
            else out[it->second].prob += s.prob;
        }
        br.swap(out);
    }
    // All measurement / reset outcomes, breadth first. Qubits and classical bits which are not looked at any more (before
    // they are overwritten) are traced out, and branches in the same state are merged; both leave the distribution exact.
    Dist dist(const Circ& c, int nOut) {
        const size_t                  n = c.ins.size();
        std::vector<std::vector<int>> deadQ(n), deadC(n);
        {
            std::vector<char> liveQ(static_cast<size_t>(c.nq), 0), liveC(static_cast<size_t>(std::max(c.nc, nOut)), 0);
            for (int i = 0; i < nOut; i++) liveC[static_cast<size_t>(i)] = 1;
            for (size_t pc = n; pc-- > 0;) {
                const auto& in = c.ins[pc];
                auto        use = [&](int q) { if (!liveQ[static_cast<size_t>(q)]) { deadQ[pc].push_back(q); } };
                auto        useC = [&](int b) { if (!liveC[static_cast<size_t>(b)]) { deadC[pc].push_back(b); } };
                for (int q : in.ctrl) use(q);
                for (int q : in.tgt) use(q);
                if (in.creg >= 0) for (int i = 0; i < c.creg[static_cast<size_t>(in.creg)].second; i++) useC(c.creg[static_cast<size_t>(in.creg)].first + i);
                if (in.name == "measure") { useC(in.cbit); if (in.creg < 0) liveC[static_cast<size_t>(in.cbit)] = 0; }
                for (int q : in.ctrl) liveQ[static_cast<size_t>(q)] = 1;
                for (int q : in.tgt) liveQ[static_cast<size_t>(q)] = in.name == "reset" && in.creg < 0 ? 0 : 1;
                if (in.creg >= 0) for (int i = 0; i < c.creg[static_cast<size_t>(in.creg)].second; i++) liveC[static_cast<size_t>(c.creg[static_cast<size_t>(in.creg)].first + i)] = 1;
            }
        }
        std::vector<State> br(1);
        br[0].amp = {{(Q)0, C(1, 0)}};
        br[0].cb.assign((size_t)std::max(c.nc, nOut), 0);
        auto collapse = [&](int q, bool zero, int cbit, const Instr* cond) {
            const Q      t = (Q)1 << q;
            const size_t m = br.size();
            for (size_t b = 0; b < m; b++) {
                if (cond != nullptr && !enabled(c, *cond, br[b])) continue;
                double p1 = 0, pt = 0;
                for (auto& a : br[b].amp) { double w = std::norm(a.second); pt += w; if (a.first & t) p1 += w; }
                const double f1 = p1 / pt;
                const bool   z0 = f1 < 1 - EPS, z1 = f1 > EPS;
                auto project = [&](State& s, bool one, double f) {
                    std::vector<std::pair<Q, C>> keep;
                    keep.reserve(s.amp.size());
                    const double sc = 1 / std::sqrt(f * pt);
                    for (auto& a : s.amp) if (((a.first & t) != 0) == one) keep.push_back({zero ? (a.first & ~t) : a.first, a.second * sc});
                    s.amp.swap(keep);
                    s.prob *= f;
                    if (cbit >= 0) s.cb[(size_t)cbit] = one;
                };
                if (z0 && z1) {
                    State o = br[b];
                    project(o, true, f1);
                    project(br[b], false, 1 - f1);
                    br.push_back(std::move(o));
                    branches++;
                } else project(br[b], z1, z1 ? f1 : 1 - f1);
            }
            return br.size() > m;
        };
        size_t lastMerge = 1;
        for (size_t pc = 0; pc < n; pc++) {
            const auto& in = c.ins[pc];
            steps += static_cast<long>(br.size());
            bool cand = false;
            if (in.name == "measure") collapse(in.tgt[0], false, in.cbit, in.creg >= 0 ? &in : nullptr);
            else if (in.name == "reset") { collapse(in.tgt[0], true, -1, in.creg >= 0 ? &in : nullptr); cand = true; }
            else for (auto& s : br) if (in.creg < 0 || enabled(c, in, s)) gate1(s, in);
            for (int q : deadQ[pc]) { collapse(q, true, -1, nullptr); cand = true; }
            for (int b : deadC[pc]) { for (auto& s : br) s.cb[(size_t)b] = 0; cand = true; }
            if (cand && br.size() > 1 && br.size() >= lastMerge) {
                merge(br);
                lastMerge = std::max<size_t>(2, br.size() < 64 ? 2 : br.size());
            }
        }
        branches += 1;
        Dist out;
        for (auto& s : br) {
            std::string k;
            for (int i = 0; i < nOut; i++) k += s.cb[(size_t)i] ? '1' : '0';
            out[k] += s.prob;
        }
        return out;
    }
    static bool enabled(const Circ& c, const Instr& in, const State& s) {
        uint64_t v    = 0;
        auto [st, sz] = c.creg[(size_t)in.creg];
        for (int i = 0; i < sz; i++) if (s.cb[(size_t)(st + i)]) v |= 1ULL << i;
        return v == in.cval;
    }
};
inline bool sameDist(const Dist& a, const Dist& b) {
    for (auto& [k, v] : a) { auto it = b.find(k); if (std::abs(v - (it == b.end() ? 0 : it->second)) > 1e-6) return false; }
    for (auto& [k, v] : b) if (!a.count(k) && v > 1e-6) return false;
    return true;
}
inline std::string show(const Dist& d) { std::ostringstream o; for (auto& [k, v] : d) if (v > 1e-9) o << k << ":" << std::round(v * 1e6) / 1e6 << " "; return o.str(); }
} // namespace qsim
