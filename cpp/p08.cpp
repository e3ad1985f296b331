// Monte Carlo driver: with every coin of the noise enumerated, the reported word error rate is the fraction of runs whose
// residual error is not a stabilizer, divided by the number of logical qubits.
#include "codes.hpp"

#include "DecodingSimulator.hpp"
#include "UFDecoder.hpp"
#include "UFHeuristic.hpp"
#include <unistd.h>
using namespace ref;

struct Cfg {
    Mat         x, z;
    std::size_t k;
    int         runs;
    int         rates;
    int         dec; // 0 heuristic, 1 UFDecoder
};

static std::string slurp(const std::string& dir, const std::string& prefix) {
    for (auto& e : std::filesystem::directory_iterator(dir)) {
        if (e.path().filename().string().rfind(prefix, 0) == 0) {
            std::ifstream     f(e.path());
            std::stringstream s;
            s << f.rdbuf();
            return s.str();
        }
    }
    return "<no file>";
}

int main(int argc, char** argv) {
    std::map<std::string, std::string> kv;
    mc::parseArgs(argc, argv, kv);
    const bool quick = kv["tier"] != "thorough";
    const auto tmp   = kv["tmp"];
    const Mat  rep3{3, {3, 6}, "rep3"}, x3{3, {7}, "xxx"};
    const Mat  c4{4, {15}, "1111"};
    std::vector<Cfg> cs;
    for (int d = 0; d < 2; ++d) {
        cs.push_back({x3, rep3, 1, 1, 1, d});
        cs.push_back({x3, rep3, 1, 2, 1, d});
        cs.push_back({x3, rep3, 2, 1, 2, d});
        cs.push_back({rep3, x3, 1, 2, 1, d});
        cs.push_back({c4, c4, 2, 2, 1, d});
        cs.push_back({c4, c4, 2, 1, 2, d});
        cs.push_back({x3, rep3, 1, 3, 1, d});
        cs.push_back({x3, rep3, 1, 1, 3, d});
        cs.push_back({hamming(3), hamming(3), 1, 1, 1, d});
        if (!quick) {
            cs.push_back({c4, c4, 2, 3, 1, d});
            cs.push_back({hamming(3), hamming(3), 1, 2, 1, d});
            cs.push_back({c4, c4, 2, 1, 4, d});
        }
    }
    // a case = configuration x values of the first coins (the explorer enumerates the remaining ones)
    struct B {
        std::size_t c;
        u64         pre;
        int         bits;
    };
    std::vector<B> bs;
    for (std::size_t c = 0; c < cs.size(); ++c) {
        const int tot = cs[c].z.n * cs[c].runs * cs[c].rates;
        const int p   = std::min(tot, 6);
        for (u64 v = 0; v < (1ULL << p); ++v) {
            bs.push_back({c, v, p});
        }
    }
    auto desc = [&](u64 i) { const auto& c = cs[bs[i].c]; return mc::json{{"hx", str(c.x)}, {"hz", str(c.z)}, {"runs", c.runs}, {"rates", c.rates}, {"k", c.k}, {"decoder", c.dec == 1 ? "UFDecoder" : "UFHeuristic"}}; };
    mc::explore(
            "word-error-rate", bs.size(), [&](u64 i, mc::Rec& rec) {
                const auto&       b   = bs[i];
                const auto&       c   = cs[b.c];
                const std::string dir = tmp + "/" + std::to_string(getpid());
                std::filesystem::create_directories(dir);
                auto mx = toMat(c.x);
                auto mz = toMat(c.z);
                const double      p0 = 0.125, step = 0.125;
                // reference decoder outcome per error
                std::vector<char> fails(1ULL << c.z.n);
                const auto        rs = span(c.x.rows);
                const std::set<u64> stab(rs.begin(), rs.end());
                for (u64 e = 0; e < fails.size(); ++e) {
                    Code co(mx, mz);
                    std::unique_ptr<Decoder> dec;
                    if (c.dec == 1) {
                        dec = std::make_unique<UFDecoder>();
                    } else {
                        dec = std::make_unique<UFHeuristic>();
                    }
                    dec->setCode(co);
                    dec->decode(toVec(syndrome(c.z, e), static_cast<int>(c.z.rows.size())));
                    fails[e] = stab.count(e ^ toMask(dec->result.estimBoolVector)) == 0 ? 1 : 0;
                }
                const int tot = c.z.n * c.runs * c.rates;
                mc::chooser.depth = static_cast<std::size_t>(tot);
                mc::chooser.limit = 1000000;
                for (u64 rest = 0; rest < (1ULL << (tot - b.bits)); ++rest) {
                    mc::chooser.clear();
                    const u64 word = b.pre | (rest << b.bits);
                    for (int q = 0; q < tot; ++q) {
                        mc::chooser.trace.push_back((word >> q) & 1ULL);
                        mc::chooser.width.push_back(2);
                    }
                    mc::chooser.begin();
                    mc::bernoulliProbs.clear();
                    mc::bernoulliVals.clear();
                    Code code(mx, mz);
                    code.k = c.k;
                    for (auto& e : std::filesystem::directory_iterator(dir)) {
                        std::filesystem::remove(e.path());
                    }
                    DecodingSimulator::simulateWER(dir + "/raw", dir + "/stats", p0, p0 + step * c.rates - step / 2, static_cast<std::size_t>(c.runs), code, step, c.dec == 1 ? DecoderType::UfDecoder : DecoderType::UfHeuristic);
                    rec.add("transitions");
                    rec.add("traces");
                    auto info = desc(i);
                    info["coins"] = word;
                    if (mc::bernoulliProbs.size() != static_cast<std::size_t>(tot)) {
                        rec.bad("number of noise decisions is " + std::to_string(mc::bernoulliProbs.size()) + " instead of bits x runs x rates = " + std::to_string(tot), info);
                        break;
                    }
                    std::map<std::string, double> want;
                    int                           q = 0;
                    bool                          probsOk = true;
                    std::size_t                   wantFail = 0;
                    for (int r = 0; r < c.rates; ++r) {
                        const double p = p0 + step * r;
                        int          f = 0;
                        for (int j = 0; j < c.runs; ++j) {
                            u64 e = 0;
                            for (int t = 0; t < c.z.n; ++t, ++q) {
                                probsOk = probsOk && std::abs(mc::bernoulliProbs[static_cast<std::size_t>(q)] - p) < 1e-12;
                                e |= static_cast<u64>(mc::bernoulliVals[static_cast<std::size_t>(q)]) << t;
                            }
                            f += fails[e];
                        }
                        wantFail += static_cast<std::size_t>(f);
                        want[std::to_string(p)] = static_cast<double>(f) / c.runs / static_cast<double>(c.k);
                    }
                    if (!probsOk) {
                        rec.bad("the noise is not sampled at the physical error rate of the step", info);
                    }
                    const auto raw = slurp(dir, "raw");
                    bool       ok  = mc::json::accept(raw);
                    if (ok) {
                        const auto j = mc::json::parse(raw);
                        ok           = j.is_object() && j.size() == want.size();
                        for (auto& [k, v] : want) {
                            ok = ok && j.contains(k) && std::abs(j[k].get<double>() - v) < 1e-9;
                        }
                    }
                    if (!ok) {
                        info["got"]  = raw;
                        info["want"] = want;
                        rec.bad("reported word error rates are wrong", info);
                    }
                    if (kv.count("nostats") == 0) {
                        const auto  st = slurp(dir, "stats");
                        std::size_t nf = 0, ns = 0;
                        bool        sok = mc::json::accept(st);
                        if (sok) {
                            const std::function<void(const mc::json&)> walk = [&](const mc::json& j) {
                                if (j.is_object() && j.contains("decodingStatus")) {
                                    (j["decodingStatus"] == "failure" ? nf : ns)++;
                                } else if (j.is_structured()) {
                                    for (auto& x : j) {
                                        walk(x);
                                    }
                                }
                            };
                            walk(mc::json::parse(st));
                            sok = nf == wantFail && nf + ns == static_cast<std::size_t>(c.runs * c.rates);
                        }
                        if (!sok) {
                            info["got"] = st.substr(0, 600);
                            rec.bad("statistics file is not the list of all runs with their outcome", info);
                        }
                    }
                }
                rec.add("states");
                mc::chooser.clear();
                std::filesystem::remove_all(dir); },
            desc);
    // average runtime: the clock is controlled, decoding number i takes the i-th duration of the script
    struct A {
        int                    dec, runs, samples, files;
        std::vector<long long> script;
    };
    std::vector<A> as;
    for (int d = 0; d < 2; ++d) {
        for (int r = 1; r <= 4; ++r) {
            for (int s = 1; s <= 4; ++s) {
                for (int f = 1; f <= 3; ++f) {
                    const int total = r * s * f;
                    for (long long tick : {1, 7}) {
                        as.push_back({d, r, s, f, std::vector<long long>(static_cast<std::size_t>(total), tick)});
                    }
                    as.push_back({d, r, s, f, {}});
                    for (int q = 0; q < total; ++q) {
                        as.back().script.push_back(q + 1);
                    }
                    for (u64 bits = 0; total <= (quick ? 6 : 9) && bits < (1ULL << total); ++bits) {
                        as.push_back({d, r, s, f, {}});
                        for (int q = 0; q < total; ++q) {
                            as.back().script.push_back(((bits >> q) & 1ULL) != 0 ? 6 : 1);
                        }
                    }
                }
            }
        }
    }
    auto adesc = [&](u64 i) { return mc::json{{"decoder", as[i].dec}, {"durations", as[i].script}, {"runs", as[i].runs}, {"samples", as[i].samples}, {"codes", as[i].files}}; };
    mc::explore(
            "average-runtime", as.size(), [&](u64 i, mc::Rec& rec) {
                using Clock           = std::chrono::mc_clock;
                const auto&       a   = as[i];
                const std::string dir = tmp + "/a" + std::to_string(getpid()) + "_" + std::to_string(i);
                std::filesystem::create_directories(dir + "/codes");
                std::vector<std::string> names;
                Clock::script.clear();
                Clock::tickMs    = 1;
                std::size_t unit = 0;
                for (int f = 0; f < a.files; ++f) {
                    names.push_back(dir + "/codes/c" + std::to_string(f) + ".txt");
                    std::ofstream o(names.back());
                    o << (f == 0 ? "1 1 0\n0 1 1\n" : f == 1 ? "1 1 1 1 0\n0 1 0 1 1\n" : "1 1\n");
                    o.close();
                    Code                     c(names.back());
                    std::unique_ptr<Decoder> dec;
                    if (a.dec == 1) {
                        dec = std::make_unique<UFDecoder>();
                    } else {
                        dec = std::make_unique<UFHeuristic>();
                    }
                    dec->setCode(c);
                    Clock::reads = 0;
                    dec->decode(c.getXSyndrome(gf2Vec(c.getN())));
                    Clock::group = Clock::reads; // readings per decoding
                    unit         = dec->result.decodingTime;
                    if (unit == 0) {
                        rec.bad("reported decoding time is not the elapsed time in ms", adesc(i));
                        return;
                    }
                }
                mc::chooser.depth = 0;
                mc::chooser.clear();
                Clock::script = a.script;
                Clock::reads  = 0;
                DecodingSimulator::simulateAverageRuntime(dir + "/raw", "", 0.25, static_cast<std::size_t>(a.runs), dir + "/codes", static_cast<std::size_t>(a.samples), a.dec == 1 ? DecoderType::UfDecoder : DecoderType::UfHeuristic);
                Clock::script.clear();
                const auto raw = slurp(dir, "raw");
                bool       ok  = false;
                mc::json   want;
                if (mc::json::accept(raw)) {
                    const auto j = mc::json::parse(raw);
                    std::sort(names.begin(), names.end());
                    do { // the codes may be simulated in any order
                        std::size_t at = 0;
                        want           = mc::json::object();
                        for (const auto& f : names) {
                            for (int r = 0; r < a.runs; ++r) {
                                std::size_t sum = 0;
                                for (int s = 0; s < a.samples; ++s) {
                                    sum += static_cast<std::size_t>(a.script[at++]) * unit;
                                }
                                want[f][std::to_string(r)] = sum / static_cast<std::size_t>(a.samples);
                            }
                        }
                        ok = ok || want == j;
                    } while (std::next_permutation(names.begin(), names.end()));
                }
                if (!ok) {
                    auto c    = adesc(i);
                    c["got"]  = raw;
                    c["want"] = want;
                    rec.bad("reported average runtimes are wrong", c);
                }
                rec.add("states");
                rec.add("transitions", static_cast<u64>(a.runs * a.samples * a.files));
                rec.add("traces");
                std::filesystem::remove_all(dir); },
            adesc);
    mc::note("rep3, 2 runs: all 2^6 coin outcomes; failures/runs/k per rate, probabilities per coin, statistics per run");
    return 0;
}
