#include "codes.hpp"

#include "UFDecoder.hpp"
using namespace ref;

static const char* GN[] = {"AllComponents", "InvalidComponents", "SingleSmallest", "SingleRandom", "SingleQubitRandom"};

struct Case {
    Mat m;
    int g;
};

// one decode of one syndrome under every choice sequence
static void check(const Mat& m, const gf2Mat& H, int g, u64 s, std::size_t depth, mc::Rec& rec) {
    const auto n     = static_cast<std::size_t>(m.n);
    const auto synv  = toVec(s, static_cast<int>(m.rows.size()));
    auto       info  = [&] { return mc::json{{"pcm", str(m)}, {"syndrome", str(s, static_cast<int>(m.rows.size()))}, {"growth", GN[g]}}; };
    const auto execs = mc::allChoices(g >= 3 ? depth : 0, [&] {
        auto      hz = H;
        Code      code(hz);
        UFDecoder dec;
        dec.setCode(code);
        dec.setGrowth(static_cast<GrowthVariant>(g));
        dec.decode(synv);
        const auto& est = dec.result.estimBoolVector;
        if (est.size() != n) {
            rec.bad("estimate has " + std::to_string(est.size()) + " entries for " + std::to_string(n) + " bits", info());
            return;
        }
        const u64 e = toMask(est);
        if (syndrome(m, e) != s) {
            auto c        = info();
            c["estimate"] = str(e, m.n);
            rec.bad("estimate does not reproduce the syndrome", c);
        }
        u64  list = 0;
        bool dup  = false;
        for (auto i : dec.result.estimNodeIdxVector) {
            dup = dup || i >= n || ((list >> i) & 1ULL) != 0;
            if (i < n) {
                list |= 1ULL << i;
            }
        }
        if (dup || list != e) {
            rec.bad("list of estimated bits and estimate vector disagree", info());
        }
        if (s == 0 && e != 0) {
            rec.bad("nonzero estimate for the trivial syndrome", info());
        }
        rec.add("transitions");
        rec.add("traces");
    });
    rec.add("states");
    rec.add("executions", execs);
    if (mc::chooser.maxSeen > rec.cnt["max_choices_in_one_run"]) {
        rec.cnt["max_choices_in_one_run"] = mc::chooser.maxSeen;
    }
}

int main(int argc, char** argv) {
    std::map<std::string, std::string> kv;
    mc::parseArgs(argc, argv, kv);
    const bool  quick = kv["tier"] != "thorough";
    const auto  repo  = kv["repo"];
    {
        std::vector<Mat> ms;
        for (int n = 1; n <= (quick ? 4 : 5); ++n) {
            for (int r = 1; r <= (quick ? 3 : 4); ++r) {
                if (n == 5 && r == 4) {
                    continue;
                }
                enumMats(ms, n, r, /*sorted*/ !(n <= 3 || (!quick && n <= 4 && r <= 3)), true);
            }
        }
        if (!quick) {
            enumMats(ms, 5, 4, true, false);
        }
        mc::explore(
                "all-small-pcms", ms.size() * 5, [&](u64 i, mc::Rec& rec) {
                    const auto& m = ms[i / 5];
                    const auto  H = toMat(m);
                    for (auto& [s, e] : syndromes(m, 0, 1U << 20)) {
                        check(m, H, static_cast<int>(i % 5), s, quick ? 4 : 6, rec);
                    } },
                [&](u64 i) { return mc::json{{"pcm", str(ms[i / 5])}, {"growth", GN[i % 5]}}; });
    }
    {
        std::vector<Mat> fam;
        for (int n = 5; n <= (quick ? 9 : 12); ++n) {
            fam.push_back(repetition(n));
            fam.push_back(ring(n));
        }
        for (auto& m : {hamming(3), hamming(4), toric(2, true), toric(2, false), toric(3, true), toric(3, false), shorX(), shorZ(), tree()}) {
            fam.push_back(m);
        }
        for (u64 sd = 1; sd <= (quick ? 6U : 24U); ++sd) {
            fam.push_back(dense(8, 5, sd));
            fam.push_back(dense(6, 6, sd));
            fam.push_back(dense(12, 6, sd));
        }
        if (!quick) {
            fam.push_back(hamming(5));
        }
        // one case per (code, growth, block of syndromes)
        struct B {
            std::size_t f;
            int         g;
            u64         s;
        };
        std::vector<B> bs;
        for (std::size_t f = 0; f < fam.size(); ++f) {
            const auto ss = syndromes(fam[f], 3, quick ? 1U << 8 : 1U << 11);
            for (auto& [s, e] : ss) {
                for (int g = 0; g < 5; ++g) {
                    bs.push_back({f, g, s});
                }
            }
        }
        mc::explore(
                "code-families", bs.size(), [&](u64 i, mc::Rec& rec) {
                    const auto& b = bs[i];
                    check(fam[b.f], toMat(fam[b.f]), b.g, b.s, quick ? 1 : 3, rec); },
                [&](u64 i) { return mc::json{{"pcm", str(fam[bs[i].f])}, {"syndrome", str(bs[i].s, static_cast<int>(fam[bs[i].f].rows.size()))}, {"growth", GN[bs[i].g]}}; });
    }
    { // larger toric codes, 32 (and 50) qubits
        std::vector<Mat> fam{toric(4, true), toric(4, false)};
        if (!quick) {
            fam.push_back(toric(5, true));
        }
        struct B {
            std::size_t f;
            int         g;
            u64         s;
        };
        std::vector<B> bs;
        for (std::size_t f = 0; f < fam.size(); ++f) {
            for (auto& [s, e] : syndromes(fam[f], quick ? 2 : 3, 1)) {
                for (int g = 0; g < 5; ++g) {
                    bs.push_back({f, g, s});
                }
            }
        }
        mc::explore(
                "toric", bs.size(), [&](u64 i, mc::Rec& rec) {
                    const auto& b = bs[i];
                    check(fam[b.f], toMat(fam[b.f]), b.g, b.s, 0, rec); },
                [&](u64 i) { return mc::json{{"pcm", str(fam[bs[i].f])}, {"syndrome", str(bs[i].s, static_cast<int>(fam[bs[i].f].rows.size()))}, {"growth", GN[bs[i].g]}}; });
    }
    { // codes shipped with the repository, errors of weight <= 1 (2 if small)
        std::vector<std::string> files;
        for (auto& f : std::filesystem::recursive_directory_iterator(repo + "/examples/test")) {
            if (f.path().extension() == ".txt") {
                files.push_back(f.path().string());
            }
        }
        std::sort(files.begin(), files.end());
        std::vector<gf2Mat> hs;
        struct B {
            std::size_t f;
            int         g;
            int         i, j;
        };
        std::vector<B> bs;
        for (auto& f : files) {
            hs.push_back(Utils::importGf2MatrixFromFile(f));
            const int n = static_cast<int>(hs.back()[0].size());
            for (int g = 0; g < 5; ++g) {
                if (n > 100 && (g == 2 || g == 4) && quick) {
                    continue;
                }
                for (int i = 0; i < n; ++i) {
                    bs.push_back({hs.size() - 1, g, i, i});
                    for (int j = 0; j < i && n <= (quick ? 10 : 40); ++j) {
                        bs.push_back({hs.size() - 1, g, i, j});
                    }
                }
            }
        }
        mc::explore(
                "shipped-codes", bs.size(), [&](u64 q, mc::Rec& rec) {
                    const auto& b = bs[q];
                    const auto& H = hs[b.f];
                    gf2Vec      err(H[0].size());
                    err[static_cast<std::size_t>(b.i)] = true;
                    err[static_cast<std::size_t>(b.j)] = true;
                    const auto s                       = synVec(H, err);
                    auto       info                    = [&] { return mc::json{{"file", files[b.f]}, {"error", {b.i, b.j}}, {"growth", GN[b.g]}}; };
                    mc::allChoices(0, [&] {
                        auto      hz = H;
                        Code      code(hz);
                        UFDecoder dec;
                        dec.setCode(code);
                        dec.setGrowth(static_cast<GrowthVariant>(b.g));
                        dec.decode(s);
                        const auto& est = dec.result.estimBoolVector;
                        if (est.size() != err.size() || synVec(H, est) != s) {
                            rec.bad("estimate does not reproduce the syndrome", info());
                        }
                        gf2Vec list(err.size());
                        for (auto i : dec.result.estimNodeIdxVector) {
                            list.at(i) = !list.at(i);
                        }
                        if (list != est) {
                            rec.bad("list of estimated bits and estimate vector disagree", info());
                        }
                    });
                    rec.add("states");
                    rec.add("transitions");
                    rec.add("traces"); },
                [&](u64 q) { return mc::json{{"file", files[bs[q].f]}, {"error", {bs[q].i, bs[q].j}}, {"growth", GN[bs[q].g]}}; });
    }
    mc::note("pcm 2x3 (rows as bit strings) '110 011', all 4 syndromes x 5 growth variants x all choice sequences");
    return 0;
}
