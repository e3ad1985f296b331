#include "codes.hpp"

#include "UFHeuristic.hpp"
using namespace ref;

static const char* GN[] = {"AllComponents", "InvalidComponents", "SingleSmallest", "SingleRandom"};

// The recovery guarantee: the checks of the error's bits are pairwise disjoint and nonempty, and no other bit has all of its
// checks among the flipped ones.
static bool guaranteed(const Mat& m, const std::vector<u64>& cols, u64 e) {
    u64 acc = 0;
    for (int j = 0; j < m.n; ++j) {
        if (((e >> j) & 1ULL) != 0) {
            if (cols[j] == 0 || (acc & cols[j]) != 0) {
                return false;
            }
            acc |= cols[j];
        }
    }
    for (int j = 0; j < m.n; ++j) {
        if (((e >> j) & 1ULL) == 0 && cols[j] != 0 && (cols[j] & ~acc) == 0) {
            return false;
        }
    }
    return true;
}

static void check(const Mat& m, const gf2Mat& H, int g, u64 s, u64 must, bool hasMust, std::size_t depth, mc::Rec& rec) {
    const auto n    = static_cast<std::size_t>(m.n);
    const auto synv = toVec(s, static_cast<int>(m.rows.size()));
    auto       info = [&] { return mc::json{{"pcm", str(m)}, {"syndrome", str(s, static_cast<int>(m.rows.size()))}, {"growth", GN[g]}}; };
    mc::allChoices(g == 3 ? depth : 0, [&] {
        auto        hz = H;
        Code        code(hz);
        UFHeuristic dec;
        dec.setCode(code);
        dec.setGrowth(static_cast<GrowthVariant>(g));
        dec.decode(synv);
        const auto& est = dec.result.estimBoolVector;
        if (est.size() != n) {
            rec.bad("estimate has " + std::to_string(est.size()) + " entries for " + std::to_string(n) + " bits", info());
            return;
        }
        const u64 e    = toMask(est);
        u64       list = 0;
        bool      dup  = false;
        for (auto i : dec.result.estimNodeIdxVector) {
            dup = dup || i >= n || ((list >> i) & 1ULL) != 0;
            if (i < n) {
                list |= 1ULL << i;
            }
        }
        if (dup || list != e) {
            rec.bad("list of estimated bits and estimate vector disagree", info());
        }
        for (std::size_t q = 0; q < m.rows.size(); ++q) {
            const u64 both = m.rows[q] & e;
            if ((both & (both - 1)) != 0) {
                rec.bad("two qubits of the estimate " + str(e, m.n) + " share check " + std::to_string(q), info());
                break;
            }
        }
        if (s == 0 && e != 0) {
            rec.bad("nonzero estimate for the trivial syndrome", info());
        }
        if (hasMust && g < 3) {
            rec.add("guaranteed_recoveries");
            if (e != must) {
                auto c        = info();
                c["error"]    = str(must, m.n);
                c["estimate"] = str(e, m.n);
                rec.bad("isolated error is not recovered exactly", c);
            }
        }
        rec.add("transitions");
        rec.add("traces");
    });
    rec.add("states");
}

static std::map<u64, u64> musts(const Mat& m, int w) { // syndrome -> guaranteed error
    std::vector<u64> cols;
    for (int j = 0; j < m.n; ++j) {
        cols.push_back(syndrome(m, 1ULL << j));
    }
    std::map<u64, u64>                 r;
    std::function<void(int, int, u64)> go = [&](int from, int left, u64 e) {
        if (e != 0 && guaranteed(m, cols, e)) {
            r[syndrome(m, e)] = e;
        }
        for (int j = from; left > 0 && j < m.n; ++j) {
            go(j + 1, left - 1, e | (1ULL << j));
        }
    };
    go(0, w, 0);
    return r;
}

int main(int argc, char** argv) {
    std::map<std::string, std::string> kv;
    mc::parseArgs(argc, argv, kv);
    const bool quick = kv["tier"] != "thorough";
    const auto repo  = kv["repo"];
    {
        std::vector<Mat> ms;
        for (int n = 1; n <= (quick ? 5 : 6); ++n) {
            for (int r = 1; r <= (quick ? 3 : 4); ++r) {
                if (n == 6 && r == 4) {
                    continue;
                }
                enumMats(ms, n, r, !(n <= 3 || (!quick && n <= 4 && r <= 3)), true);
            }
        }
        enumMats(ms, 4, 4, true, true);
        mc::explore(
                "all-small-pcms", ms.size() * 4, [&](u64 i, mc::Rec& rec) {
                    const auto& m = ms[i / 4];
                    const auto  H = toMat(m);
                    const auto  t = musts(m, m.n);
                    // every syndrome, including those no error produces (measurement errors)
                    for (u64 s = 0; s < (1ULL << m.rows.size()); ++s) {
                        bool unreachable = false; // a flipped check without any bit cannot be explained
                        for (std::size_t q = 0; q < m.rows.size(); ++q) {
                            unreachable = unreachable || (((s >> q) & 1ULL) != 0 && m.rows[q] == 0);
                        }
                        if (unreachable) {
                            continue;
                        }
                        const auto it = t.find(s);
                        check(m, H, static_cast<int>(i % 4), s, it == t.end() ? 0 : it->second, it != t.end(), quick ? 4 : 6, rec);
                    } },
                [&](u64 i) { return mc::json{{"pcm", str(ms[i / 4])}, {"growth", GN[i % 4]}}; });
    }
    {
        std::vector<Mat> fam;
        for (int n = 5; n <= (quick ? 12 : 16); ++n) {
            fam.push_back(repetition(n));
            fam.push_back(ring(n));
        }
        for (auto& m : {hamming(3), hamming(4), toric(2, true), toric(2, false), toric(3, true), toric(3, false), toric(4, true), toric(4, false), toric(5, true), toric(5, false), shorX(), shorZ(), tree()}) {
            fam.push_back(m);
        }
        for (u64 sd = 1; sd <= (quick ? 6U : 24U); ++sd) {
            fam.push_back(dense(8, 5, sd));
            fam.push_back(dense(6, 6, sd));
            fam.push_back(dense(12, 6, sd));
        }
        struct B {
            std::size_t f;
            int         g;
            u64         s, e;
            bool        must;
        };
        std::vector<B> bs;
        for (std::size_t f = 0; f < fam.size(); ++f) {
            auto       t  = musts(fam[f], quick ? 3 : 4);
            const auto ss = syndromes(fam[f], quick && fam[f].n > 20 ? 2 : 3, quick ? 1U << 11 : 1U << 14);
            std::map<u64, std::pair<u64, bool>> all;
            for (auto& [s, e] : ss) {
                all[s] = {0, false};
            }
            for (auto& [s, e] : t) {
                all[s] = {e, true};
            }
            for (auto& [s, p] : all) {
                for (int g = 0; g < 4; ++g) {
                    bs.push_back({f, g, s, p.first, p.second});
                }
            }
        }
        mc::explore(
                "code-families", bs.size(), [&](u64 i, mc::Rec& rec) {
                    const auto& b = bs[i];
                    check(fam[b.f], toMat(fam[b.f]), b.g, b.s, b.e, b.must, quick ? 2 : 4, rec); },
                [&](u64 i) { return mc::json{{"pcm", str(fam[bs[i].f])}, {"syndrome", str(bs[i].s, static_cast<int>(fam[bs[i].f].rows.size()))}, {"growth", GN[bs[i].g]}}; });
    }
    { // shipped codes: all single errors are isolated errors, and all pairs of bits with far apart checks
        std::vector<std::string> files;
        for (auto& f : std::filesystem::recursive_directory_iterator(repo + "/examples/test")) {
            if (f.path().extension() == ".txt") {
                files.push_back(f.path().string());
            }
        }
        std::sort(files.begin(), files.end());
        std::vector<gf2Mat>                             hs;
        std::vector<std::vector<std::set<std::size_t>>> cols;
        struct B {
            std::size_t f;
            int         g;
            int         i, j;
        };
        std::vector<B> bs;
        for (auto& f : files) {
            hs.push_back(Utils::importGf2MatrixFromFile(f));
            const auto& H = hs.back();
            const int   n = static_cast<int>(H[0].size());
            cols.emplace_back(n);
            for (std::size_t r = 0; r < H.size(); ++r) {
                for (int c = 0; c < n; ++c) {
                    if (H[r][c]) {
                        cols.back()[c].insert(r);
                    }
                }
            }
            for (int g = 0; g < 4; ++g) {
                for (int i = 0; i < n; ++i) {
                    bs.push_back({hs.size() - 1, g, i, i});
                    for (int j = 0; j < i; ++j) {
                        if (n <= 40 || (!quick && (i - j) % 37 == 0)) {
                            bs.push_back({hs.size() - 1, g, i, j});
                        }
                    }
                }
            }
        }
        mc::explore(
                "shipped-codes", bs.size(), [&](u64 q, mc::Rec& rec) {
                    const auto& b   = bs[q];
                    const auto& H   = hs[b.f];
                    const auto& col = cols[b.f];
                    gf2Vec      err(H[0].size());
                    err[static_cast<std::size_t>(b.i)] = true;
                    err[static_cast<std::size_t>(b.j)] = true;
                    std::set<std::size_t> acc          = col[b.i];
                    bool                  must         = b.g < 3 && !acc.empty();
                    if (b.i != b.j) {
                        for (auto c : col[b.j]) {
                            must = must && acc.count(c) == 0;
                        }
                        must = must && !col[b.j].empty();
                        acc.insert(col[b.j].begin(), col[b.j].end());
                    }
                    for (std::size_t c = 0; must && c < col.size(); ++c) {
                        if (!err[c] && !col[c].empty() && std::includes(acc.begin(), acc.end(), col[c].begin(), col[c].end())) {
                            must = false;
                        }
                    }
                    auto info = [&] { return mc::json{{"file", files[b.f]}, {"error", {b.i, b.j}}, {"growth", GN[b.g]}}; };
                    mc::allChoices(0, [&] {
                        auto        hz = H;
                        Code        code(hz);
                        UFHeuristic dec;
                        dec.setCode(code);
                        dec.setGrowth(static_cast<GrowthVariant>(b.g));
                        dec.decode(synVec(H, err));
                        const auto& est = dec.result.estimBoolVector;
                        gf2Vec      list(err.size());
                        for (auto i : dec.result.estimNodeIdxVector) {
                            list.at(i) = !list.at(i);
                        }
                        if (est.size() != err.size() || list != est) {
                            rec.bad("list of estimated bits and estimate vector disagree", info());
                        }
                        if (must) {
                            rec.add("guaranteed_recoveries");
                            if (est != err) {
                                rec.bad("isolated error is not recovered exactly", info());
                            }
                        }
                    });
                    rec.add("states");
                    rec.add("transitions");
                    rec.add("traces"); },
                [&](u64 q) { return mc::json{{"file", files[bs[q].f]}, {"error", {bs[q].i, bs[q].j}}, {"growth", GN[bs[q].g]}}; });
    }
    mc::note("ring9, error on bits 0 and 4 (disjoint checks, no third bit inside): estimate must be exactly {0,4} for 3 growth variants");
    return 0;
}
