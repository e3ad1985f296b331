// Code / Tanner graph: syndromes, stabilizer membership, adjacency, construction from files
#include "codes.hpp"
using namespace ref;

static mc::json inf(const Mat& x, const Mat& z, u64 a = 0, u64 b = 0) {
    return mc::json{{"hx", str(x)}, {"hz", str(z)}, {"x", str(a, z.n)}, {"z", str(b, z.n)}};
}
static void graph(const Mat& m, ParityCheckMatrix& p, mc::Rec& rec) {
    const auto n = static_cast<std::size_t>(m.n);
    for (int round = 0; round < 2; ++round) { // second round answers from the cache
        for (std::size_t v = 0; v < n + m.rows.size(); ++v) {
            std::vector<std::size_t> want;
            if (v < n) {
                for (std::size_t r = 0; r < m.rows.size(); ++r) {
                    if (((m.rows[r] >> v) & 1ULL) != 0) {
                        want.push_back(n + r);
                    }
                }
            } else {
                for (std::size_t c = 0; c < n; ++c) {
                    if (((m.rows[v - n] >> c) & 1ULL) != 0) {
                        want.push_back(c);
                    }
                }
            }
            auto got = p.getNbrs(v);
            std::sort(got.begin(), got.end());
            if (got != want) {
                rec.bad("neighbours of node " + std::to_string(v) + " in the Tanner graph are wrong", inf(m, m));
            }
            rec.add("transitions");
        }
    }
}
static void writeMat(const std::string& f, const Mat& m, int style) {
    std::ofstream o(f);
    for (std::size_t i = 0; i < m.rows.size(); ++i) {
        for (int j = 0; j < m.n; ++j) {
            o << (((m.rows[i] >> j) & 1ULL) != 0 ? 1 : 0) << (j + 1 < m.n ? (style == 1 ? "\t" : " ") : (style == 2 ? " " : ""));
        }
        if (i + 1 < m.rows.size() || style != 1) {
            o << '\n';
        }
    }
}
static void pairCheck(const Mat& x, const Mat& z, mc::Rec& rec, const std::vector<u64>& errs) {
    auto mx = toMat(x);
    auto mz = toMat(z);
    Code c(mx, mz);
    if (c.getN() != static_cast<std::size_t>(z.n) || c.getHxMat() != mx || c.getHzMat() != mz) {
        rec.bad("the code does not hold the given matrices", inf(x, z));
    }
    struct Sp {
        const Mat&         m;
        std::map<u64, int> memo;
        int                count(u64 v) {
            const auto it = memo.find(v);
            return it != memo.end() ? it->second : (memo[v] = inSpan(m.rows, v) ? 1 : 0);
        }
    } sx{x, {}}, sz{z, {}};
    for (auto a : errs) {
        const auto av = toVec(a, z.n);
        if (toMask(c.getXSyndrome(av)) != syndrome(z, a) || c.getXSyndrome(av).size() != z.rows.size()) {
            rec.bad("syndrome of an X error is wrong", inf(x, z, a));
        }
        if (c.isXStabilizer(av) != (sx.count(a) != 0)) {
            rec.bad("X stabilizer membership is wrong", inf(x, z, a));
        }
        if (c.isStabilizer(av) != (sx.count(a) != 0)) {
            rec.bad("stabilizer membership of an X type vector is wrong", inf(x, z, a));
        }
        rec.add("transitions", 3);
        for (auto b : errs) {
            const auto bv = toVec(b, z.n);
            auto       s  = toVec(syndrome(z, a), static_cast<int>(z.rows.size()));
            const auto t  = toVec(syndrome(x, b), static_cast<int>(x.rows.size()));
            s.insert(s.end(), t.begin(), t.end());
            auto both = av;
            both.insert(both.end(), bv.begin(), bv.end());
            if (c.getSyndrome(av, bv) != s || c.getXSyndrome(both) != s) {
                rec.bad("syndrome of a two-sided error is wrong", inf(x, z, a, b));
            }
            const bool st = sx.count(a) != 0 && sz.count(b) != 0;
            if (c.isStabilizer(av, bv) != st || c.isStabilizer(both) != st) {
                rec.bad("stabilizer membership of a two-sided vector is wrong", inf(x, z, a, b));
            }
            rec.add("transitions", 4);
        }
    }
    rec.add("states");
    rec.add("traces");
}

int main(int argc, char** argv) {
    std::map<std::string, std::string> kv;
    mc::parseArgs(argc, argv, kv);
    const bool quick = kv["tier"] != "thorough";
    const auto tmp   = kv["tmp"];
    std::vector<Mat> ms;
    for (int n = 1; n <= (quick ? 4 : 5); ++n) {
        for (int r = 1; r <= 3; ++r) {
            enumMats(ms, n, r, n >= 4, true);
        }
    }
    mc::explore(
            "one-sided", ms.size(), [&](u64 i, mc::Rec& rec) {
                const auto& m = ms[i];
                auto        H = toMat(m);
                Code        c(H);
                if (c.getN() != static_cast<std::size_t>(m.n) || c.getHzMat() != H) {
                    rec.bad("the code does not hold the given matrix", inf(m, m));
                }
                for (u64 e = 0; e < (1ULL << m.n); ++e) {
                    const auto s = c.getXSyndrome(toVec(e, m.n));
                    if (s.size() != m.rows.size() || toMask(s) != syndrome(m, e)) {
                        rec.bad("syndrome is wrong", inf(m, m, e));
                    }
                    rec.add("transitions");
                }
                graph(m, *c.gethZ(), rec);
                if (i % 16 == 0 || m.n <= 2) {
                    const std::string f = tmp + "/" + std::to_string(i) + ".txt";
                    for (int style = 0; style < 3; ++style) {
                        writeMat(f, m, style);
                        Code d(f);
                        if (d.getHzMat() != H || d.getN() != c.getN() || Utils::importGf2MatrixFromFile(f) != H) {
                            rec.bad("matrix read from a file differs from the matrix written", inf(m, m));
                        }
                        rec.add("files");
                    }
                    std::filesystem::remove(f);
                }
                rec.add("states");
                rec.add("traces"); },
            [&](u64 i) { return inf(ms[i], ms[i]); });
    std::vector<std::pair<Mat, Mat>> ps;
    for (int n = 1; n <= (quick ? 3 : 4); ++n) {
        std::vector<Mat> a;
        for (int r = 1; r <= (n <= 2 ? 3 : 2); ++r) {
            enumMats(a, n, r, true, true);
        }
        for (auto& x : a) {
            for (auto& z : a) {
                ps.emplace_back(x, z);
            }
        }
    }
    mc::explore(
            "all-small-pairs", ps.size(), [&](u64 i, mc::Rec& rec) {
                std::vector<u64> e;
                for (u64 v = 0; v < (1ULL << ps[i].second.n); ++v) {
                    e.push_back(v);
                }
                pairCheck(ps[i].first, ps[i].second, rec, e);
                if (i % 16 == 0) {
                    const std::string f = tmp + "/p" + std::to_string(i);
                    writeMat(f + "x", ps[i].first, 0);
                    writeMat(f + "z", ps[i].second, 0);
                    Code d(f + "x", f + "z");
                    if (d.getHxMat() != toMat(ps[i].first) || d.getHzMat() != toMat(ps[i].second) || d.getN() != static_cast<std::size_t>(ps[i].second.n)) {
                        rec.bad("code read from files differs from the matrices written", inf(ps[i].first, ps[i].second));
                    }
                    std::filesystem::remove(f + "x");
                    std::filesystem::remove(f + "z");
                    rec.add("files");
                } },
            [&](u64 i) { return inf(ps[i].first, ps[i].second); });
    std::vector<std::pair<Mat, Mat>> fam{{hamming(3), hamming(3)}, {shorX(), shorZ()}, {shorZ(), shorX()}, {toric(2, false), toric(2, true)}, {toric(3, false), toric(3, true)}, {toric(4, false), toric(4, true)}, {toric(5, true), toric(5, false)}, {hamming(4), hamming(4)}, {tree(), dense(7, 5, 2)}, {dense(12, 9, 3), dense(12, 4, 4)}};
    struct B {
        std::size_t f;
        u64         blk;
    };
    std::vector<B> bs;
    for (std::size_t f = 0; f < fam.size(); ++f) {
        for (u64 b = 0; b < 16; ++b) {
            bs.push_back({f, b});
        }
    }
    mc::explore(
            "css-codes", bs.size(), [&](u64 i, mc::Rec& rec) {
                const auto&   p = fam[bs[i].f];
                const u64     k = bs[i].blk;
                // every vector up to weight 2, every stabilizer generator and product of two, each with one flipped bit
                std::set<u64> es{0};
                for (int a = 0; a < p.second.n; ++a) {
                    es.insert(1ULL << a);
                    for (int b = 0; b < a; ++b) {
                        es.insert((1ULL << a) | (1ULL << b));
                    }
                }
                std::vector<u64> g = p.first.rows;
                g.insert(g.end(), p.second.rows.begin(), p.second.rows.end());
                u64 all = 0;
                for (auto a : g) {
                    all ^= a;
                    es.insert(a);
                    es.insert(a ^ 1);
                    es.insert(all);
                    for (auto b : g) {
                        es.insert(a ^ b);
                        es.insert(a ^ b ^ (1ULL << (p.second.n - 1)));
                    }
                }
                std::vector<u64> mine;
                u64              q = 0;
                for (auto e : es) {
                    if (q++ % 16 == k && mine.size() < (quick ? 24 : 120)) {
                        mine.push_back(e);
                    }
                }
                mine.push_back(0);
                pairCheck(p.first, p.second, rec, mine);
                if (k == 0) {
                    auto H = toMat(p.second);
                    Code c(H);
                    graph(p.second, *c.gethZ(), rec);
                } },
            [&](u64 i) { return inf(fam[bs[i].f].first, fam[bs[i].f].second); });
    mc::note("hx=101/011 hz=111: every pair (x,z) of error vectors, syndromes and stabilizer membership through all overloads");
    return 0;
}
