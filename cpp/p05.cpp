// GF(2) linear algebra against brute force
#include "codes.hpp"

#include "GF2.hpp"
using namespace ref;

static void checkMat(const Mat& m, mc::Rec& rec, bool allVecs) {
    const auto H = toMat(m);
    const auto R = m.rows.size();
    const auto N = static_cast<std::size_t>(m.n);
    auto info = [&](u64 v = 0) { return mc::json{{"matrix", str(m)}, {"vector", v}}; };
    const auto csc = Utils::toCsc(H);
    {
        bool ok = csc.size() == N;
        for (std::size_t c = 0; ok && c < N; ++c) {
            std::vector<u64> want;
            for (std::size_t r = 0; r < R; ++r) {
                if (H[r][c]) {
                    want.push_back(r);
                }
            }
            auto got = csc[c];
            std::sort(got.begin(), got.end());
            ok = got == want;
        }
        if (!ok) {
            rec.bad("column form of the matrix is wrong", info());
        }
    }
    const auto t = Utils::getTranspose(H);
    bool tok = t.size() == N;
    for (std::size_t c = 0; tok && c < N; ++c) {
        tok = t[c].size() == R;
        for (std::size_t r = 0; tok && r < R; ++r) {
            tok = t[c][r] == H[r][c];
        }
    }
    if (!tok || Utils::getTranspose(t) != H) {
        rec.bad("transpose is wrong", info());
    }
    const auto rk = static_cast<std::size_t>(rank(m.rows));
    auto plu = PluDecomposition(R, N, csc);
    if (plu.getMatrixRank() != rk) {
        rec.bad("rank is " + std::to_string(plu.getMatrixRank()) + ", expected " + std::to_string(rk), info());
    }
    // every right hand side: solvable ones must be solved; the decomposition is reused for all of them
    std::vector<u64> cols;
    for (int j = 0; j < m.n; ++j) {
        cols.push_back(syndrome(m, 1ULL << j));
    }
    const auto       cs = span(cols);
    const std::set<u64> im(cs.begin(), cs.end());
    const u64 ylim = R <= 12 ? (1ULL << R) : 0;
    auto solve = [&](u64 y) {
        std::vector<u64> yv(R);
        for (std::size_t i = 0; i < R; ++i) {
            yv[i] = (y >> i) & 1ULL;
        }
        const auto x = plu.luSolve(yv);
        u64 xm = 0;
        bool ok = x.size() == N;
        for (std::size_t i = 0; ok && i < N; ++i) {
            ok = x[i] <= 1;
            xm |= (x[i] & 1ULL) << i;
        }
        if (!ok || syndrome(m, xm) != y) {
            rec.bad("solution of a solvable system is wrong", info(y));
        }
        rec.add("transitions");
    };
    if (ylim != 0) {
        for (u64 y = 0; y < ylim; ++y) {
            if (im.count(y) != 0) {
                solve(y);
            }
        }
    } else {
        for (auto y : cs) {
            solve(y);
        }
    }
    bool threw = false;
    try {
        plu.luSolve(std::vector<u64>(R + 1, 0));
    } catch (const std::exception&) {
        threw = true;
    }
    if (!threw) {
        rec.bad("right hand side of the wrong length is accepted", info());
    }
    if (allVecs) {
        const auto rs = span(m.rows);
        const std::set<u64> rowspace(rs.begin(), rs.end());
        for (u64 v = 0; v < (1ULL << N); ++v) {
            const auto vv = toVec(v, m.n);
            if (Utils::isVectorInRowspace(H, vv) != (rowspace.count(v) != 0)) {
                rec.bad("rowspace membership is wrong", info(v));
            }
            gf2Vec s(R, false);
            Utils::rectMatrixMultiply(H, vv, s);
            if (toMask(s) != syndrome(m, v)) {
                rec.bad("matrix vector product is wrong", info(v));
            }
            rec.add("transitions", 2);
        }
    }
    rec.add("states");
    rec.add("traces");
}

int main(int argc, char** argv) {
    std::map<std::string, std::string> kv;
    mc::parseArgs(argc, argv, kv);
    const bool quick = kv["tier"] != "thorough";
    std::vector<std::tuple<int, int>> dims;
    for (int n = 1; n <= 5; ++n) {
        for (int r = 1; r <= 5; ++r) {
            if (n * r <= (quick ? 16 : 20)) {
                dims.emplace_back(n, r);
            }
        }
    }
    for (auto& [n, r] : dims) {
        const int N = n, R = r;
        const u64 tot = 1ULL << (n * r);
        const u64 blk = std::min<u64>(tot, 64);
        mc::explore(
                "all-" + std::to_string(r) + "x" + std::to_string(n), tot / blk, [&](u64 b, mc::Rec& rec) {
                    for (u64 i = b * blk; i < (b + 1) * blk; ++i) {
                        Mat m{N, {}, ""};
                        for (int q = 0; q < R; ++q) {
                            m.rows.push_back((i >> (q * N)) & ((1ULL << N) - 1));
                        }
                        checkMat(m, rec, true);
                    } },
                [&](u64 b) { return mc::json{{"block", b}}; });
    }
    std::vector<Mat> fam;
    for (int n = 5; n <= 12; ++n) {
        fam.push_back(repetition(n));
        fam.push_back(ring(n));
        for (u64 sd = 1; sd <= (quick ? 40U : 400U); ++sd) {
            fam.push_back(dense(n, n - 2, sd));
            fam.push_back(dense(n, std::min(n + 2, 12), sd));
            fam.push_back(dense(n, n, sd));
            auto l = dense(n, n, sd + 1000); // low rank: repeated and summed rows
            for (int q = 3; q < n; ++q) {
                l.rows[static_cast<std::size_t>(q)] = l.rows[static_cast<std::size_t>(q - 3)] ^ ((sd >> (q % 6)) & 1ULL ? l.rows[static_cast<std::size_t>(q - 2)] : 0);
            }
            l.name += " low rank";
            fam.push_back(l);
        }
    }
    for (auto& m : {hamming(3), hamming(4), shorX(), shorZ(), toric(2, true), tree()}) {
        fam.push_back(m);
    }
    mc::explore(
            "families", fam.size(), [&](u64 i, mc::Rec& rec) { checkMat(fam[i], rec, fam[i].n <= 12); }, [&](u64 i) { return mc::json{{"matrix", str(fam[i])}}; });
    // residual error = entrywise sum, for all pairs of vectors
    mc::explore(
            "residual", 6, [&](u64 q, mc::Rec& rec) {
                const int n = static_cast<int>(q) + 1;
                for (u64 a = 0; a < (1ULL << n); ++a) {
                    for (u64 b = 0; b < (1ULL << n); ++b) {
                        auto r = toVec(b, n);
                        Utils::computeResidualErr(toVec(a, n), r);
                        if (toMask(r) != (a ^ b)) {
                            rec.bad("residual error is not the sum of error and estimate", mc::json{{"n", n}, {"error", a}, {"estimate", b}});
                        }
                        rec.add("states");
                        rec.add("transitions");
                        rec.add("traces");
                    }
                } },
            [&](u64 q) { return mc::json{{"n", q + 1}}; });
    mc::note("matrix 110/011/101 (rank 2): rank, transpose, column form, every right hand side, every vector for rowspace and product");
    return 0;
}
