// two-sided decoding = pair of one-sided decodings, in the layout X part | Z part
#include "codes.hpp"

#include "UFDecoder.hpp"
#include "UFHeuristic.hpp"
using namespace ref;

struct Out {
    gf2Vec                   est;
    std::vector<std::size_t> idx;
};
static std::unique_ptr<Decoder> mkDec(int d) {
    if (d == 0) {
        return std::make_unique<UFDecoder>();
    }
    return std::make_unique<UFHeuristic>();
}
static Out one(int d, const Mat& h, const gf2Vec& s, int g) {
    auto m = toMat(h);
    Code c(m);
    auto dec = mkDec(d);
    dec->setCode(c);
    dec->setGrowth(static_cast<GrowthVariant>(g));
    dec->decode(s);
    Out o{dec->result.estimBoolVector, dec->result.estimNodeIdxVector};
    std::sort(o.idx.begin(), o.idx.end());
    return o;
}

static void check(const Mat& hx, const Mat& hz, int d, int g, u64 ex, u64 ez, mc::Rec& rec) {
    const auto n = static_cast<std::size_t>(hz.n);
    auto mx = toMat(hx);
    auto mz = toMat(hz);
    Code code(mx, mz);
    auto info = [&] { return mc::json{{"hx", str(hx)}, {"hz", str(hz)}, {"xerr", str(ex, hz.n)}, {"zerr", str(ez, hz.n)}, {"decoder", d == 0 ? "UFDecoder" : "UFHeuristic"}, {"growth", g}}; };
    // syndrome interfaces agree with the layout
    const auto sx = toVec(syndrome(hz, ex), static_cast<int>(hz.rows.size()));
    const auto sz = toVec(syndrome(hx, ez), static_cast<int>(hx.rows.size()));
    gf2Vec     both = sx;
    both.insert(both.end(), sz.begin(), sz.end());
    gf2Vec err = toVec(ex, hz.n);
    const auto ze = toVec(ez, hz.n);
    err.insert(err.end(), ze.begin(), ze.end());
    if (code.getSyndrome(toVec(ex, hz.n), ze) != both || code.getXSyndrome(err) != both) {
        rec.bad("two-sided syndrome is not the X syndrome followed by the Z syndrome", info());
    }
    mc::allChoices(0, [&] {
        // same (fair, fixed) random decisions in the one-sided runs as in the halves of the two-sided run
        auto dec = mkDec(d);
        dec->setCode(code);
        dec->setGrowth(static_cast<GrowthVariant>(g));
        dec->decode(both);
        const auto& r = dec->result;
        if (dec->getGrowth() != static_cast<GrowthVariant>(g)) {
            rec.bad("decoding changed the configured growth variant", info());
        }
        if (r.estimBoolVector.size() != 2 * n) {
            rec.bad("two-sided estimate does not have 2n entries", info());
            return;
        }
        gf2Vec x(r.estimBoolVector.begin(), r.estimBoolVector.begin() + static_cast<long>(n));
        gf2Vec z(r.estimBoolVector.begin() + static_cast<long>(n), r.estimBoolVector.end());
        std::set<std::size_t> is(r.estimNodeIdxVector.begin(), r.estimNodeIdxVector.end()), want;
        for (std::size_t i = 0; i < 2 * n; ++i) {
            if (r.estimBoolVector[i]) {
                want.insert(i);
            }
        }
        if (is != want || is.size() != r.estimNodeIdxVector.size()) {
            rec.bad("list of estimated bits and estimate vector disagree", info());
        }
        if (d == 0 && (syndrome(hz, toMask(x)) != syndrome(hz, ex) || syndrome(hx, toMask(z)) != syndrome(hx, ez))) {
            rec.bad("two-sided estimate does not reproduce the syndrome", info());
        }
        if (g < 3) {
            const auto ox = one(d, hz, sx, g);
            const auto oz = one(d, hx, sz, g);
            if (ox.est != x) {
                rec.bad("X half differs from the one-sided decoding with the Z checks", info());
            }
            if (oz.est != z) {
                rec.bad("Z half differs from the one-sided decoding with the X checks", info());
            }
        }
    });
    rec.add("states");
    rec.add("transitions");
    rec.add("traces");
}

int main(int argc, char** argv) {
    std::map<std::string, std::string> kv;
    mc::parseArgs(argc, argv, kv);
    const bool quick = kv["tier"] != "thorough";
    struct P {
        Mat x, z;
    };
    std::vector<P> ps;
    for (int n = 1; n <= (quick ? 3 : 4); ++n) {
        std::vector<Mat> ms;
        for (int r = 1; r <= 2; ++r) {
            enumMats(ms, n, r, n >= 3, false);
        }
        if (n == 3) {
            enumMats(ms, n, 3, true, false);
        }
        for (auto& a : ms) {
            for (auto& b : ms) {
                ps.push_back({a, b});
            }
        }
    }
    auto gmax = [](int d) { return d == 0 ? 5 : 4; };
    mc::explore(
            "all-small-pairs", ps.size(), [&](u64 i, mc::Rec& rec) {
                const auto& p  = ps[i];
                const auto  sx = syndromes(p.z, 0, 1U << 20);
                const auto  sz = syndromes(p.x, 0, 1U << 20);
                for (auto& a : sx) {
                    for (auto& b : sz) {
                        for (int d = 0; d < 2; ++d) {
                            for (int g = 0; g < gmax(d); ++g) {
                                check(p.x, p.z, d, g, a.second, b.second, rec);
                            }
                        }
                    }
                } },
            [&](u64 i) { return mc::json{{"hx", str(ps[i].x)}, {"hz", str(ps[i].z)}}; });
    std::vector<P> fam{{hamming(3), hamming(3)}, {shorX(), shorZ()}, {shorZ(), shorX()}, {toric(2, false), toric(2, true)}, {toric(3, false), toric(3, true)}, {Mat{4, {15}, "422"}, Mat{4, {15}, "422"}}, {repetition(6), dense(6, 6, 3)}, {dense(6, 6, 4), ring(6)}};
    struct B {
        std::size_t f;
        u64         ex, ez;
    };
    std::vector<B> bs;
    for (std::size_t f = 0; f < fam.size(); ++f) {
        for (auto& a : syndromes(fam[f].z, quick ? 1 : 2, quick ? 32 : 64)) {
            for (auto& b : syndromes(fam[f].x, quick ? 1 : 2, quick ? 32 : 64)) {
                bs.push_back({f, a.second, b.second});
            }
        }
    }
    mc::explore(
            "css-codes", bs.size(), [&](u64 i, mc::Rec& rec) {
                const auto& b = bs[i];
                for (int d = 0; d < 2; ++d) {
                    for (int g = 0; g < gmax(d); ++g) {
                        check(fam[b.f].x, fam[b.f].z, d, g, b.ex, b.ez, rec);
                    }
                } },
            [&](u64 i) { return mc::json{{"hx", str(fam[bs[i].f].x)}, {"hz", str(fam[bs[i].f].z)}, {"xerr", bs[i].ex}, {"zerr", bs[i].ez}}; });
    mc::note("hx=1111, hz=110/011.. with different numbers of rows: every pair of syndromes, both decoders, every growth variant");
    return 0;
}
