// All operation histories of one decoder object up to a depth: every decode must give what a pristine decoder in a pristine
// process gives for the same code, growth and syndrome.
#include "codes.hpp"

#include "UFDecoder.hpp"
#include "UFHeuristic.hpp"
using namespace ref;

struct CodeDef {
    Mat         hx, hz;
    bool        css;
    std::string name;
};
static std::vector<CodeDef> codes;
static std::vector<std::vector<gf2Vec>> syns; // per code

static std::unique_ptr<Code> mk(const CodeDef& c) {
    auto hz = toMat(c.hz);
    if (!c.css) {
        return std::make_unique<Code>(hz);
    }
    auto hx = toMat(c.hx);
    return std::make_unique<Code>(hx, hz);
}
static std::unique_ptr<Decoder> mkDec(int d) {
    if (d == 0) {
        return std::make_unique<UFDecoder>();
    }
    return std::make_unique<UFHeuristic>();
}
static std::string out(const DecodingResult& r) {
    std::vector<std::size_t> v = r.estimNodeIdxVector;
    std::sort(v.begin(), v.end());
    std::string s = Utils::getStringFrom(r.estimBoolVector) + " idx";
    for (auto x : v) {
        s += " " + std::to_string(x);
    }
    return s;
}
// reference: forked, pristine
static std::string pristine(int d, std::size_t c, int g, const gf2Vec& s) {
    int p[2];
    (void)!pipe(p);
    std::cout.flush();
    const pid_t pid = fork();
    if (pid == 0) {
        alarm(20);
        std::string o;
        try {
            auto code = mk(codes[c]);
            auto dec  = mkDec(d);
            dec->setCode(*code);
            dec->setGrowth(static_cast<GrowthVariant>(g));
            mc::chooser.depth = 0;
            mc::chooser.clear();
            dec->decode(s);
            o = out(dec->result);
        } catch (const std::invalid_argument&) {
            o = "unsupported";
        }
        (void)!write(p[1], o.data(), o.size());
        _exit(0);
    }
    close(p[1]);
    std::string r;
    char        b[4096];
    for (;;) {
        const auto m = read(p[0], b, sizeof b);
        if (m <= 0) {
            break;
        }
        r.append(b, static_cast<std::size_t>(m));
    }
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    return r;
}

struct Op {
    char kind; // c(ode) g(rowth) d(ecode) r(eset)
    int  arg;
};

int main(int argc, char** argv) {
    std::map<std::string, std::string> kv;
    mc::parseArgs(argc, argv, kv);
    const bool quick = kv["tier"] != "thorough";
    codes.push_back({Mat{}, Mat{3, {3, 6}, ""}, false, "repetition3"});
    codes.push_back({hamming(3), hamming(3), true, "steane"});
    codes.push_back({Mat{4, {15}, ""}, Mat{4, {15, 15, 3}, ""}, true, "[[4]] unequal numbers of checks"});
    codes.push_back({toric(2, false), toric(2, true), true, "toric2"});
    for (auto& c : codes) {
        std::vector<gf2Vec> v;
        std::vector<u64>    errs{0, 1, 2, 5, 9};
        for (auto e : errs) {
            auto s = toVec(syndrome(c.hz, e), static_cast<int>(c.hz.rows.size()));
            v.push_back(s);
            if (c.css && e != 0) { // two-sided syndrome
                auto z = toVec(syndrome(c.hx, e == 2 ? 4 : 2), static_cast<int>(c.hx.rows.size()));
                s.insert(s.end(), z.begin(), z.end());
                v.push_back(s);
            }
        }
        std::sort(v.begin(), v.end());
        v.erase(std::unique(v.begin(), v.end()), v.end());
        syns.push_back(v);
    }
    // reference table
    std::map<std::tuple<int, std::size_t, int, std::size_t>, std::string> table;
    for (int d = 0; d < 2; ++d) {
        for (std::size_t c = 0; c < codes.size(); ++c) {
            for (int g = 0; g < 5; ++g) {
                for (std::size_t s = 0; s < syns[c].size(); ++s) {
                    table[{d, c, g, s}] = pristine(d, c, g, syns[c][s]);
                }
            }
        }
    }
    // alphabet: setCode x codes, setGrowth x 5, reset, decode x syndromes (index modulo those of the current code)
    std::vector<Op> al;
    std::size_t     maxSyn = 0;
    for (auto& s : syns) {
        maxSyn = std::max(maxSyn, s.size());
    }
    for (std::size_t c = 0; c < codes.size(); ++c) {
        al.push_back({'c', static_cast<int>(c)});
    }
    for (int g = 0; g < 5; ++g) {
        al.push_back({'g', g});
    }
    al.push_back({'r', 0});
    for (std::size_t s = 0; s < maxSyn; ++s) {
        al.push_back({'d', static_cast<int>(s)});
    }
    const int depth = quick ? 5 : 6;
    // a case fixes the decoder, the first code and the first two operations, and explores all continuations
    const u64 A     = al.size();
    auto      names = [&](const std::vector<Op>& h) {
        std::string s;
        for (auto& o : h) {
            s += std::string(1, o.kind) + std::to_string(o.arg) + " ";
        }
        return s;
    };
    auto runHist = [&](int d, const std::vector<Op>& h, mc::Rec& rec) {
        // returns true if the history is well formed (decode index exists)
        auto        dec  = mkDec(d);
        std::size_t cur  = 0;
        bool        have = false;
        for (std::size_t k = 0; k < h.size(); ++k) {
            const auto& o = h[k];
            if (o.kind == 'c') {
                auto code = mk(codes[static_cast<std::size_t>(o.arg)]);
                dec->setCode(*code);
                cur  = static_cast<std::size_t>(o.arg);
                have = true;
            } else if (o.kind == 'g') {
                dec->setGrowth(static_cast<GrowthVariant>(o.arg));
            } else if (o.kind == 'r') {
                dec->reset();
            } else {
                const auto&       s  = syns[cur][static_cast<std::size_t>(o.arg)];
                const auto        g  = dec->getGrowth();
                const std::string wa = table.at({d, cur, static_cast<int>(g), static_cast<std::size_t>(o.arg)});
                std::string       got;
                mc::chooser.depth = 0;
                mc::chooser.clear();
                try {
                    dec->decode(s);
                    got = out(dec->result);
                } catch (const std::invalid_argument&) {
                    got = "unsupported";
                }
                if (k + 1 == h.size()) {
                    rec.add("transitions");
                    rec.add("traces");
                    auto info = [&] { return mc::json{{"decoder", d == 0 ? "UFDecoder" : "UFHeuristic"}, {"history", names(h)}, {"fresh", wa}, {"got", got}, {"code", codes[cur].name}, {"syndrome", Utils::getStringFrom(s)}}; };
                    if (got != wa) {
                        rec.bad("result after this history differs from the result of a fresh decoder", info());
                    }
                    if (dec->getGrowth() != g) {
                        rec.bad("decoding changed the configured growth variant", info());
                    }
                    if (dec->getCode()->getHzMat() != toMat(codes[cur].hz) || (codes[cur].css && dec->getCode()->getHxMat() != toMat(codes[cur].hx)) || dec->getCode()->getN() != static_cast<std::size_t>(codes[cur].hz.n)) {
                        rec.bad("decoding changed the code", info());
                    }
                }
            }
        }
        (void)have;
    };
    const u64 total = 2 * codes.size() * A * A;
    mc::explore(
            "histories", total, [&](u64 i, mc::Rec& rec) {
                const int        d  = static_cast<int>(i % 2);
                const auto       c0 = (i / 2) % codes.size();
                const u64        r  = i / 2 / codes.size();
                std::vector<Op>  h{{'c', static_cast<int>(c0)}, al[r / A], al[r % A]};
                auto             ok = [&](const std::vector<Op>& x) {
                    std::size_t cur = 0;
                    for (auto& o : x) {
                        if (o.kind == 'c') {
                            cur = static_cast<std::size_t>(o.arg);
                        } else if (o.kind == 'd' && static_cast<std::size_t>(o.arg) >= syns[cur].size()) {
                            return false;
                        } else if (o.kind == 'g' && d == 1 && o.arg == 4) {
                            return false; // not offered by the heuristic
                        }
                    }
                    return true;
                };
                if (!ok(h)) {
                    return;
                }
                // all continuations that end in a decode (histories ending otherwise are prefixes of these)
                std::function<void(int)> go = [&](int left) {
                    if (h.back().kind == 'd') {
                        rec.add("states");
                        runHist(d, h, rec);
                    }
                    if (left == 0) {
                        return;
                    }
                    for (auto& o : al) {
                        // adjacent configuration calls of the same kind overwrite each other: explored once
                        if (o.kind != 'd' && o.kind == h.back().kind) {
                            continue;
                        }
                        if (left == 1 && o.kind != 'd') {
                            continue;
                        }
                        h.push_back(o);
                        if (ok(h)) {
                            go(left - 1);
                        }
                        h.pop_back();
                    }
                };
                go(depth - 2); },
            [&](u64 i) { const u64 r = i / 2 / codes.size(); return mc::json{{"decoder", i % 2 == 0 ? "UFDecoder" : "UFHeuristic"}, {"first", names({{'c', static_cast<int>((i / 2) % codes.size())}, al[r / A], al[r % A]})}}; });
    mc::note("history: setCode(steane) setGrowth(SingleSmallest) decode(s1) reset decode(s1|z) - last decode compared with a fresh decoder in a fresh process");
    return 0;
}
