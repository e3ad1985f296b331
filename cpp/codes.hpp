// Independent reference arithmetic over GF(2) and the families of parity check matrices the checks enumerate.
#pragma once
#include "mc.hpp"

#include "Code.hpp"
#include "Utils.hpp"

namespace ref {
using u64 = std::uint64_t;
struct Mat { // rows as bit masks, n <= 64
    int              n = 0;
    std::vector<u64> rows;
    std::string      name;
};
inline int par(u64 x) { return __builtin_parityll(x); }
inline gf2Vec toVec(u64 v, int n) {
    gf2Vec r(static_cast<std::size_t>(n));
    for (int i = 0; i < n; ++i) {
        r[static_cast<std::size_t>(i)] = ((v >> i) & 1ULL) != 0;
    }
    return r;
}
inline u64 toMask(const gf2Vec& v) {
    u64 r = 0;
    for (std::size_t i = 0; i < v.size(); ++i) {
        if (v[i]) {
            r |= 1ULL << i;
        }
    }
    return r;
}
inline gf2Mat toMat(const Mat& m) {
    gf2Mat r;
    for (auto x : m.rows) {
        r.push_back(toVec(x, m.n));
    }
    return r;
}
inline u64 syndrome(const Mat& m, u64 e) {
    u64 s = 0;
    for (std::size_t i = 0; i < m.rows.size(); ++i) {
        s |= static_cast<u64>(par(m.rows[i] & e)) << i;
    }
    return s;
}
inline gf2Vec synVec(const gf2Mat& m, const gf2Vec& e) {
    gf2Vec s(m.size());
    for (std::size_t i = 0; i < m.size(); ++i) {
        bool b = false;
        for (std::size_t j = 0; j < e.size(); ++j) {
            b ^= m[i][j] && e[j];
        }
        s[i] = b;
    }
    return s;
}
inline std::vector<u64> span(const std::vector<u64>& g) {
    std::vector<u64> s{0};
    std::set<u64>    seen{0};
    for (auto x : g) {
        const auto k = s.size();
        if (seen.count(x) != 0) {
            continue;
        }
        for (std::size_t i = 0; i < k; ++i) {
            s.push_back(s[i] ^ x);
            seen.insert(s[i] ^ x);
        }
    }
    return s;
}
inline int rank(std::vector<u64> r) {
    int k = 0;
    for (int b = 0; b < 64; ++b) {
        std::size_t p = static_cast<std::size_t>(k);
        while (p < r.size() && ((r[p] >> b) & 1ULL) == 0) {
            ++p;
        }
        if (p == r.size()) {
            continue;
        }
        std::swap(r[p], r[static_cast<std::size_t>(k)]);
        for (std::size_t i = 0; i < r.size(); ++i) {
            if (i != static_cast<std::size_t>(k) && ((r[i] >> b) & 1ULL) != 0) {
                r[i] ^= r[static_cast<std::size_t>(k)];
            }
        }
        ++k;
    }
    return k;
}
inline bool inSpan(const std::vector<u64>& g, u64 v) {
    auto h = g;
    h.push_back(v);
    return rank(h) == rank(g);
}
// all matrices with 1..maxn columns and 1..maxr rows; sorted: one representative per order of the rows
inline void enumMats(std::vector<Mat>& out, int n, int r, bool sorted, bool zeroRows) {
    std::vector<u64> rows(static_cast<std::size_t>(r));
    const u64        lim = 1ULL << n;
    std::function<void(int)> go = [&](int i) {
        if (i == r) {
            out.push_back({n, rows, ""});
            return;
        }
        for (u64 v = zeroRows ? 0 : 1; v < lim; ++v) {
            if (sorted && i > 0 && v < rows[static_cast<std::size_t>(i) - 1]) {
                continue;
            }
            rows[static_cast<std::size_t>(i)] = v;
            go(i + 1);
        }
    };
    go(0);
}
inline Mat repetition(int n) {
    Mat m{n, {}, "repetition" + std::to_string(n)};
    for (int i = 0; i + 1 < n; ++i) {
        m.rows.push_back(3ULL << i);
    }
    return m;
}
inline Mat ring(int n) {
    Mat m{n, {}, "ring" + std::to_string(n)};
    for (int i = 0; i < n; ++i) {
        m.rows.push_back((1ULL << i) | (1ULL << ((i + 1) % n)));
    }
    return m;
}
inline Mat hamming(int r) {
    const int n = (1 << r) - 1;
    Mat       m{n, {}, "hamming" + std::to_string(n)};
    for (int b = 0; b < r; ++b) {
        u64 row = 0;
        for (int c = 1; c <= n; ++c) {
            row |= static_cast<u64>((c >> b) & 1) << (c - 1);
        }
        m.rows.push_back(row);
    }
    return m;
}
// toric code, qubits: horizontal edges 0..L*L-1, vertical edges L*L..2L*L-1
inline Mat toric(int L, bool plaquette) {
    Mat  m{2 * L * L, {}, std::string("toric") + std::to_string(L) + (plaquette ? "z" : "x")};
    auto h = [&](int r, int c) { return 1ULL << (((r + L) % L) * L + (c + L) % L); };
    auto v = [&](int r, int c) { return 1ULL << (L * L + ((r + L) % L) * L + (c + L) % L); };
    for (int r = 0; r < L; ++r) {
        for (int c = 0; c < L; ++c) {
            m.rows.push_back(plaquette ? (h(r, c) | h(r + 1, c) | v(r, c) | v(r, c + 1)) : (h(r, c) | h(r, c - 1) | v(r, c) | v(r - 1, c)));
        }
    }
    return m;
}
inline Mat shorX() { // X checks of the nine qubit code
    return {9, {0x3FULL, 0x1F8ULL}, "shor9x"};
}
inline Mat shorZ() {
    return {9, {3, 6, 24, 48, 192, 384}, "shor9z"};
}
inline Mat tree() { // Tanner graph with leaves, high degree node and a zero column
    return {7, {0x1, 0x1F, 0x30}, "tree7"};
}
inline Mat dense(int n, int r, u64 seed) { // fixed dense matrix from a linear congruential sequence
    Mat m{n, {}, "dense" + std::to_string(n) + "x" + std::to_string(r) + "#" + std::to_string(seed)};
    u64 x = seed;
    for (int i = 0; i < r; ++i) {
        u64 row = 0;
        for (int j = 0; j < n; ++j) {
            x = x * 6364136223846793005ULL + 1442695040888963407ULL;
            row |= ((x >> 60) & 1ULL) << j;
        }
        m.rows.push_back(row == 0 ? 1 : row);
    }
    return m;
}
inline std::string str(const Mat& m) {
    std::string s = m.name.empty() ? "" : m.name + " ";
    for (auto r : m.rows) {
        for (int i = 0; i < m.n; ++i) {
            s += ((r >> i) & 1ULL) != 0 ? '1' : '0';
        }
        s += ' ';
    }
    return s;
}
inline std::string str(u64 v, int n) {
    std::string s;
    for (int i = 0; i < n; ++i) {
        s += ((v >> i) & 1ULL) != 0 ? '1' : '0';
    }
    return s;
}
// representatives (one error per achievable syndrome) if there are at most `cap` syndromes, otherwise the
// representatives of all syndromes of errors of weight <= w
inline std::vector<std::pair<u64, u64>> syndromes(const Mat& m, int w, std::size_t cap) {
    std::map<u64, u64> s;
    if (rank(m.rows) <= 30 && (1ULL << rank(m.rows)) <= cap) {
        s[0] = 0;
        for (int j = 0; j < m.n; ++j) {
            const u64 c = syndrome(m, 1ULL << j);
            if (s.count(c) != 0) {
                continue;
            }
            auto t = s;
            for (auto& [k, v] : t) {
                s.emplace(k ^ c, v ^ (1ULL << j));
            }
        }
    } else {
        std::function<void(int, int, u64)> go = [&](int from, int left, u64 e) {
            s.emplace(syndrome(m, e), e);
            if (left == 0) {
                return;
            }
            for (int j = from; j < m.n; ++j) {
                go(j + 1, left - 1, e | (1ULL << j));
            }
        };
        go(0, w, 0);
    }
    return {s.begin(), s.end()};
}
} // namespace ref
