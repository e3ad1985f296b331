// Included in front of every translation unit (g++ -include): replaces the sources of nondeterminism of <random> by
// controlled stand-ins, so that the explorer decides (and enumerates) every random choice of the code under test.
#pragma once
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <nlohmann/json.hpp>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <condition_variable>
#include <future>
#include <mutex>
#include <thread>

namespace mc {
struct Runaway {}; // the code under test keeps drawing random numbers without ever terminating

// depth-first enumeration of choice sequences: the first `depth` choices of an execution are enumerated exhaustively,
// later ones follow a fixed fair schedule
struct Chooser {
    std::vector<std::size_t> trace, width;
    std::size_t              pos     = 0;
    std::size_t              depth   = 0;
    std::size_t              limit   = 200000;
    std::uint64_t            fair    = 0;
    std::size_t              maxSeen = 0;
    void                     begin() {
        pos  = 0;
        fair = 0x9E3779B97F4A7C15ULL;
    }
    std::size_t choose(std::size_t n) {
        if (n <= 1) {
            return 0;
        }
        if (pos >= limit) {
            throw Runaway{};
        }
        std::size_t r = 0;
        if (pos < trace.size()) {
            if (width[pos] != n) { // not reproducible: keep the enumeration sound by restarting this level
                trace.resize(pos);
                width.resize(pos);
                if (pos < depth) {
                    trace.push_back(0);
                    width.push_back(n);
                }
                r = 0;
            } else {
                r = trace[pos];
            }
        } else if (pos < depth) {
            trace.push_back(0);
            width.push_back(n);
        } else {
            fair ^= fair << 13;
            fair ^= fair >> 7;
            fair ^= fair << 17;
            r = static_cast<std::size_t>((fair >> 11) % n);
        }
        ++pos;
        if (pos > maxSeen) {
            maxSeen = pos;
        }
        return r;
    }
    bool next() { // advance to the next choice sequence
        while (!trace.empty()) {
            if (++trace.back() < width.back()) {
                return true;
            }
            trace.pop_back();
            width.pop_back();
        }
        return false;
    }
    void clear() {
        trace.clear();
        width.clear();
        begin();
    }
};
inline Chooser chooser;
inline std::vector<double> bernoulliProbs; // success probability of every coin of the current execution
inline std::vector<char>   bernoulliVals;
inline bool                coin(double p) {
    const bool r = p >= 1. ? true : (p <= 0. ? false : chooser.choose(2) == 1);
    bernoulliProbs.push_back(p);
    bernoulliVals.push_back(r ? 1 : 0);
    return r;
}
} // namespace mc

namespace std {
struct mc_random_device {
    using result_type = unsigned;
    mc_random_device() = default;
    explicit mc_random_device(const std::string&) {}
    unsigned                  operator()() { return 42U; }
    static constexpr unsigned min() { return 0; }
    static constexpr unsigned max() { return ~0U; }
    double                    entropy() const { return 32; }
};
template <class T = int>
struct mc_uniform_int_distribution {
    using result_type = T;
    T lo = 0, hi = std::numeric_limits<T>::max();
    mc_uniform_int_distribution() = default;
    explicit mc_uniform_int_distribution(T a, T b = std::numeric_limits<T>::max()) : lo(a), hi(b) {}
    struct param_type {
        T a, b;
        param_type(T x, T y) : a(x), b(y) {}
    };
    template <class G>
    T operator()(G&) { return static_cast<T>(lo + static_cast<T>(mc::chooser.choose(static_cast<std::size_t>(hi - lo) + 1))); }
    template <class G>
    T    operator()(G&, const param_type& p) { return static_cast<T>(p.a + static_cast<T>(mc::chooser.choose(static_cast<std::size_t>(p.b - p.a) + 1))); }
    void reset() {}
    T    a() const { return lo; }
    T    b() const { return hi; }
    T    min() const { return lo; }
    T    max() const { return hi; }
};
template <class T>
mc_uniform_int_distribution(T, T) -> mc_uniform_int_distribution<T>;
struct mc_bernoulli_distribution {
    using result_type = bool;
    double pp         = 0.5;
    mc_bernoulli_distribution() = default;
    explicit mc_bernoulli_distribution(double p) : pp(p) {}
    template <class G>
    bool   operator()(G&) { return mc::coin(pp); }
    double p() const { return pp; }
    void   reset() {}
};
namespace chrono {
struct mc_clock { // every reading is exactly tickMs later than the previous one, or as the script says
    using duration                  = std::chrono::nanoseconds;
    using rep                       = duration::rep;
    using period                    = duration::period;
    using time_point                = std::chrono::time_point<mc_clock>;
    static constexpr bool is_steady = true;
    static inline long long t       = 0;
    static inline long long tickMs  = 1;
    static inline unsigned long long     reads = 0, group = 1; // script entry i is the step of the readings i * group, ...
    static inline std::vector<long long> script{};
    static time_point now() noexcept {
        const auto at = static_cast<std::size_t>(reads++ / group);
        t += (script.empty() ? tickMs : script[at < script.size() ? at : script.size() - 1]) * 1000000LL;
        return time_point(duration(t));
    }
};
} // namespace chrono
} // namespace std
#define high_resolution_clock mc_clock
#define steady_clock mc_clock
#define random_device mc_random_device
#define uniform_int_distribution mc_uniform_int_distribution
#define bernoulli_distribution mc_bernoulli_distribution
