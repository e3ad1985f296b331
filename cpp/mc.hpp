// Exhaustive exploration of an indexed set of cases in forked workers; crashes and hangs become violations.
#pragma once
#include "mc_random.hpp"

#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iterator>
#include <sstream>
#include <string>
#include <ctime>
#include <poll.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {
using json = nlohmann::json;
using u64  = std::uint64_t;

inline double cpuSeconds(pid_t pid) {
    std::ifstream in("/proc/" + std::to_string(pid) + "/stat");
    std::string   t((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    const auto    p = t.rfind(')');
    if (p == std::string::npos) {
        return 0;
    }
    std::istringstream is(t.substr(p + 1));
    std::string        w;
    double             u = 0;
    for (int i = 0; i < 13 && (is >> w); i++) {
        if (i >= 11) {
            u += std::stod(w);
        }
    }
    return u / static_cast<double>(sysconf(_SC_CLK_TCK));
}
inline double now() {
    timespec t{};
    clock_gettime(CLOCK_MONOTONIC, &t);
    return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}

struct Rec {
    int                        fd = 1;
    std::map<std::string, u64> cnt;
    u64                        nv = 0;
    std::string                part;
    u64                        idx = 0;
    void bad(const std::string& what, json c = json::object(), const std::string& key = "") {
        ++nv;
        if (nv > 20) {
            return;
        }
        c["part"]  = part;
        c["index"] = idx;
        if (!chooser.trace.empty()) {
            c["choices"] = chooser.trace;
        }
        json j{{"what", part + ": " + what}, {"case", c}};
        if (!key.empty()) {
            j["key"] = key;
        }
        const std::string s = "V " + j.dump() + "\n";
        (void)!write(fd, s.data(), s.size());
    }
    void add(const char* k, u64 v = 1) { cnt[k] += v; }
};

struct Shared {
    std::atomic<u64> next;
    struct W {
        std::atomic<u64>    idx;
        std::atomic<double> start;
        std::atomic<int>    active;
    } w[64];
};

struct Options {
    std::string only; // "part" or "part:index" (replay)
    double      timeout = 20;
    int         nproc   = 8;
};
inline Options& opts() {
    static Options o;
    return o;
}
inline u64 totalViolations = 0;

inline void note(const std::string& s) {
    std::cout << "X " << s << std::endl;
}

// f(i, rec) for every i in [0, n)
template <class F, class D>
void explore(const std::string& part, u64 n, F f, D describe) {
    if (totalViolations >= 5) {
        return;
    }
    u64 lo = 0;
    u64 hi = n;
    if (!opts().only.empty()) {
        const auto c = opts().only.find(':');
        if (opts().only.substr(0, c) != part) {
            return;
        }
        if (c != std::string::npos) {
            lo = std::stoull(opts().only.substr(c + 1));
            hi = std::min(n, lo + 1);
        }
    }
    auto* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    sh->next = lo;
    const u64 chunk = std::max<u64>(1, std::min<u64>(256, (hi - lo) / (static_cast<u64>(opts().nproc) * 16)));
    struct Wk {
        pid_t       pid;
        int         fd;
        std::string buf;
        double      late = -1, cpu0 = 0;
    };
    std::map<int, Wk> ws;
    std::cout.flush();
    auto spawn = [&](int w, u64 a, u64 b) { // first the cases [a, b), then chunks
        int p[2];
        if (pipe(p) != 0) {
            std::exit(3);
        }
        sh->w[w].active = 0;
        sh->w[w].start  = now();
        const pid_t pid = fork();
        if (pid == 0) {
            close(p[0]);
            for (auto& [k, v] : ws) {
                close(v.fd);
            }
            const int nul = open("/dev/null", O_WRONLY);
            dup2(nul, 1); // the code under test may print
            dup2(nul, 2);
            Rec r;
            r.fd   = p[1];
            r.part = part;
            u64 x = a, y = b, done = 0;
            for (;;) {
                for (u64 i = x; i < y; ++i) {
                    sh->w[w].idx    = i;
                    sh->w[w].start  = now();
                    sh->w[w].active = 1;
                    r.idx           = i;
                    try {
                        f(i, r);
                    } catch (const std::exception& e) {
                        r.bad(std::string("unexpected exception: ") + e.what(), describe(i));
                    } catch (const Runaway&) {
                        r.bad("does not terminate under a fair choice of its random decisions", describe(i));
                    }
                    sh->w[w].active = 0;
                    ++done;
                }
                x = sh->next.fetch_add(chunk);
                if (x >= hi) {
                    break;
                }
                y = std::min(hi, x + chunk);
            }
            r.cnt["cases"] = done;
            json j(r.cnt);
            const std::string s = "C " + j.dump() + "\n";
            (void)!write(p[1], s.data(), s.size());
            _exit(0);
        }
        close(p[1]);
        ws[w] = {pid, p[0], ""};
    };
    const int np = static_cast<int>(std::min<u64>(static_cast<u64>(opts().nproc), std::max<u64>(1, hi - lo)));
    for (int w = 0; w < np; ++w) {
        spawn(w, 0, 0);
    }
    std::map<std::string, u64> agg;
    bool                       died = false;
    while (!ws.empty()) {
        std::vector<pollfd> pf;
        std::vector<int>    id;
        for (auto& [k, v] : ws) {
            pf.push_back({v.fd, POLLIN, 0});
            id.push_back(k);
        }
        poll(pf.data(), pf.size(), 500);
        for (std::size_t q = 0; q < pf.size(); ++q) {
            auto& wk  = ws[id[q]];
            bool  eof = false;
            if ((pf[q].revents & (POLLIN | POLLHUP)) != 0) {
                char       b[65536];
                const auto m = read(wk.fd, b, sizeof b);
                if (m > 0) {
                    wk.buf.append(b, static_cast<std::size_t>(m));
                    std::size_t e = 0;
                    while ((e = wk.buf.find('\n')) != std::string::npos) {
                        const auto ln = wk.buf.substr(0, e);
                        wk.buf.erase(0, e + 1);
                        if (ln[0] == 'V') {
                            std::cout << ln << std::endl;
                            if (json::parse(ln.substr(2)).count("key") == 0) {
                                ++totalViolations;
                            }
                        } else if (ln[0] == 'C') {
                            const json cj = json::parse(ln.substr(2));
                            for (auto& [k, v] : cj.items()) {
                                if (k.rfind("max_", 0) == 0) {
                                    agg[k] = std::max(agg[k], v.template get<u64>());
                                } else {
                                    agg[k] += v.template get<u64>();
                                }
                            }
                        }
                    }
                } else {
                    eof = true;
                }
            }
            auto& sw   = sh->w[id[q]];
            bool  hang = false;
            if (!eof && sw.active != 0 && now() - sw.start > opts().timeout) {
                // wall time alone says nothing on a loaded machine: the case itself must have computed that long
                const double st = sw.start, cpu = cpuSeconds(wk.pid);
                if (wk.late != st) {
                    wk.late = st;
                    wk.cpu0 = cpu;
                }
                hang = cpu - wk.cpu0 > 0.5 * opts().timeout || now() - st > 5 * opts().timeout;
            }
            if (hang) {
                kill(wk.pid, SIGKILL);
                eof = true;
            }
            if (eof) {
                int st = 0;
                waitpid(wk.pid, &st, 0);
                close(wk.fd);
                const int w = id[q];
                ws.erase(w);
                if (hang || !WIFEXITED(st) || WEXITSTATUS(st) != 0) {
                    died          = true;
                    const u64 bad = sw.idx;
                    json      c   = describe(bad);
                    c["part"]     = part;
                    c["index"]    = bad;
                    json j{{"what", part + ": " + (hang ? std::string("no result within the time limit (does not terminate)") : "crash, wait status " + std::to_string(st))}, {"case", c}};
                    std::cout << "V " << j.dump() << std::endl;
                    ++totalViolations;
                    if (totalViolations < 5) {
                        const u64 base = lo + ((bad - lo) / chunk) * chunk;
                        spawn(w, bad + 1, std::min(hi, base + chunk));
                    }
                }
            }
        }
        if (totalViolations >= 5) {
            for (auto& [k, v] : ws) {
                kill(v.pid, SIGKILL);
                waitpid(v.pid, nullptr, 0);
            }
            ws.clear();
            died = true;
        }
    }
    munmap(sh, sizeof(Shared));
    json s(agg);
    s["part"] = part;
    std::cout << "S " << s.dump() << std::endl;
    if (!died && agg["cases"] != hi - lo) {
        std::cerr << part << ": explored " << agg["cases"] << " of " << hi - lo << "\n";
        std::exit(4);
    }
}

// run body() once for every sequence of random choices (first `depth` choices exhaustive, the rest fair); returns #executions
template <class F>
u64 allChoices(std::size_t depth, F body) {
    u64 k         = 0;
    chooser.depth = depth;
    chooser.clear();
    do {
        chooser.begin();
        bernoulliProbs.clear();
        bernoulliVals.clear();
        body();
        ++k;
    } while (chooser.next());
    chooser.clear();
    return k;
}

inline void parseArgs(int argc, char** argv, std::map<std::string, std::string>& kv) {
    for (int i = 1; i < argc; ++i) {
        const std::string a = argv[i];
        const auto        e = a.find('=');
        if (e == std::string::npos) {
            kv[a] = "1";
        } else {
            kv[a.substr(0, e)] = a.substr(e + 1);
        }
    }
    if (kv.count("only") != 0) {
        opts().only = kv["only"];
    }
    if (kv.count("timeout") != 0) {
        opts().timeout = std::stod(kv["timeout"]);
    }
    if (kv.count("nproc") != 0) {
        opts().nproc = std::stoi(kv["nproc"]);
    }
}
} // namespace mc
