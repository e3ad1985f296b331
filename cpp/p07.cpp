// union-find forest: all histories of Union/Find calls, against a reference partition
#include "codes.hpp"

#include "TreeNode.hpp"
using namespace ref;

int main(int argc, char** argv) {
    std::map<std::string, std::string> kv;
    mc::parseArgs(argc, argv, kv);
    const bool quick = kv["tier"] != "thorough";
    struct Cfg {
        int n;
        int depth;
        u64 checks;
        int first; // first operation
    };
    std::vector<Cfg> cs;
    for (auto& [n, d] : quick ? std::vector<std::pair<int, int>>{{2, 4}, {3, 5}, {4, 4}, {5, 4}, {6, 3}} : std::vector<std::pair<int, int>>{{2, 6}, {3, 7}, {4, 6}, {5, 5}, {6, 4}, {7, 4}}) {
        for (u64 c = 0; c < (1ULL << n); ++c) {
            if (n >= 5 && c != 0 && c != (1ULL << n) - 1 && c != 0x15 && c != 0x0B) {
                continue;
            }
            for (int f = 0; f < n * n; ++f) {
                cs.push_back({n, d, c, f});
            }
        }
    }
    // spanning histories for more nodes: all orders in which the edges of a path / star are united
    auto check = [](int n, u64 checks, const std::vector<int>& ops, mc::Rec& rec) {
        std::vector<std::unique_ptr<TreeNode>> nd;
        std::vector<int>                       part(static_cast<std::size_t>(n));
        auto                                   info = [&] { return mc::json{{"nodes", n}, {"checks", checks}, {"ops(a*n+b)", ops}}; };
        for (int i = 0; i < n; ++i) {
            nd.push_back(std::make_unique<TreeNode>(static_cast<std::size_t>(i)));
            part[static_cast<std::size_t>(i)] = i;
            if (((checks >> i) & 1ULL) != 0) {
                nd.back()->isCheck = true;
                nd.back()->checkVertices.emplace_back(static_cast<std::size_t>(i));
            }
        }
        for (auto o : ops) {
            const auto a = static_cast<std::size_t>(o / n), b = static_cast<std::size_t>(o % n);
            if (a == b) {
                TreeNode::Find(nd[a].get());
            } else {
                TreeNode::Union(nd[a].get(), nd[b].get());
                const int x = part[a], y = part[b];
                for (auto& p : part) {
                    if (p == y) {
                        p = x;
                    }
                }
            }
        }
        // partition, root data
        std::map<int, TreeNode*> root;
        for (int i = 0; i < n; ++i) {
            // acyclic parent chain, logarithmic height
            std::size_t h = 0;
            for (auto* p = nd[static_cast<std::size_t>(i)].get(); p->parent != nullptr; p = p->parent) {
                if (++h > static_cast<std::size_t>(n)) {
                    rec.bad("cyclic parent chain", info());
                    return;
                }
            }
            auto* r = TreeNode::Find(nd[static_cast<std::size_t>(i)].get());
            if (r == nullptr || r->parent != nullptr) {
                rec.bad("the representative is not a root", info());
                return;
            }
            if ((1ULL << h) > r->clusterSize) {
                rec.bad("tree height exceeds log2 of the cluster size", info());
            }
            const int p = part[static_cast<std::size_t>(i)];
            if (root.count(p) != 0 && root[p] != r) {
                rec.bad("two nodes of one cluster have different representatives", info());
            }
            root[p] = r;
        }
        std::set<TreeNode*> distinct;
        for (auto& [p, r] : root) {
            distinct.insert(r);
        }
        if (distinct.size() != root.size()) {
            rec.bad("two clusters share a representative", info());
        }
        for (auto& [p, r] : root) {
            std::vector<std::size_t> members, chk;
            for (int i = 0; i < n; ++i) {
                if (part[static_cast<std::size_t>(i)] == p) {
                    members.push_back(static_cast<std::size_t>(i));
                    if (((checks >> i) & 1ULL) != 0) {
                        chk.push_back(static_cast<std::size_t>(i));
                    }
                }
            }
            if (r->clusterSize != members.size()) {
                rec.bad("cluster size " + std::to_string(r->clusterSize) + " instead of " + std::to_string(members.size()), info());
            }
            auto cv = r->checkVertices;
            std::sort(cv.begin(), cv.end());
            if (cv != chk) {
                rec.bad("check list of the cluster is not the set of its checks", info());
            }
            // downward links reach exactly the members
            std::vector<std::size_t> down;
            std::vector<TreeNode*>   st{r};
            while (!st.empty() && down.size() <= static_cast<std::size_t>(n)) {
                auto* x = st.back();
                st.pop_back();
                down.push_back(x->vertexIdx);
                for (auto* c : x->children) {
                    st.push_back(c);
                }
            }
            std::sort(down.begin(), down.end());
            if (down != members) {
                rec.bad("traversal from the root does not visit every member exactly once", info());
            }
        }
        rec.add("states");
        rec.add("transitions", ops.size());
        rec.add("traces");
    };
    mc::explore(
            "all-histories", cs.size(), [&](u64 i, mc::Rec& rec) {
                const auto&              c = cs[i];
                std::vector<int>         ops{c.first};
                std::function<void(int)> go = [&](int left) {
                    check(c.n, c.checks, ops, rec);
                    if (left == 0) {
                        return;
                    }
                    for (int o = 0; o < c.n * c.n; ++o) {
                        if (o / c.n == o % c.n && ops.back() / c.n == ops.back() % c.n) {
                            continue; // a Find directly after a Find
                        }
                        ops.push_back(o);
                        go(left - 1);
                        ops.pop_back();
                    }
                };
                go(c.depth - 1); },
            [&](u64 i) { return mc::json{{"n", cs[i].n}, {"first", cs[i].first}, {"checks", cs[i].checks}}; });
    const int N = quick ? 8 : 9;
    mc::explore(
            "edge-orders", 3 * static_cast<u64>(N - 1), [&](u64 i, mc::Rec& rec) {
                // all orders of the edges of a path, a star and a balanced tree on N nodes, starting with edge i
                std::vector<int> e;
                for (int k = 1; k < N; ++k) {
                    const int p = i % 3 == 0 ? k - 1 : (i % 3 == 1 ? 0 : (k - 1) / 2);
                    e.push_back(k % 2 == 0 ? p * N + k : k * N + p);
                }
                std::swap(e[0], e[i / 3]);
                std::sort(e.begin() + 1, e.end());
                do {
                    check(N, 0x5A, e, rec);
                } while (std::next_permutation(e.begin() + 1, e.end())); },
            [&](u64 i) { return mc::json{{"shape", i % 3}, {"first", i / 3}}; });
    mc::note("4 nodes, checks {1,3}: Union(0,1) Find(1) Union(2,3) Union(3,0): partition, size, check list, traversal, height");
    return 0;
}
