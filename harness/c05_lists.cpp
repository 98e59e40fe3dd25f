#include <stdx/intrusive_forward_list.hpp>
#include <stdx/intrusive_list.hpp>

#include "elems.hpp"

#include <algorithm>
#include <memory>
#include <vector>

using vf::u64;

namespace {
int panics;
struct handler {
    template <typename... Ts> static auto panic(Ts &&...) -> void {
        ++panics;
    }
    template <stdx::ct_string, typename... Ts>
    static auto panic(Ts &&...) -> void {
        ++panics;
    }
};
} // namespace
template <> inline auto stdx::panic_handler<> = handler{};

namespace {
struct DNode {
    int id{};
    DNode *prev{}, *next{};
};
struct SNode {
    int id{};
    SNode *next{};
};
// links behind a base class and before the payload
template <typename T> struct Links {
    T *next{};
    T *prev{};
};
struct Derived : Links<Derived> {
    explicit Derived(int i = 0) : id{i} {}
    int id{};
    std::string payload = "payload that lives on the heap, long enough";
};

template <typename L, typename Node, bool Checked> struct Case {
    static constexpr bool dbl = requires(Node n, L l) {
        n.prev;
        l.pop_back();
    };
    vf::Ctx &c;
    std::vector<std::unique_ptr<Node>> pool;
    std::vector<L> lists;
    std::vector<std::vector<int>> m;
    std::vector<int> owner;

    Case(vf::Ctx &cc, std::size_t nodes, std::size_t nlists)
        : c{cc}, lists(nlists), m(nlists), owner(nodes, -1) {
        for (std::size_t i = 0; i < nodes; ++i) {
            pool.push_back(std::make_unique<Node>());
            pool.back()->id = static_cast<int>(i);
        }
    }
    bool clean(int n) {
        bool r = pool[n]->next == nullptr;
        if constexpr (dbl) {
            r = r and pool[n]->prev == nullptr;
        }
        return r;
    }
    void left(int n) {
        owner[n] = -1;
        if constexpr (Checked) {
            c.check(clean(n), "links-cleared",
                    "node that left the list keeps links");
        }
        if (c.chance(15)) {
            // the node's memory goes away: nobody may look at it again
            pool[n] = std::make_unique<Node>();
            pool[n]->id = n;
        }
    }
    void whole() {
        for (std::size_t l = 0; l < lists.size(); ++l) {
            auto walk = [&](auto first, auto last, char const *key) {
                std::size_t i = 0;
                for (; first != last; ++first, ++i) {
                    c.check(i < m[l].size(), key, "too many nodes visited");
                    c.check(&*first == pool[m[l][i]].get(), key,
                            "another node visited");
                    c.eq(first->id, m[l][i], key);
                }
                c.eq(i, m[l].size(), key);
            };
            L &x = lists[l];
            L const &cx = lists[l];
            walk(x.begin(), x.end(), "iterate");
            walk(cx.begin(), cx.end(), "iterate-const");
            walk(cx.cbegin(), cx.cend(), "iterate-const");
            auto it = x.begin();
            for (std::size_t i = 0; i < m[l].size(); ++i) {
                auto old = it++;
                c.eq((*old).id, m[l][i], "post-increment");
            }
            c.check(it == x.end(), "post-increment", "end not reached");
            c.eq(cx.empty(), m[l].empty(), "empty");
            if (not m[l].empty()) {
                c.check(&cx.front() == pool[m[l].front()].get(), "front",
                        "wrong node");
                c.check(&cx.back() == pool[m[l].back()].get(), "back",
                        "wrong node");
                if constexpr (dbl) {
                    auto *n = &x.back();
                    for (auto i = m[l].size(); i-- > 0; n = n->prev) {
                        c.check(n == pool[m[l][i]].get(), "backward-links",
                                "wrong node");
                    }
                    c.check(n == nullptr, "backward-links", "not terminated");
                }
            }
        }
        c.eq(panics, 0, "panic-in-contract");
        u64 h = 7;
        for (auto const &v : m) {
            h = vf::mix(h);
            for (auto x : v) {
                h = vf::mix(h ^ static_cast<u64>(x));
            }
        }
        c.state(h);
    }
    auto position(std::size_t l, std::size_t at) {
        auto it = lists[l].begin();
        while (at-- > 0) {
            ++it;
        }
        return it;
    }
    void run(u64 nops) {
        panics = 0;
        for (; nops > 0; --nops) {
            auto const l = c.below(lists.size());
            auto &ml = m[l];
            auto kind = c.below(dbl ? 12 : 8);
            if (kind < 5) {
                std::vector<int> avail;
                for (int i = 0; i < static_cast<int>(owner.size()); ++i) {
                    if (owner[i] < 0) {
                        avail.push_back(i);
                    }
                }
                if (avail.empty()) {
                    continue;
                }
                int const n = c.pick(avail);
                auto how = c.below(dbl ? 4 : 2);
                if (how == 0) {
                    c.op("push_front", l, n);
                    lists[l].push_front(pool[n].get());
                    ml.insert(ml.begin(), n);
                } else if (how == 1) {
                    c.op("push_back", l, n);
                    lists[l].push_back(pool[n].get());
                    ml.push_back(n);
                } else if constexpr (dbl) {
                    auto at = how == 2 ? c.below(ml.size() + 1)
                                       : (c.coin() ? 0 : ml.size());
                    c.op("insert", l, at, n);
                    lists[l].insert(at == ml.size() and c.coin()
                                        ? lists[l].end()
                                        : position(l, at),
                                    pool[n].get());
                    ml.insert(ml.begin() + at, n);
                }
                owner[n] = static_cast<int>(l);
            } else if (kind < 7) {
                if (not ml.empty()) {
                    c.op("pop_front", l);
                    auto *p = lists[l].pop_front();
                    c.check(p == pool[ml.front()].get(), "pop",
                            "popped another node");
                    auto n = ml.front();
                    ml.erase(ml.begin());
                    left(n);
                }
            } else if (kind == 7) {
                if (c.chance(25)) {
                    c.op("clear", l);
                    lists[l].clear();
                    auto gone = ml;
                    ml.clear();
                    for (auto n : gone) {
                        left(n);
                    }
                }
            } else if constexpr (dbl) {
                if (kind < 10) {
                    if (not ml.empty()) {
                        c.op("pop_back", l);
                        auto *p = lists[l].pop_back();
                        c.check(p == pool[ml.back()].get(), "pop",
                                "popped another node");
                        auto n = ml.back();
                        ml.pop_back();
                        left(n);
                    }
                } else if (not ml.empty()) {
                    auto at = c.coin() ? c.below(ml.size())
                                       : (c.coin() ? 0 : ml.size() - 1);
                    c.op("remove", l, at);
                    auto n = ml[at];
                    lists[l].remove(pool[n].get());
                    ml.erase(ml.begin() + at);
                    left(n);
                }
            }
            whole();
        }
    }
};

template <typename L, typename Node, bool Checked> void list(vf::Ctx &c) {
    auto nodes = 1 + c.below(7);
    Case<L, Node, Checked> k{c, nodes, 1 + c.below(3)};
    k.whole();
    k.run(6 + c.below(40));
}
using namespace stdx;
using DC = intrusive_list<DNode>;
using DU = intrusive_list<DNode, node_policy::unchecked>;
using VC = intrusive_list<Derived>;
using VU = intrusive_list<Derived, node_policy::unchecked>;
using SC = intrusive_forward_list<SNode>;
using SU = intrusive_forward_list<SNode, node_policy::unchecked>;
using FC = intrusive_forward_list<DNode>; // nodes with an unused prev
VF_INST(12, list, DC, DNode, true)
VF_INST(12, list, DU, DNode, false)
VF_INST(6, list, VC, Derived, true)
VF_INST(6, list, VU, Derived, false)
VF_INST(8, list, SC, SNode, true)
VF_INST(8, list, SU, SNode, false)
VF_INST(4, list, FC, DNode, true)
} // namespace
