#include <stdx/cx_queue.hpp>
#include <stdx/ct_string.hpp>
#include <stdx/intrusive_forward_list.hpp>
#include <stdx/intrusive_list.hpp>
#include <stdx/panic.hpp>

#include "elems.hpp"

#include <any>
#include <deque>
#include <string>
#include <vector>

using vf::El;
using vf::u64;

namespace {
struct Panicked {};
struct Recorder {
    std::vector<std::string> ct, rt; // messages, oldest first
    std::vector<std::string> args;
    bool leave{true};
    void clear() {
        ct.clear();
        rt.clear();
        args.clear();
        leave = true;
    }
    [[nodiscard]] std::size_t calls() const { return ct.size() + rt.size(); }
} rec;

struct handler {
    template <typename Why, typename... Ts>
    static auto panic(Why const &why, Ts &&...ts) -> void {
        rec.rt.emplace_back(std::string_view{why});
        (rec.args.push_back(vf::str(ts)), ...);
        if (rec.leave) {
            throw Panicked{};
        }
    }
    template <stdx::ct_string Why, typename... Ts>
    static auto panic(Ts &&...ts) -> void {
        rec.ct.emplace_back(std::string_view{Why});
        (rec.args.push_back(vf::str(ts)), ...);
        if (rec.leave) {
            throw Panicked{};
        }
    }
};
struct tag {}; // stays with the default handler
struct first_key {};
struct second_key {};

// says which handler was reached and how the arguments arrive
template <char Name> struct keyed_handler {
    template <typename T> static auto category() -> std::string {
        return std::string(std::is_const_v<std::remove_reference_t<T>> ? "const"
                                                                       : "") +
               (std::is_lvalue_reference_v<T> ? "&" : "&&");
    }
    template <typename... Ts> static auto panic(Ts &&...) -> void {
        rec.rt.emplace_back(1, Name);
        (rec.args.push_back(category<Ts &&>()), ...);
    }
    template <stdx::ct_string Why, typename... Ts>
    static auto panic(Ts &&...) -> void {
        rec.ct.emplace_back(Name + std::string(std::string_view{Why}));
        (rec.args.push_back(category<Ts &&>()), ...);
    }
};
} // namespace

template <> inline auto stdx::panic_handler<> = handler{};
template <>
inline auto stdx::panic_handler<first_key> = keyed_handler<'1'>{};
template <>
inline auto stdx::panic_handler<second_key> = keyed_handler<'2'>{};
template <>
inline auto stdx::panic_handler<first_key, second_key> = keyed_handler<'3'>{};

namespace {
template <typename F>
void expect_panic(vf::Ctx &c, char const *what, F &&f) {
    rec.clear();
    bool left = false;
    try {
        f();
    } catch (Panicked const &) {
        left = true;
    }
    c.check(left, "no-panic", what);
    c.eq(rec.calls(), 1u, "panic-count");
    auto const &msg = rec.ct.empty() ? rec.rt.front() : rec.ct.front();
    c.check(msg.find(what) != std::string::npos, "panic-message",
            msg.c_str());
    c.event("panics");
    rec.clear();
}

template <typename T, std::size_t N> void queue_panics(vf::Ctx &c) {
    vf::life.reset();
    rec.clear();
    {
        stdx::cx_queue<T, N> q{};
        auto const &cq = q;
        std::deque<u64> m;
        u64 serial = 1;
        auto whole = [&] {
            c.eq(q.size(), m.size(), "state-after-panic");
            c.eq(q.full(), m.size() == N, "state-after-panic");
            c.eq(q.empty(), m.empty(), "state-after-panic");
            if constexpr (N > 0) {
                auto copy = q;
                for (auto x : m) {
                    c.eq(El<T>::id(copy.front()), x, "state-after-panic");
                    T const t = copy.pop();
                    c.eq(El<T>::id(t), x, "state-after-panic");
                }
                c.check(copy.empty(), "state-after-panic", "extra elements");
            }
            c.eq(rec.calls(), 0u, "panic-in-contract");
            c.state(m.size());
        };
        auto const bias = 20 + c.below(60);
        auto const nops = 6 + c.below(4 * N + 10);
        for (u64 k = 0; k < nops; ++k) {
            if (c.chance(bias)) {
                ++serial;
                if (m.size() == N) {
                    c.op("push on full");
                    T const t = El<T>::make(serial);
                    if (c.coin()) {
                        expect_panic(c, "overflow", [&] { q.push(t); });
                        c.eq(El<T>::id(t), El<T>::norm(serial),
                             "argument-after-panic");
                    } else {
                        T u = El<T>::make(serial);
                        expect_panic(c, "overflow",
                                     [&] { q.push(std::move(u)); });
                        c.eq(El<T>::id(u), El<T>::norm(serial),
                             "argument-after-panic");
                    }
                } else {
                    c.op("push", serial);
                    q.push(El<T>::make(serial));
                    m.push_back(El<T>::norm(serial));
                }
            } else if (m.empty()) {
                auto w = c.below(5);
                c.op("read empty", w);
                expect_panic(c, "underflow", [&] {
                    switch (w) {
                    case 0: (void)q.front(); break;
                    case 1: (void)cq.front(); break;
                    case 2: (void)q.back(); break;
                    case 3: (void)cq.back(); break;
                    default: (void)q.pop();
                    }
                });
            } else {
                c.op("pop");
                (void)q.front();
                (void)cq.front();
                (void)q.back();
                (void)cq.back();
                T const t = q.pop();
                c.eq(El<T>::id(t), m.front(), "pop");
                m.pop_front();
                if (c.chance(8)) {
                    c.op("clear");
                    q.clear();
                    m.clear();
                }
            }
            whole();
        }
        vf::life_check(c, "cx_queue");
    }
    c.check(vf::life.live.empty(), "lifetime", "leak");
}
VF_INST(2, queue_panics, int, 0)
VF_INST(6, queue_panics, int, 1)
VF_INST(6, queue_panics, int, 2)
VF_INST(6, queue_panics, int, 5)
VF_INST(4, queue_panics, std::string, 3)
VF_INST(4, queue_panics, vf::Tracked, 4)

// ---- custom policy ---------------------------------------------------------
struct PolicyLog {
    struct Ev {
        char kind;
        std::size_t size, cap;
    };
    std::vector<Ev> evs;
    bool refuse_push{}, refuse_pop{};
} plog;
struct Refused {};
struct logging_policy {
    static auto check_push(std::size_t size, std::size_t capacity) -> void {
        plog.evs.push_back({'u', size, capacity});
        if (plog.refuse_push) {
            throw Refused{};
        }
    }
    static auto check_pop(std::size_t size) -> void {
        plog.evs.push_back({'o', size, 0});
        if (plog.refuse_pop) {
            throw Refused{};
        }
    }
};

template <std::size_t N> void queue_policy(vf::Ctx &c) {
    rec.clear();
    plog = {};
    stdx::cx_queue<int, N, logging_policy> q{};
    std::deque<int> m;
    auto const &cq = q;
    int serial = 0;
    auto expect = [&](char kind, std::size_t size) {
        c.eq(plog.evs.size(), 1u, "policy-consulted-once");
        c.eq(plog.evs[0].kind, kind, "policy-kind");
        c.eq(plog.evs[0].size, size, "policy-size");
        if (kind == 'u') {
            c.eq(plog.evs[0].cap, N, "policy-capacity");
        }
        plog.evs.clear();
    };
    for (u64 k = 0; k < 10 + 3 * N; ++k) {
        bool refuse = c.chance(20);
        if (c.coin()) {
            plog.refuse_push = refuse or m.size() == N;
            c.op("push", serial, plog.refuse_push);
            auto const before = m.size();
            bool thrown = false;
            try {
                int const x = ++serial;
                if (c.coin()) {
                    q.push(x);
                } else {
                    q.push(int{x});
                }
                m.push_back(x);
            } catch (Refused const &) {
                thrown = true;
            }
            c.eq(thrown, plog.refuse_push, "policy-refusal");
            expect('u', before);
            plog.refuse_push = false;
        } else {
            plog.refuse_pop = refuse or m.empty();
            auto w = c.below(3);
            c.op("pop/front/back", w, plog.refuse_pop);
            auto const before = m.size();
            bool thrown = false;
            try {
                if (w == 0) {
                    auto x = q.pop();
                    auto y = m.front();
                    m.pop_front();
                    c.eq(x, y, "pop");
                } else if (w == 1) {
                    auto x = c.coin() ? q.front() : cq.front();
                    c.eq(x, m.front(), "front");
                } else {
                    auto x = c.coin() ? q.back() : cq.back();
                    c.eq(x, m.back(), "back");
                }
            } catch (Refused const &) {
                thrown = true;
            }
            c.eq(thrown, plog.refuse_pop, "policy-refusal");
            expect('o', before);
            plog.refuse_pop = false;
        }
        c.eq(q.size(), m.size(), "state-after-refusal");
        auto copy = q;
        for (auto x : m) {
            c.eq(copy.pop(), x, "state-after-refusal");
        }
        plog.evs.clear();
        c.state(m.size());
    }
    c.eq(rec.calls(), 0u, "panic-in-contract");
}
VF_INST(3, queue_policy, 1)
VF_INST(3, queue_policy, 3)

// ---- list nodes ------------------------------------------------------------
struct DNode {
    int id{};
    DNode *prev{}, *next{};
};
struct SNode {
    int id{};
    SNode *next{};
};

template <typename L, typename Node> struct ListCase {
    static constexpr bool dbl = requires(Node n) { n.prev; };
    vf::Ctx &c;
    std::vector<Node> pool;
    L lists[2]{};
    std::vector<int> m[2]{};
    std::vector<int> owner;
    explicit ListCase(vf::Ctx &cc) : c{cc}, pool(5), owner(5, -1) {
        for (int i = 0; i < 5; ++i) {
            pool[i].id = i;
        }
    }
    struct Snap {
        std::vector<std::pair<Node *, Node *>> links;
        friend bool operator==(Snap const &, Snap const &) = default;
    };
    Snap snap() {
        Snap s;
        for (auto &n : pool) {
            if constexpr (dbl) {
                s.links.push_back({n.prev, n.next});
            } else {
                s.links.push_back({nullptr, n.next});
            }
        }
        return s;
    }
    void whole() {
        for (int l = 0; l < 2; ++l) {
            std::vector<int> seen;
            for (auto it = lists[l].begin(); it != lists[l].end(); ++it) {
                seen.push_back(it->id);
                c.check(seen.size() <= pool.size(), "list-cycle",
                        "iteration does not end");
            }
            c.check(seen == m[l], "list-content",
                    (vf::str(seen) + " vs " + vf::str(m[l])).c_str());
            c.eq(lists[l].empty(), m[l].empty(), "list-empty");
            if (not m[l].empty()) {
                c.eq(lists[l].front().id, m[l].front(), "list-front");
                c.eq(lists[l].back().id, m[l].back(), "list-back");
            }
        }
        c.eq(rec.calls(), 0u, "panic-in-contract");
        c.state(vf::hash_str(vf::str(m[0]) + vf::str(m[1])));
    }
    bool linked(int n) {
        bool r = pool[n].next != nullptr;
        if constexpr (dbl) {
            r = r or pool[n].prev != nullptr;
        }
        return r;
    }
    auto position(int l, std::size_t at) {
        auto it = lists[l].begin();
        while (at-- > 0) {
            ++it;
        }
        return it;
    }
    void run() {
        rec.clear();
        auto nops = 8 + c.below(25);
        for (u64 k = 0; k < nops; ++k) {
            int const l = static_cast<int>(c.below(2));
            int const n = static_cast<int>(c.below(pool.size()));
            auto const kind = c.below(dbl ? 7 : 5);
            if (kind < 3) {
                auto how = c.below(dbl ? 3 : 2);
                auto at = c.below(m[l].size() + 1);
                auto doit = [&] {
                    if (how == 0) {
                        lists[l].push_front(&pool[n]);
                    } else if (how == 1) {
                        lists[l].push_back(&pool[n]);
                    } else if constexpr (dbl) {
                        lists[l].insert(position(l, at), &pool[n]);
                    }
                };
                if (linked(n)) {
                    c.op("push linked node", l, n, how);
                    auto before = snap();
                    expect_panic(c, "bad list node!", doit);
                    c.check(snap() == before, "links-after-panic",
                            "panicking changed links");
                } else if (owner[n] < 0) {
                    c.op("push", l, n, how, at);
                    doit();
                    owner[n] = l;
                    if (how == 0) {
                        m[l].insert(m[l].begin(), n);
                    } else if (how == 1) {
                        m[l].push_back(n);
                    } else {
                        m[l].insert(m[l].begin() + at, n);
                    }
                }
            } else if (kind == 3) {
                if (not m[l].empty()) {
                    c.op("pop_front", l);
                    auto *p = lists[l].pop_front();
                    c.eq(p->id, m[l].front(), "pop");
                    owner[p->id] = -1;
                    m[l].erase(m[l].begin());
                }
            } else if (kind == 4) {
                if (c.chance(25)) {
                    c.op("clear", l);
                    lists[l].clear();
                    for (auto x : m[l]) {
                        owner[x] = -1;
                        c.check(not linked(x), "links-after-clear", "");
                    }
                    m[l].clear();
                }
            } else if constexpr (dbl) {
                if (kind == 5 and not m[l].empty()) {
                    c.op("pop_back", l);
                    auto *p = lists[l].pop_back();
                    c.eq(p->id, m[l].back(), "pop");
                    owner[p->id] = -1;
                    m[l].pop_back();
                } else if (kind == 6 and not m[l].empty()) {
                    auto at = c.below(m[l].size());
                    c.op("remove", l, at);
                    lists[l].remove(&pool[m[l][at]]);
                    owner[m[l][at]] = -1;
                    m[l].erase(m[l].begin() + at);
                }
            }
            whole();
        }
    }
};
} // namespace

VF_SUITE(list_panics, 14) {
    ListCase<stdx::intrusive_list<DNode>, DNode>{c}.run();
}
VF_SUITE(forward_list_panics, 8) {
    ListCase<stdx::intrusive_forward_list<SNode>, SNode>{c}.run();
}

VF_SUITE(half_linked_nodes, 3) {
    // a node with only one stale link is still refused
    stdx::intrusive_list<DNode> l{};
    DNode a{1}, b{2}, other{3};
    rec.clear();
    l.push_back(&a);
    bool p = c.coin(), n = not p or c.coin();
    c.op("stale links", p, n);
    b.prev = p ? &other : nullptr;
    b.next = n ? &other : nullptr;
    auto how = c.below(3);
    expect_panic(c, "bad list node!", [&] {
        if (how == 0) {
            l.push_back(&b);
        } else if (how == 1) {
            l.push_front(&b);
        } else {
            l.insert(c.coin() ? l.begin() : l.end(), &b);
        }
    });
    c.check(b.prev == (p ? &other : nullptr) and
                b.next == (n ? &other : nullptr) and a.prev == nullptr and
                a.next == nullptr and &l.front() == &a and &l.back() == &a,
            "links-after-panic", "panicking changed links");
    // into an empty list as well
    stdx::intrusive_list<DNode> e{};
    expect_panic(c, "bad list node!",
                 [&] { e.insert(e.begin(), &b); });
    c.check(e.empty(), "links-after-panic", "panicking changed the list");
}

namespace {
int g_i;
std::string g_s;
} // namespace
VF_SUITE(panic_api, 4) {
    rec.clear();
    rec.leave = c.coin();
    auto guarded = [&](auto f) {
        bool left = false;
        try {
            f();
        } catch (Panicked const &) {
            left = true;
        }
        c.eq(left, rec.leave, "panic-returns");
        c.eq(rec.calls(), 1u, "panic-count");
    };
    int const i = static_cast<int>(c.below(1000));
    auto s = El<std::string>::make(c.below(100));
    bool const leave = rec.leave;
    using namespace stdx::literals;
    auto which = c.below(8);
    c.op("panic", which, i);
    switch (which) {
    case 0:
        guarded([&] { stdx::panic("why", i, s); });
        c.eq(rec.rt.at(0), std::string("why"), "panic-message");
        c.check(rec.args == std::vector<std::string>{std::to_string(i), s},
                "panic-arguments", "");
        break;
    case 1:
        guarded([&] { stdx::panic<"compile-time why">(s, i, true); });
        c.eq(rec.ct.at(0), std::string("compile-time why"), "panic-message");
        c.check(rec.args ==
                    std::vector<std::string>{s, std::to_string(i), "true"},
                "panic-arguments", "");
        break;
    case 2:
        guarded([&] { STDX_PANIC("macro why"); });
        c.eq(rec.ct.at(0), std::string("macro why"), "panic-message");
        c.eq(rec.args.size(), 0u, "panic-arguments");
        break;
    case 3:
        g_i = i;
        g_s = s;
        guarded([&] { STDX_PANIC("macro with args", g_i, g_s); });
        c.eq(rec.ct.at(0), std::string("macro with args"), "panic-message");
        c.check(rec.args == std::vector<std::string>{std::to_string(i), s},
                "panic-arguments", "");
        break;
    case 4: // run-time message of any length, with embedded data
    {
        std::string msg(c.below(40), 'x');
        msg += std::to_string(i);
        guarded([&] { stdx::panic(msg); });
        c.eq(rec.rt.at(0), msg, "panic-message");
        break;
    }
    case 5: // handlers chosen by key; arguments arrive as they were given
    case 6: {
        auto const k = c.below(6);
        auto move_only = std::make_unique<int>(i);
        auto give = [&](auto f) {
            f(s, std::as_const(s), std::move(s), std::move(move_only), i);
        };
        auto const fwd = []<typename T>(T &&t) -> T && {
            return static_cast<T &&>(t);
        };
        if (k < 3) {
            give([&](auto &&...as) {
                k == 0   ? stdx::panic<first_key>(fwd(static_cast<decltype(as)>(as))...)
                : k == 1 ? stdx::panic<second_key>(fwd(static_cast<decltype(as)>(as))...)
                         : stdx::panic<first_key, second_key>(
                               fwd(static_cast<decltype(as)>(as))...);
            });
            c.eq(rec.ct.size(), 0u, "panic-count");
            c.check(rec.rt == std::vector<std::string>{std::string(1, "123"[k])},
                    "panic-handler", "another handler, or not once");
        } else {
            give([&](auto &&...as) {
                k == 3   ? stdx::panic<"why", first_key>(fwd(static_cast<decltype(as)>(as))...)
                : k == 4 ? stdx::panic<"why", second_key>(fwd(static_cast<decltype(as)>(as))...)
                         : stdx::panic<"why", first_key, second_key>(
                               fwd(static_cast<decltype(as)>(as))...);
            });
            c.eq(rec.rt.size(), 0u, "panic-count");
            c.check(rec.ct == std::vector<std::string>{"123"[k - 3] + std::string("why")},
                    "panic-handler", "another handler, or not once");
        }
        c.check(rec.args == std::vector<std::string>{"&", "const&", "&&", "&&", "const&"},
                "panic-argument-category", "");
        break;
    }
    default: {
        // the default handler (of another customisation key) does nothing
        stdx::panic<tag>("ignored", i, s);
        stdx::panic<"ignored", tag>(i, s);
        c.eq(rec.calls(), 0u, "default-handler");
    }
    }
    rec.leave = leave;
    rec.clear();
}
