// No user handler anywhere in this program: panicking must have no effect.
#include <stdx/cx_queue.hpp>
#include <stdx/intrusive_forward_list.hpp>
#include <stdx/intrusive_list.hpp>
#include <stdx/panic.hpp>

#include "elems.hpp"

namespace {
int g_i;
struct Node {
    int id{};
    Node *prev{}, *next{};
};
} // namespace

VF_SUITE(default_handler, 1) {
    g_i = static_cast<int>(c.below(100));
    c.op("panic without handler", g_i);
    stdx::panic("nothing", g_i);
    stdx::panic<"nothing">(g_i);
    STDX_PANIC("nothing");
    STDX_PANIC("nothing", g_i);
    std::string s(30, 'y');
    stdx::panic(s, std::move(s));
    c.eq(s.size(), 30u, "default-handler-consumed-argument");
    // reading an empty queue: no handler, no change of state
    stdx::cx_queue<int, 3> q{};
    for (int i = 0; i < g_i % 3; ++i) {
        q.push(i);
    }
    while (not q.empty()) {
        (void)q.pop();
    }
    (void)q.front();
    (void)q.back();
    c.check(q.empty() and q.size() == 0, "state-after-panic", "");
    // a bad node is still linked when the handler returns
    stdx::intrusive_list<Node> l{};
    Node a{1}, b{2}, x{3};
    l.push_back(&a);
    b.next = &x;
    l.push_back(&b);
    c.check(&l.back() == &b and a.next == &b and b.prev == &a, "push", "");
}
