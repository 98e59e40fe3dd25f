#include <stdx/cx_queue.hpp>

#include "elems.hpp"

#include <deque>
#include <limits>
#include <utility>

using vf::El;
using vf::u64;

namespace {
using Model = std::deque<u64>;

template <typename Q, typename T>
void observe(vf::Ctx &c, Q &q, Model const &m, std::size_t N) {
    auto const &cq = q;
    c.eq(q.size(), m.size(), "size");
    c.eq(cq.empty(), m.empty(), "empty");
    c.eq(cq.full(), m.size() == N, "full");
    c.eq(q.capacity(), N, "capacity");
    if (not m.empty()) {
        c.eq(El<T>::id(q.front()), m.front(), "front");
        c.eq(El<T>::id(cq.front()), m.front(), "front");
        c.eq(El<T>::id(q.back()), m.back(), "back");
        c.eq(El<T>::id(cq.back()), m.back(), "back");
        c.check(&q.front() == &cq.front() and &q.back() == &cq.back(), "front",
                "const and non-const access differ");
        if (m.size() == 1) {
            c.check(&q.front() == &q.back(), "front",
                    "front and back of one element differ");
        }
    }
    u64 h = m.size();
    for (auto x : m) {
        h = vf::mix(h ^ x);
    }
    c.state(h);
    vf::life_check(c, "cx_queue");
}

template <typename T, std::size_t N, typename P>
void queue(vf::Ctx &c) {
    vf::life.reset();
    {
        using Q = stdx::cx_queue<T, N, P>;
        Q q{};
        Model m;
        u64 serial = c.below(50);
        observe<Q, T>(c, q, m, N);
        if (N > 100) { // start somewhere in the ring, with many elements
            for (auto n = c.below(2 * N); n > 0; --n) {
                if (m.size() == N) {
                    m.pop_front();
                    (void)q.pop();
                }
                m.push_back(El<T>::norm(++serial));
                q.push(El<T>::make(m.back()));
            }
            c.op("filled", m.size());
        }
        auto const nops = 6 + c.below(N > 100 ? 200 : 6 * N + 16);
        auto pushy = 30 + c.below(40);
        for (u64 k = 0; k < nops; ++k) {
            if (c.chance(5)) {
                pushy = 20 + c.below(60); // drift towards full or empty
            }
            if (c.chance(4)) {
                c.op("clear");
                q.clear();
                m.clear();
            } else if (c.chance(4)) {
                if constexpr (std::is_copy_constructible_v<T>) {
                    c.op("copy");
                    Q r{q};
                    auto rm = m;
                    observe<Q, T>(c, r, rm, N);
                    while (not rm.empty()) {
                        T const x = r.pop();
                        c.eq(El<T>::id(x), rm.front(), "pop-from-copy");
                        rm.pop_front();
                    }
                    Q s{};
                    s = q;
                    q = std::move(s);
                } else {
                    c.op("move");
                    Q r{std::move(q)};
                    q = std::move(r);
                }
            } else if (c.chance(pushy)) {
                if (m.size() < N) {
                    auto const x = El<T>::norm(++serial);
                    auto way = c.below(4);
                    if constexpr (not std::is_copy_constructible_v<T>) {
                        way = 1;
                    }
                    c.op("push", x, way);
                    m.push_back(x);
                    auto chk = [&](T &r) {
                        c.check(&r == &q.back(), "push-ref",
                                "push returned another object");
                        c.eq(El<T>::id(r), x, "push-ref");
                    };
                    if constexpr (std::is_copy_constructible_v<T>) {
                        if (way == 0) {
                            auto const t = El<T>::make(x);
                            chk(q.push(t));
                            c.eq(El<T>::id(t), x, "push-changed-argument");
                        } else if (way == 2 and m.size() > 1) {
                            // aliasing argument
                            bool front = c.coin();
                            m.back() = front ? m.front() : m[m.size() - 2];
                            auto &r = front ? q.push(q.front())
                                            : q.push(q.back());
                            c.eq(El<T>::id(r), m.back(), "push-alias");
                        } else if (way == 3) {
                            auto y = El<T>::norm(++serial);
                            q.push(El<T>::make(x)) = El<T>::make(y);
                            m.back() = y;
                        } else {
                            chk(q.push(El<T>::make(x)));
                        }
                    } else {
                        chk(q.push(El<T>::make(x)));
                    }
                }
            } else if (not m.empty()) {
                if (c.chance(15)) {
                    auto y = El<T>::norm(++serial);
                    if (c.coin()) {
                        c.op("front() = ", y);
                        q.front() = El<T>::make(y);
                        m.front() = y;
                    } else {
                        c.op("back() = ", y);
                        q.back() = El<T>::make(y);
                        m.back() = y;
                    }
                } else {
                    c.op("pop");
                    auto const want = m.front();
                    m.pop_front();
                    T const x = q.pop();
                    c.eq(El<T>::id(x), want, "pop-order");
                }
            }
            observe<Q, T>(c, q, m, N);
        }
        while (not m.empty()) { // drain: nothing lost
            T const x = q.pop();
            c.eq(El<T>::id(x), m.front(), "drain");
            m.pop_front();
        }
        c.check(q.empty(), "drain", "elements left after draining");
    }
    c.check(vf::life.live.empty(), "lifetime", "objects outlive the queue");
    vf::life_check(c, "end of case");
}

using Safe = stdx::safe_overflow_policy;
using Unsafe = stdx::unsafe_overflow_policy;
VF_INST(8, queue, int, 1, Safe)
VF_INST(8, queue, int, 2, Safe)
VF_INST(8, queue, int, 3, Unsafe)
VF_INST(10, queue, int, 7, Safe)
VF_INST(6, queue, std::uint8_t, 16, Safe)
VF_INST(1, queue, int, 300, Safe)
VF_INST(1, queue, std::uint16_t, 256, Unsafe)
VF_INST(6, queue, std::string, 4, Safe)
VF_INST(6, queue, vf::Wide, 5, Unsafe)
VF_INST(6, queue, vf::Tracked, 3, Safe)
VF_INST(6, queue, vf::Tracked, 5, Unsafe)
VF_INST(6, queue, vf::TrackedMove, 4, Safe)
VF_INST(6, queue, std::unique_ptr<int>, 3, Safe)
} // namespace

VF_SUITE(long_run, 1) {
    // many wrap-arounds with a nearly full / nearly empty ring
    stdx::cx_queue<u64, 5> q{};
    u64 in = 0, out = 0;
    auto lead = 1 + c.below(5);
    c.op("long run", lead);
    for (u64 i = 0; i < 3000 + c.below(500); ++i) {
        while (in - out < lead) {
            q.push(in++);
        }
        auto take = 1 + c.below(lead);
        for (u64 k = 0; k < take; ++k) {
            c.eq(q.front(), out, "front");
            c.eq(q.back(), in - 1, "back");
            c.eq(q.pop(), out++, "pop-order");
        }
        c.eq(q.size(), in - out, "size");
    }
}

VF_EXHAUSTIVE(large, 2) {
    // more elements than narrow indices can count, wrapped once
    constexpr std::size_t n = 66000;
    auto q = std::make_unique<stdx::cx_queue<std::uint32_t, n>>();
    auto const skip = 1 + c.below(n - 1);
    c.op("large", skip);
    std::uint32_t in = 0, out = 0;
    auto const push = [&] {
        auto const v = in++;
        if (q->push(v) != v or q->size() != in - out or q->empty() or q->front() != out or q->back() != v or q->full() != (in - out == n)) {
            c.check(false, "large", "after push");
        }
    };
    auto const pop = [&] {
        auto const v = q->pop();
        if (v != out or q->size() != in - ++out or q->full() or q->empty() != (in == out)) {
            c.check(false, "large", "after pop");
        }
    };
    while (in < skip) {
        push();
    }
    while (out < skip / 2) {
        pop();
    }
    while (in - out < n) {
        push();
    }
    c.check(q->full(), "large", "not full");
    while (out < in) {
        pop();
    }
    c.check(q->empty(), "large", "not empty");
}
