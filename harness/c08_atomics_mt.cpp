// Concurrent histories on atomics: every history is recorded at the client
// boundary and checked for linearizability against a sequential model; data
// published through an atomic is checked for visibility and (under
// ThreadSanitizer) for absence of races.
#include <stdx/atomic.hpp>
#include <stdx/atomic_bitset.hpp>

#include "elems.hpp"

#include <atomic>
#include <bitset>
#include <sched.h>
#include <set>
#include <thread>
#include <tuple>

using vf::u64;
using MO = std::memory_order;

namespace {
thread_local u64 delay_rng = 1;
thread_local unsigned delay_level = 0;

void delay(bool, ::atomic::vf_access, void const *, std::size_t, MO) {
    if (delay_level == 0) {
        return;
    }
    auto const r = vf::mix(++delay_rng);
    switch (r % 8) {
    case 0: sched_yield(); break;
    case 1:
    case 2:
        for (u64 i = (r >> 8) % (60 * delay_level); i > 0; --i) {
            asm volatile("" ::: "memory");
        }
        break;
    default: break;
    }
}
[[maybe_unused]] bool const hooked = (::atomic::vf_hook = delay, true);

// A pool whose workers run one job per round.
struct Pool {
    static constexpr unsigned max = 4;
    std::atomic<unsigned> round{0}, pending{0};
    unsigned use{};
    std::function<void(unsigned)> job;
    std::vector<std::thread> ts;

    Pool() {
        for (unsigned i = 0; i < max; ++i) {
            ts.emplace_back([this, i] {
                for (unsigned r = 1;; ++r) {
                    while (round.load(MO::acquire) < r) {
                        sched_yield();
                    }
                    if (use == 0) {
                        return;
                    }
                    if (i < use) {
                        job(i);
                    }
                    pending.fetch_sub(1, MO::acq_rel);
                }
            });
        }
    }
    void run(unsigned n, std::function<void(unsigned)> f) {
        use = n;
        job = std::move(f);
        pending.store(max, MO::relaxed);
        round.fetch_add(1, MO::release);
        while (pending.load(MO::acquire) != 0) {
            sched_yield();
        }
    }
    ~Pool() {
        use = 0;
        round.fetch_add(1, MO::release);
        for (auto &t : ts) {
            t.join();
        }
    }
};
Pool &pool() {
    static Pool p;
    return p;
}

struct Op {
    unsigned kind;
    u64 a, b;
    MO mo;
    bool dflt;
};
struct Event {
    Op op;
    u64 call, ret, result;
    unsigned thread;
};
constexpr u64 no_result = 0x6e6f6e6531ull;

// Is there an order of the events, consistent with call/return, that the
// sequential model explains?
template <typename M> struct Checker {
    std::vector<Event> const &ev;
    u64 final_state;
    std::set<std::pair<u64, u64>> dead;
    u64 steps = 0;

    // -1: gave up
    int search(u64 done, u64 state) {
        auto const all = (u64{1} << ev.size()) - 1;
        if (done == all) {
            return state == final_state;
        }
        if (++steps > 400000) {
            return -1;
        }
        if (dead.count({done, state})) {
            return 0;
        }
        u64 first_ret = ~u64{};
        for (std::size_t i = 0; i < ev.size(); ++i) {
            if (not(done >> i & 1)) {
                first_ret = std::min(first_ret, ev[i].ret);
            }
        }
        for (std::size_t i = 0; i < ev.size(); ++i) {
            if ((done >> i & 1) or ev[i].call > first_ret) {
                continue;
            }
            auto s = state;
            if (M::apply(ev[i].op, s) == ev[i].result) {
                if (auto r = search(done | u64{1} << i, s); r != 0) {
                    return r;
                }
            }
        }
        dead.insert({done, state});
        return 0;
    }
};

constexpr MO any_order[] = {MO::relaxed, MO::consume, MO::acquire,
                            MO::release, MO::acq_rel, MO::seq_cst};
constexpr MO load_order[] = {MO::relaxed, MO::consume, MO::acquire,
                             MO::seq_cst};
constexpr MO store_order[] = {MO::relaxed, MO::release, MO::seq_cst};

// ---- stdx::atomic ----------------------------------------------------------
template <typename T> struct Num {
    using Obj = stdx::atomic<T>;
    static u64 raw(T t) { return static_cast<u64>(t) & mask; }
    static constexpr u64 mask =
        sizeof(T) == 8 ? ~u64{} : (u64{1} << (8 * sizeof(T) % 64)) - 1;
    static constexpr unsigned kinds = 18;
    static Op make(vf::Ctx &c) {
        Op o{};
        o.kind = static_cast<unsigned>(c.below(kinds));
        o.a = c.chance(70) ? 1 + c.below(3) : c.value<T>();
        o.dflt = c.coin();
        o.mo = o.kind == 0 ? c.pick(load_order)
               : o.kind == 2 ? c.pick(store_order)
                             : c.pick(any_order);
        return o;
    }
    static u64 run(Obj &x, Op const &o) {
        auto const t = static_cast<T>(o.a);
        switch (o.kind) {
        case 0: return raw(o.dflt ? x.load() : x.load(o.mo));
        case 1: return raw(static_cast<T>(x));
        case 2: o.dflt ? x.store(t) : x.store(t, o.mo); return no_result;
        case 3: return raw(x = t);
        case 4: return raw(o.dflt ? x.exchange(t) : x.exchange(t, o.mo));
        case 5: return raw(o.dflt ? x.fetch_add(t) : x.fetch_add(t, o.mo));
        case 6: return raw(o.dflt ? x.fetch_sub(t) : x.fetch_sub(t, o.mo));
        case 7: return raw(o.dflt ? x.fetch_and(t) : x.fetch_and(t, o.mo));
        case 8: return raw(o.dflt ? x.fetch_or(t) : x.fetch_or(t, o.mo));
        case 9: return raw(o.dflt ? x.fetch_xor(t) : x.fetch_xor(t, o.mo));
        case 10: return raw(x += t);
        case 11: return raw(x -= t);
        case 12: return raw(x &= t);
        case 13: return raw(x |= t);
        case 14: return raw(x ^= t);
        case 15: return raw(++x);
        case 16: return raw(x++);
        default: return raw(o.a & 1 ? --x : x--);
        }
    }
    static u64 apply(Op const &o, u64 &s) {
        auto const t = raw(static_cast<T>(o.a));
        auto const old = s;
        auto put = [&](u64 v) { return s = v & mask; };
        switch (o.kind) {
        case 0:
        case 1: return s;
        case 2: put(t); return no_result;
        case 3: return put(t);
        case 4: put(t); return old;
        case 5: put(s + t); return old;
        case 6: put(s - t); return old;
        case 7: put(s & t); return old;
        case 8: put(s | t); return old;
        case 9: put(s ^ t); return old;
        case 10: return put(s + t);
        case 11: return put(s - t);
        case 12: return put(s & t);
        case 13: return put(s | t);
        case 14: return put(s ^ t);
        case 15: return put(s + 1);
        case 16: put(s + 1); return old;
        default:
            if (o.a & 1) {
                return put(s - 1);
            }
            put(s - 1);
            return old;
        }
    }
    static u64 value(Obj &x) { return raw(x.load()); }
    static u64 initial(vf::Ctx &c) { return raw(static_cast<T>(c.below(4))); }
    static T from(u64 v) { return static_cast<T>(v); }
};

// ---- stdx::atomic_bitset ---------------------------------------------------
template <std::size_t N, typename... S> struct Bits {
    using Obj = stdx::atomic_bitset<N, S...>;
    static constexpr u64 mask = N == 64 ? ~u64{} : (u64{1} << N % 64) - 1;
    static constexpr unsigned kinds = 22;
    static Op make(vf::Ctx &c) {
        Op o{};
        o.kind = static_cast<unsigned>(c.below(kinds));
        // few positions, so that threads collide
        o.a = c.coin() ? c.below(N) : c.below(std::min<u64>(N, 2));
        o.b = o.a + c.below(N - o.a);
        if (o.kind == 7) {
            o.a = c.value<u64>() & mask;
        }
        o.dflt = c.coin();
        o.mo = o.kind <= 1 or o.kind >= 17 ? c.pick(load_order)
               : o.kind >= 5 and o.kind <= 7 ? c.pick(store_order)
                                             : c.pick(any_order);
        return o;
    }
    static u64 run(Obj &x, Op const &o) {
        auto v = [](auto const &b) { return b.template to<u64>(); };
        auto const i = o.a;
        auto const l = static_cast<stdx::lsb_t>(o.a);
        auto const m = static_cast<stdx::msb_t>(o.b);
        auto const n = static_cast<stdx::length_t>(o.b - o.a + 1);
        bool const d = o.dflt;
        switch (o.kind) {
        case 0: return v(d ? x.load() : x.load(o.mo));
        case 1:
            return d ? x.template to<u64>() : x.template to<u64>(o.mo);
        case 2:
        case 3: return v(d ? x.set(i) : x.set(i, true, o.mo));
        case 4: return v(d ? x.set(i, false) : x.set(i, false, o.mo));
        case 5: d ? x.set() : x.set(o.mo); return no_result;
        case 6: d ? x.reset() : x.reset(o.mo); return no_result;
        case 7: {
            using B = std::remove_cvref_t<decltype(x.load())>;
            d ? x.store(B{o.a}) : x.store(B{o.a}, o.mo);
            return no_result;
        }
        case 8: return v(d ? x.reset(i) : x.reset(i, o.mo));
        case 9: return v(d ? x.flip(i) : x.flip(i, o.mo));
        case 10: return v(d ? x.set(l, m) : x.set(l, m, true, o.mo));
        case 11: return v(d ? x.set(l, n, false) : x.set(l, n, false, o.mo));
        case 12: return v(d ? x.reset(l, m) : x.reset(l, m, o.mo));
        case 13: return v(d ? x.reset(l, n) : x.reset(l, n, o.mo));
        case 14: return v(d ? x.flip(l, m) : x.flip(l, m, o.mo));
        case 15: return v(d ? x.flip(l, n) : x.flip(l, n, o.mo));
        case 16: return v(d ? x.flip() : x.flip(o.mo));
        case 17: return d ? x.all() : x.all(o.mo);
        case 18: return d ? x.any() : x.any(o.mo);
        case 19: return d ? x.none() : x.none(o.mo);
        case 20: return d ? x.count() : x.count(o.mo);
        default: return x[i];
        }
    }
    static u64 apply(Op const &o, u64 &s) {
        auto const old = s;
        auto const bit = u64{1} << (o.a & 63);
        auto const hi = u64{1} << (o.b & 63);
        auto const range = (hi | (hi - 1)) & ~(bit - 1);
        switch (o.kind) {
        case 0:
        case 1: return s;
        case 2:
        case 3: s |= bit; return old;
        case 4: s &= ~bit; return old;
        case 5: s = mask; return no_result;
        case 6: s = 0; return no_result;
        case 7: s = o.a; return no_result;
        case 8: s &= ~bit; return old;
        case 9: s ^= bit; return old;
        case 10: s |= range; return old;
        case 11:
        case 12:
        case 13: s &= ~range; return old;
        case 14:
        case 15: s ^= range; return old;
        case 16: s ^= mask; return old;
        case 17: return s == mask;
        case 18: return s != 0;
        case 19: return s == 0;
        case 20: return static_cast<u64>(__builtin_popcountll(s));
        default: return (s & bit) != 0;
        }
    }
    static u64 value(Obj &x) { return x.template to<u64>(); }
    static u64 initial(vf::Ctx &c) { return c.value<u64>() & mask; }
    static u64 from(u64 v) { return v; }
};

template <typename M> void linear(vf::Ctx &c) {
    unsigned const nt = 2 + static_cast<unsigned>(c.below(3));
    u64 const per = 3 + c.below(nt == 2 ? 8 : nt == 3 ? 5 : 4);
    auto const init = M::initial(c);
    std::vector<std::vector<Op>> prog(nt);
    c.op("threads", nt, per, init);
    // either anything, or only a few kinds, so that updates pile up
    std::vector<unsigned> few;
    if (c.coin()) {
        for (int k = 0; k < 3; ++k) {
            few.push_back(static_cast<unsigned>(c.below(M::kinds)));
        }
    }
    for (auto &p : prog) {
        while (p.size() < per) {
            auto o = M::make(c);
            for (int tries = 0; not few.empty() and tries < 200 and
                                std::find(few.begin(), few.end(), o.kind) ==
                                    few.end();
                 ++tries) {
                o = M::make(c);
            }
            c.op("op", o.kind, o.a, o.b, static_cast<int>(o.mo), o.dflt);
            p.push_back(o);
        }
    }
    auto const level = static_cast<unsigned>(c.below(4));
    for (int rep = 0; rep < 3; ++rep) {
        typename M::Obj x{M::from(init)};
        std::vector<std::vector<Event>> hist(nt);
        std::atomic<u64> clock{1};
        std::atomic<unsigned> ready{0};
        for (unsigned t = 0; t < nt; ++t) {
            hist[t].reserve(per);
        }
        u64 const seed = c.next();
        pool().run(nt, [&](unsigned t) {
            delay_rng = seed + t;
            delay_level = level;
            ready.fetch_add(1, MO::relaxed);
            for (int i = 0; i < 5000 and ready.load(MO::relaxed) < nt; ++i) {
                if (i % 64 == 63) {
                    sched_yield();
                }
            }
            for (auto const &o : prog[t]) {
                // relaxed: the monitor must not order the threads' accesses
                // in ThreadSanitizer's eyes
                auto const call = clock.fetch_add(1, MO::relaxed);
                std::atomic_signal_fence(MO::seq_cst);
                auto const r = M::run(x, o);
                std::atomic_signal_fence(MO::seq_cst);
                auto const ret = clock.fetch_add(1, MO::relaxed);
                hist[t].push_back({o, call, ret, r, t});
            }
            delay_level = 0;
        });
        std::vector<Event> ev;
        for (auto const &h : hist) {
            ev.insert(ev.end(), h.begin(), h.end());
        }
        u64 overlaps = 0;
        for (auto const &p : ev) {
            for (auto const &q : ev) {
                overlaps += p.call < q.call and q.call < p.ret;
            }
        }
        c.event("overlapping operation pairs", overlaps);
        auto const fin = M::value(x);
        Checker<M> ck{ev, fin, {}};
        auto const res = ck.search(0, init);
        ++vf::g.checks;
        if (res < 0) {
            c.event("history too large to decide");
        } else if (res == 0) {
            std::sort(ev.begin(), ev.end(), [](auto const &p, auto const &q) {
                return p.call < q.call;
            });
            std::string s = "no sequential order explains: initial " +
                            vf::str(init) + ";";
            for (auto const &e : ev) {
                s += " t" + vf::str(e.thread) + "[" + vf::str(e.call) + "," +
                     vf::str(e.ret) + "] op" + vf::str(e.op.kind) + "(" +
                     vf::str(e.op.a) + "," + vf::str(e.op.b) + ")=" +
                     (e.result == no_result ? "-" : vf::str(e.result)) + ";";
            }
            c.fail("not-linearizable", s + " final " + vf::str(fin));
        }
        c.event("histories");
        // the order of effects as seen in the results
        u64 hsh = fin;
        for (auto const &e : ev) {
            hsh = vf::mix(hsh ^ e.result);
        }
        c.state(hsh);
    }
}

// ---- publication -----------------------------------------------------------
constexpr MO releasing[] = {MO::release, MO::acq_rel, MO::seq_cst};
constexpr MO acquiring[] = {MO::acquire, MO::acq_rel, MO::seq_cst};
constexpr MO rel_store[] = {MO::release, MO::seq_cst};
constexpr MO acq_load[] = {MO::acquire, MO::seq_cst};

// Thread p of n-1 publishers announces itself by bit p; the consumer reads the
// payload of every publisher it has observed. Read-modify-writes continue a
// release sequence, so all of them together publish all payloads.
template <typename T> void publish_num(vf::Ctx &c) {
    unsigned const pubs = 1 + static_cast<unsigned>(c.below(3));
    stdx::atomic<T> x{T{}};
    u64 payload[3][4]{};
    struct How {
        unsigned kind;
        MO mo;
        bool dflt;
    };
    std::vector<How> how(pubs);
    for (unsigned p = 0; p < pubs; ++p) {
        how[p].kind = static_cast<unsigned>(c.below(pubs == 1 ? 9 : 6));
        how[p].mo = how[p].kind == 7 ? c.pick(rel_store) : c.pick(releasing);
        how[p].dflt = c.coin();
        c.op("publish", how[p].kind, static_cast<int>(how[p].mo), how[p].dflt);
    }
    auto const rk = c.below(pubs == 1 ? 5 : 4);
    auto const ro = rk == 0 ? c.pick(acq_load) : c.pick(acquiring);
    bool const rd = c.coin();
    c.op("observe", rk, static_cast<int>(ro), rd);
    u64 const stamp = c.next() | 1;
    u64 const seed = c.next();
    bool bad = false;
    u64 got = 0;
    auto const level = static_cast<unsigned>(c.below(4));
    pool().run(pubs + 1, [&](unsigned t) {
        delay_rng = seed + t;
        delay_level = level;
        if (t < pubs) {
            for (auto &w : payload[t]) {
                w = stamp + t;
            }
            auto const b = static_cast<T>(1u << t);
            auto const [k, mo, d] = how[t];
            switch (k) {
            case 0: d ? x.fetch_or(b) : x.fetch_or(b, mo); break;
            case 1: d ? x.fetch_add(b) : x.fetch_add(b, mo); break;
            case 2: d ? x.fetch_xor(b) : x.fetch_xor(b, mo); break;
            case 3: x |= b; break;
            case 4: x += b; break;
            case 5: x ^= b; break;
            case 6: (void)(d ? x.exchange(b) : x.exchange(b, mo)); break;
            case 7: d ? x.store(b) : x.store(b, mo); break;
            default: x = b; break;
            }
        } else {
            u64 seen = 0;
            for (u64 spin = 0; spin < 300000; ++spin) {
                T v{};
                switch (rk) {
                case 0: v = rd ? x.load() : x.load(ro); break;
                case 1: v = rd ? x.fetch_or(T{}) : x.fetch_or(T{}, ro); break;
                case 2: v = rd ? x.fetch_add(T{}) : x.fetch_add(T{}, ro); break;
                case 3: v = x; break;
                default:
                    v = rd ? x.exchange(T{}) : x.exchange(T{}, ro);
                    break;
                }
                for (unsigned p = 0; p < pubs; ++p) {
                    if ((static_cast<u64>(v) >> p & 1) and not(seen >> p & 1)) {
                        seen |= u64{1} << p;
                        for (auto w : payload[p]) {
                            bad = bad or w != stamp + p;
                        }
                    }
                }
                if (seen == (1u << pubs) - 1) {
                    break;
                }
                if (spin % 16 == 15) {
                    sched_yield();
                }
            }
            got = seen;
        }
        delay_level = 0;
    });
    c.check(not bad, "published-data-not-visible", "");
    if (got != (1u << pubs) - 1) {
        auto const fin = static_cast<u64>(x.load());
        c.check(rk == 4 or fin == (1u << pubs) - 1, "publication-lost", "");
        c.event("publication not observed in time");
    } else {
        c.event("publications observed");
    }
}

template <std::size_t N, typename... S> void publish_bits(vf::Ctx &c) {
    using A = stdx::atomic_bitset<N, S...>;
    unsigned const pubs =
        1 + static_cast<unsigned>(c.below(std::min<u64>(3, N)));
    bool const down = c.coin(); // announce by clearing instead of setting
    A x{down ? ~u64{} : u64{0}};
    u64 payload[3][4]{};
    struct How {
        unsigned kind;
        MO mo;
        bool dflt;
    };
    std::vector<How> how(pubs);
    for (unsigned p = 0; p < pubs; ++p) {
        how[p].kind = static_cast<unsigned>(c.below(pubs == 1 ? 8 : 6));
        how[p].mo = how[p].kind >= 6 ? c.pick(rel_store) : c.pick(releasing);
        how[p].dflt = c.coin();
        c.op("publish", how[p].kind, static_cast<int>(how[p].mo), how[p].dflt,
             down);
    }
    auto const rk = c.below(pubs == 1 ? 10 : 7);
    auto const ro = rk <= 3 or rk >= 7 ? c.pick(acq_load) : c.pick(acquiring);
    bool const rd = c.coin();
    c.op("observe", rk, static_cast<int>(ro), rd);
    u64 const stamp = c.next() | 1;
    u64 const seed = c.next();
    bool bad = false;
    u64 got = 0;
    auto const level = static_cast<unsigned>(c.below(4));
    pool().run(pubs + 1, [&](unsigned t) {
        delay_rng = seed + t;
        delay_level = level;
        if (t < pubs) {
            for (auto &w : payload[t]) {
                w = stamp + t;
            }
            auto const [k, mo, d] = how[t];
            auto const l = static_cast<stdx::lsb_t>(t);
            auto const m = static_cast<stdx::msb_t>(t);
            constexpr auto one = static_cast<stdx::length_t>(1);
            switch (k) {
            case 0:
                d ? x.set(t, not down) : x.set(t, not down, mo);
                break;
            case 1:
                d ? x.set(l, m, not down) : x.set(l, m, not down, mo);
                break;
            case 2:
                if (down) {
                    d ? x.reset(t) : x.reset(t, mo);
                } else {
                    d ? x.set(l, one) : x.set(l, one, true, mo);
                }
                break;
            case 3:
                if (down) {
                    d ? x.reset(l, m) : x.reset(l, m, mo);
                } else {
                    d ? x.flip(l, m) : x.flip(l, m, mo);
                }
                break;
            case 4: d ? x.flip(t) : x.flip(t, mo); break;
            case 5: d ? x.flip(l, one) : x.flip(l, one, mo); break;
            case 6: {
                using B = std::remove_cvref_t<decltype(x.load())>;
                B const b{down ? u64{0} : ~u64{}};
                d ? x.store(b) : x.store(b, mo);
                break;
            }
            default:
                if (down) {
                    d ? x.reset() : x.reset(mo);
                } else {
                    d ? x.set() : x.set(mo);
                }
                break;
            }
        } else {
            u64 seen = 0;
            u64 const want = (u64{1} << pubs) - 1;
            for (u64 spin = 0; spin < 300000; ++spin) {
                u64 v = 0; // bits announced
                auto add = [&](auto const &b) {
                    for (unsigned p = 0; p < pubs; ++p) {
                        v |= u64{bool(b[p]) != down} << p;
                    }
                };
                switch (rk) {
                case 0: add(rd ? x.load() : x.load(ro)); break;
                case 1:
                    add(std::bitset<64>{rd ? x.template to<u64>()
                                           : x.template to<u64>(ro)});
                    break;
                case 2:
                    add(std::bitset<64>{
                        u64{rd ? x.to_natural() : x.to_natural(ro)}});
                    break;
                case 3:
                    for (unsigned p = 0; p < pubs; ++p) {
                        v |= u64{x[p] != down} << p;
                    }
                    break;
                // acquiring read-modify-writes of an uninvolved bit
                case 4: add(rd ? x.set(N - 1, down) : x.set(N - 1, down, ro)); break;
                case 5: add(rd ? x.flip(N - 1) : x.flip(N - 1, ro)); break;
                case 6: add(x.reset(N - 1)); break;
                // single publisher: whole-set observers
                case 7: v = down ? (rd ? not x.all() : not x.all(ro))
                                 : (rd ? x.any() : x.any(ro)); break;
                case 8: v = down ? (rd ? not x.all() : not x.all(ro))
                                 : (rd ? not x.none() : not x.none(ro)); break;
                default:
                    v = (rd ? x.count() : x.count(ro)) != (down ? N : 0);
                    break;
                }
                for (unsigned p = 0; p < pubs; ++p) {
                    if ((v >> p & 1) and not(seen >> p & 1)) {
                        seen |= u64{1} << p;
                        for (auto w : payload[p]) {
                            bad = bad or w != stamp + p;
                        }
                    }
                }
                if (seen == want) {
                    break;
                }
                if (spin % 16 == 15) {
                    sched_yield();
                }
            }
            got = seen;
        }
        delay_level = 0;
    });
    c.check(not bad, "published-data-not-visible", "");
    if (got != (1u << pubs) - 1) {
        auto const fin = x.template to<u64>() ^ (down ? ~u64{} : 0);
        auto const want = (u64{1} << pubs) - 1;
        c.check((fin & want) == want, "publication-lost", "");
        c.event("publication not observed in time");
    } else {
        c.event("publications observed");
    }
}

using Num_u8 = Num<std::uint8_t>;
using Num_u32 = Num<std::uint32_t>;
using Num_i32 = Num<std::int32_t>;
using Num_i64 = Num<std::int64_t>;
using Bits_3 = Bits<3>;
using Bits_8 = Bits<8>;
using Bits_20 = Bits<20>;
using Bits_64 = Bits<64>;
using Bits_5_u32 = Bits<5, std::uint32_t>;
VF_INST(4, linear, Num_u8)
VF_INST(4, linear, Num_u32)
VF_INST(4, linear, Num_i32)
VF_INST(4, linear, Num_i64)
VF_INST(4, linear, Bits_3)
VF_INST(4, linear, Bits_8)
VF_INST(4, linear, Bits_20)
VF_INST(4, linear, Bits_64)
VF_INST(4, linear, Bits_5_u32)
VF_INST(6, publish_num, std::uint8_t)
VF_INST(6, publish_num, std::uint32_t)
VF_INST(6, publish_num, std::int64_t)
VF_INST(6, publish_bits, 5)
VF_INST(6, publish_bits, 16)
VF_INST(6, publish_bits, 33)
VF_INST(6, publish_bits, 7, std::uint32_t)
} // namespace
