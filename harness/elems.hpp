// Element types for container workloads, and the lifetime registry.
#pragma once
#include "vf.hpp"

#include <memory>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <utility>

namespace vf {
// Every Tracked object registers itself; misuse is recorded as a fault and
// reported by the harness at the next check point. Copying or moving a
// moved-from object only passes that state on (whole containers do it with
// their vacated slots); looking at its value is the fault.
struct Life {
    enum State : u8 { alive = 1, moved = 2 };
    std::unordered_map<void const *, State> live;
    std::string fault;
    u64 constructed{}, destroyed{}, copies{}, moves{};
    i64 throw_in{-1}; // countdown to an injected copy failure
    void reset() {
        live.clear();
        fault.clear();
        constructed = destroyed = copies = moves = 0;
        throw_in = -1;
    }
    void bad(char const *what) {
        if (fault.empty()) {
            fault = what;
        }
    }
    void born(void const *p, State s = alive) {
        ++constructed;
        if (not live.emplace(p, s).second) {
            bad("constructed over a live object");
        }
    }
    void died(void const *p) {
        ++destroyed;
        if (live.erase(p) == 0) {
            bad("destroyed an object that is not alive");
        }
    }
    void set(void const *p, State s) {
        auto it = live.find(p);
        if (it == live.end()) {
            bad("assigned to an object that is not alive");
        } else {
            it->second = s;
        }
    }
    State use(void const *p) {
        auto it = live.find(p);
        if (it == live.end()) {
            bad("used an object that is not alive");
            return alive;
        }
        return it->second;
    }
    void maybe_throw() {
        if (throw_in >= 0 and throw_in-- == 0) {
            throw_in = -1;
            throw std::runtime_error("injected");
        }
    }
};
inline Life life;

template <bool Copyable> struct TrackedT {
    int *p{}; // owned resource; ASan watches it
    TrackedT() { life.born(this); }
    explicit TrackedT(int v) : p{new int(v)} { life.born(this); }
    TrackedT(TrackedT const &o)
        requires Copyable
    {
        life.maybe_throw();
        auto const s = life.use(&o);
        p = o.p ? new int(*o.p) : nullptr;
        ++life.copies;
        life.born(this, s);
    }
    TrackedT(TrackedT &&o) noexcept {
        auto s = life.use(&o);
        p = std::exchange(o.p, nullptr);
        ++life.moves;
        life.born(this, s);
        life.set(&o, Life::moved);
    }
    auto operator=(TrackedT const &o) -> TrackedT &
        requires Copyable
    {
        life.maybe_throw();
        auto s = life.use(&o);
        if (&o != this) {
            int *n = o.p ? new int(*o.p) : nullptr;
            delete p;
            p = n;
        }
        ++life.copies;
        life.set(this, s);
        return *this;
    }
    auto operator=(TrackedT &&o) noexcept -> TrackedT & {
        auto s = life.use(&o);
        if (&o != this) {
            delete p;
            p = std::exchange(o.p, nullptr);
            life.set(this, s);
            life.set(&o, Life::moved);
        }
        ++life.moves;
        return *this;
    }
    ~TrackedT() {
        life.died(this);
        delete p;
    }
    [[nodiscard]] int get() const {
        if (life.use(this) == Life::moved) {
            life.bad("read a moved-from object");
        }
        return p ? *p : 0;
    }
    friend auto operator==(TrackedT const &a, TrackedT const &b) -> bool {
        return a.get() == b.get();
    }
    friend auto operator<=>(TrackedT const &a, TrackedT const &b) {
        return a.get() <=> b.get();
    }
};
using Tracked = TrackedT<true>;
using TrackedMove = TrackedT<false>;

// Uniform access: make a value carrying an identity, read it back.
template <typename T> struct El {
    static T make(u64 v) { return static_cast<T>(v); }
    static u64 id(T const &t) { return static_cast<u64>(t); }
    static u64 norm(u64 v) { return static_cast<u64>(static_cast<T>(v)); }
};
template <> struct El<std::string> {
    static std::string make(u64 v) {
        return "element-long-enough-for-heap-" + std::to_string(v);
    }
    static u64 id(std::string const &t) {
        return t.empty() ? 0 : std::stoull(t.substr(29));
    }
    static u64 norm(u64 v) { return v; }
};
template <bool B> struct El<TrackedT<B>> {
    static TrackedT<B> make(u64 v) { return TrackedT<B>(static_cast<int>(v)); }
    static u64 id(TrackedT<B> const &t) { return static_cast<u64>(t.get()); }
    static u64 norm(u64 v) {
        return static_cast<u64>(static_cast<int>(v));
    }
};
struct Wide { // big trivially copyable element
    u64 a{}, b{};
    char c[3]{};
    friend bool operator==(Wide const &x, Wide const &y) {
        return x.a == y.a and x.b == y.b;
    }
};
template <> struct El<Wide> {
    static Wide make(u64 v) { return {v, ~v, {1, 2, 3}}; }
    static u64 id(Wide const &t) { return t.a == ~t.b ? t.a : ~u64{7}; }
    static u64 norm(u64 v) { return v; }
};
template <> struct El<std::unique_ptr<int>> {
    static std::unique_ptr<int> make(u64 v) {
        return std::make_unique<int>(static_cast<int>(v));
    }
    static u64 id(std::unique_ptr<int> const &t) {
        return t ? static_cast<u64>(*t) : ~u64{9};
    }
    static u64 norm(u64 v) {
        return static_cast<u64>(static_cast<int>(v));
    }
};

// scope: nothing tracked may remain or have misbehaved when a case ends
inline void life_check(Ctx &c, char const *where) {
    if (not life.fault.empty()) {
        c.fail("lifetime", life.fault + " (" + where + ")");
    }
    ++g.checks;
}
} // namespace vf

#define VF_CAT2(A, B) A##B
#define VF_CAT(A, B) VF_CAT2(A, B)
#define VF_INST(WEIGHT, FN, ...)                                               \
    static vf::Reg VF_CAT(vf_inst_, __COUNTER__){#FN "<" #__VA_ARGS__ ">",     \
                                                 WEIGHT, FN<__VA_ARGS__>};
