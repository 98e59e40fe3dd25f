#include <stdx/cached.hpp>
#include <stdx/latched.hpp>

#include "elems.hpp"

#include <memory>
#include <optional>

using vf::u64;

namespace {
struct Boom {};
struct NonMov {
    explicit NonMov(int x) : v{x} {}
    NonMov(NonMov &&) = delete;
    int v;
};
struct Src {
    int calls = 0;
    bool boom = false;
    int serial = 0;
    int next() {
        ++calls;
        if (boom) {
            throw Boom{};
        }
        return ++serial;
    }
};
template <typename T> struct Kind;
template <> struct Kind<int> {
    static int make(int v) { return v; }
    static int id(int const &v) { return v; }
};
template <> struct Kind<std::string> {
    static std::string make(int v) {
        return "a rather long string number " + std::to_string(v);
    }
    static int id(std::string const &s) { return std::stoi(s.substr(28)); }
};
template <> struct Kind<vf::Tracked> {
    static vf::Tracked make(int v) { return vf::Tracked{v}; }
    static int id(vf::Tracked const &t) { return t.get(); }
};
template <> struct Kind<std::unique_ptr<int>> {
    static auto make(int v) { return std::make_unique<int>(v); }
    static int id(std::unique_ptr<int> const &p) { return *p; }
};
template <> struct Kind<NonMov> {
    static NonMov make(int v) { return NonMov{v}; }
    static int id(NonMov const &n) { return n.v; }
};
template <typename T> struct Fn {
    Src *s;
    T operator()() const { return Kind<T>::make(s->next()); }
};
template <typename T> struct RefFn { // value type of a reference result
    Src *s;
    T *store;
    T const &operator()() const {
        *store = Kind<T>::make(s->next());
        return *store;
    }
};

template <template <typename> typename C, typename T, typename F>
void drive(vf::Ctx &c, Src &src, C<F> &obj) {
    constexpr bool is_cached =
        std::is_same_v<C<F>, stdx::cached<F>>;
    static_assert(std::is_same_v<typename C<F>::value_type, T>);
    static_assert(std::is_same_v<stdx::latched_value_t<C<F> const &>, T>);
    static_assert(std::is_same_v<stdx::cached_value_t<C<F> &>, T>);
    std::optional<int> m;
    int serial = 0, calls = 0;
    c.eq(src.calls, 0, "computed-on-construction");
    for (auto n = 4 + c.below(16); n > 0; --n) {
        src.boom = c.chance(20);
        // what a demand for the value must do
        auto demand = [&](auto access, char const *what) {
            c.op(what, src.boom);
            bool threw = false;
            int got = 0;
            try {
                got = access();
            } catch (Boom const &) {
                threw = true;
            }
            if (not m) {
                ++calls;
                if (src.boom) {
                    c.check(threw, "exception-lost", what);
                    c.eq(src.calls, calls, "computations");
                    return;
                }
                m = ++serial;
            }
            c.check(not threw, "recomputed", what);
            c.eq(src.calls, calls, "computations");
            c.eq(got, *m, what);
        };
        auto const &co = obj;
        switch (c.below(is_cached ? 11 : 8)) {
        case 0:
            c.op("has_value");
            c.eq(co.has_value(), m.has_value(), "has_value");
            break;
        case 1:
            c.op("bool");
            c.eq(static_cast<bool>(co), m.has_value(), "bool");
            break;
        case 2: demand([&] { return Kind<T>::id(co.value()); }, "value"); break;
        case 3: demand([&] { return Kind<T>::id(*co); }, "dereference"); break;
        case 4:
            demand([&] { return Kind<T>::id(*co.operator->()); }, "arrow");
            break;
        case 5:
            demand([&] { return Kind<T>::id(std::move(co).value()); },
                   "rvalue value");
            break;
        case 6:
            demand([&] { return Kind<T>::id(*std::move(co)); },
                   "rvalue dereference");
            break;
        case 7: {
            // the same object every time
            if (m) {
                c.op("stable");
                c.check(std::addressof(co.value()) == std::addressof(*co) and
                            co.operator->() == std::addressof(*co),
                        "different objects", "");
            }
            break;
        }
        default:
            if constexpr (is_cached) {
                if (c.coin()) {
                    c.op("reset");
                    obj.reset();
                    m.reset();
                } else {
                    c.op("refresh", src.boom);
                    bool threw = false;
                    int got = 0;
                    try {
                        auto &r = obj.refresh();
                        static_assert(std::is_same_v<decltype(r), T &>);
                        got = Kind<T>::id(r);
                        c.check(std::addressof(r) == std::addressof(*obj),
                                "refresh-result", "");
                    } catch (Boom const &) {
                        threw = true;
                    }
                    ++calls;
                    m.reset();
                    c.eq(threw, src.boom, "refresh-threw");
                    if (not threw) {
                        m = ++serial;
                        c.eq(got, *m, "refresh");
                    }
                }
            }
        }
        c.eq(src.calls, calls, "computations");
        c.eq(co.has_value(), m.has_value(), "has_value");
        c.state(static_cast<u64>(m.value_or(-1)) * 97 +
                static_cast<u64>(calls));
    }
    // a copy carries the state and computes on its own
    src.boom = false;
    if constexpr (std::is_copy_constructible_v<T> and
                  std::is_copy_constructible_v<F>) {
        c.op("copy");
        C<F> d{obj};
        c.eq(src.calls, calls, "computed on copy");
        c.eq(d.has_value(), m.has_value(), "copied has_value");
        if (not m) {
            c.eq(Kind<T>::id(*d), ++serial, "copied value");
            ++calls;
            c.check(not obj.has_value(), "copy populated the original", "");
        } else {
            c.eq(Kind<T>::id(*d), *m, "copied value");
        }
        c.eq(src.calls, calls, "computations");
    }
}
template <typename T> void cached(vf::Ctx &c) {
    vf::life.reset();
    {
        Src src;
        Fn<T> f{&src};
        if (c.coin()) {
            stdx::cached o{f};
            drive<stdx::cached, T, Fn<T>>(c, src, o);
        } else {
            stdx::cached o{Fn<T>{&src}};
            drive<stdx::cached, T, Fn<T>>(c, src, o);
        }
    }
    vf::life_check(c, "cached");
    c.check(vf::life.live.empty(), "leak", "objects left alive");
}
template <typename T> void latched(vf::Ctx &c) {
    vf::life.reset();
    {
        Src src;
        Fn<T> f{&src};
        if (c.coin()) {
            stdx::latched o{f};
            drive<stdx::latched, T, Fn<T>>(c, src, o);
        } else {
            stdx::latched o{Fn<T>{&src}};
            drive<stdx::latched, T, Fn<T>>(c, src, o);
        }
    }
    vf::life_check(c, "latched");
    c.check(vf::life.live.empty(), "leak", "objects left alive");
}
template <typename T> void reference(vf::Ctx &c) {
    vf::life.reset();
    {
        Src src;
        T store = Kind<T>::make(99);
        stdx::cached o{RefFn<T>{&src, &store}};
        drive<stdx::cached, T, RefFn<T>>(c, src, o);
        Src src2;
        stdx::latched l{RefFn<T>{&src2, &store}};
        drive<stdx::latched, T, RefFn<T>>(c, src2, l);
    }
    vf::life_check(c, "reference");
    c.check(vf::life.live.empty(), "leak", "objects left alive");
}
using Ptr = std::unique_ptr<int>;
VF_INST(3, cached, int)
VF_INST(3, cached, std::string)
VF_INST(3, cached, vf::Tracked)
VF_INST(3, cached, Ptr)
VF_INST(3, cached, NonMov)
VF_INST(3, latched, int)
VF_INST(3, latched, std::string)
VF_INST(3, latched, vf::Tracked)
VF_INST(3, latched, Ptr)
VF_INST(3, latched, NonMov)
VF_INST(2, reference, int)
VF_INST(2, reference, std::string)
VF_INST(2, reference, vf::Tracked)

// functions that can only be moved
template <typename T> struct MoveFn {
    std::unique_ptr<Src *> s;
    T operator()() const { return Kind<T>::make((*s)->next()); }
};
template <template <typename> typename C, typename T>
void move_only_function(vf::Ctx &c) {
    vf::life.reset();
    {
        Src src;
        MoveFn<T> f{std::make_unique<Src *>(&src)};
        C<MoveFn<T>> o{std::move(f)};
        c.check(f.s == nullptr, "function-moved", "");
        drive<C, T, MoveFn<T>>(c, src, o);
    }
    vf::life_check(c, "move_only_function");
    c.check(vf::life.live.empty(), "leak", "objects left alive");
}
VF_INST(1, move_only_function, stdx::cached, int)
VF_INST(1, move_only_function, stdx::cached, vf::Tracked)
VF_INST(1, move_only_function, stdx::latched, int)
VF_INST(1, move_only_function, stdx::latched, vf::Tracked)

// moving an object takes its function and value along
VF_SUITE(moved, 2) {
    Src src;
    bool pop = c.coin();
    c.op("move", pop);
    stdx::cached a{Fn<Ptr>{&src}};
    int want = 0;
    if (pop) {
        want = **a;
    }
    stdx::cached b{std::move(a)};
    c.eq(src.calls, pop ? 1 : 0, "computations");
    c.eq(b.has_value(), pop, "has_value");
    c.eq(**b, pop ? want : 1, "value");
    c.eq(src.calls, 1, "computations");
    b.reset();
    c.eq(**b, 2, "value");
}
} // namespace
