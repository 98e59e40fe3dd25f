#include <stdx/byterator.hpp>

#include "elems.hpp"

#include <algorithm>
#include <array>
#include <iterator>
#include <memory>
#include <utility>
#include <vector>

#include <sys/mman.h>

using vf::i64;
using vf::u16;
using vf::u32;
using vf::u64;
using vf::u8;

namespace {
struct P3 {
    u8 a, b, c;
};
#pragma pack(push, 1)
struct Odd {
    u8 a;
    u32 b;
    u16 c;
};
#pragma pack(pop)
enum struct E32 : u32 {};
enum struct E8 : u8 {};

// It: iterator over T storage, C: storage is const
template <typename T, bool Const, int Kind> void walk(vf::Ctx &c) {
    std::size_t const count =
        c.chance(4) ? (c.chance(10) ? 65540 : 250) / sizeof(T) + c.below(20)
                    : 1 + c.below(24 / sizeof(T) + 2);
    std::size_t const n = count * sizeof(T);
    // exact allocation, so that the sanitizer sees any byte outside
    std::vector<T> store(count);
    store.shrink_to_fit();
    auto raw = reinterpret_cast<unsigned char *>(store.data());
    std::vector<unsigned char> m(n);
    for (std::size_t i = 0; i < n; ++i) {
        raw[i] = m[i] = static_cast<unsigned char>(c.next());
    }
    auto elem = [&](std::size_t k) {
        if constexpr (Kind == 0 and Const) {
            return static_cast<T const *>(store.data()) + k;
        } else if constexpr (Kind == 0) {
            return store.data() + k;
        } else if constexpr (Const) {
            return store.cbegin() + static_cast<std::ptrdiff_t>(k);
        } else {
            return store.begin() + static_cast<std::ptrdiff_t>(k);
        }
    };
    auto k0 = c.below(count);
    auto it = stdx::byterator{elem(k0)};
    using B = decltype(it);
    using El = std::conditional_t<Const, T const, T>;
    static_assert(std::is_same_v<B, stdx::byterator<El>>);
    static_assert(std::is_same_v<decltype(*it),
                                 std::conditional_t<Const, std::byte const &,
                                                    std::byte &>>);
    i64 pos = static_cast<i64>(k0 * sizeof(T));
    i64 const N = static_cast<i64>(n);
    auto addr = reinterpret_cast<std::uintptr_t>(raw);
    auto at = [&](i64 p) { return stdx::byterator{elem(0)} + p; };
    c.op("start", n, pos);
    auto here = [&] {
        c.eq(static_cast<void const *>(it.operator->()),
             static_cast<void const *>(raw + pos), "position");
        c.check(std::memcmp(raw, m.data(), n) == 0, "buffer-changed",
                "a byte of the buffer is not what the model holds");
        if (pos < N) {
            c.eq(static_cast<unsigned>(*it), unsigned{m[pos]}, "dereference");
        }
        c.state(vf::mix(static_cast<u64>(pos)) ^ n);
    };
    auto model = [&]<typename V>(V) {
        V v;
        std::memcpy(&v, m.data() + pos, sizeof v);
        return v;
    };
    auto same = [&](auto const &x, auto const &y, char const *key) {
        static_assert(sizeof x == sizeof y);
        c.check(std::memcmp(&x, &y, sizeof x) == 0, key, "other bytes");
    };
    auto reading = [&]<typename V>(V) {
        if (pos + static_cast<i64>(sizeof(V)) > N) {
            return;
        }
        c.op("read/peek/advance", sizeof(V));
        auto want = model(V{});
        auto got = it.template peek<V>();
        static_assert(std::is_same_v<decltype(got), V>);
        same(got, want, "peek");
        here();
        if (c.coin()) {
            got = it.template read<V>();
            same(got, want, "read");
        } else {
            auto &r = it.template advance<V>();
            c.check(&r == &it, "advance-returns-self", "");
        }
        pos += sizeof(V);
    };
    auto writing = [&]<typename V>(V) {
        if (pos + static_cast<i64>(sizeof(V)) > N) {
            return;
        }
        if constexpr (not Const) {
            V v;
            unsigned char b[sizeof(V)];
            for (auto &x : b) {
                x = static_cast<unsigned char>(c.next());
            }
            std::memcpy(&v, b, sizeof v);
            c.op("write", sizeof(V));
            std::memcpy(m.data() + pos, &v, sizeof v);
            V const &cv = v;
            switch (c.below(3)) {
            case 0: it.write(v); break;
            case 1: it.write(cv); break;
            default: it.write(std::move(v)); break;
            }
            pos += sizeof(V);
        }
    };
    here();
    for (auto steps = 6 + c.below(25); steps > 0; --steps) {
        switch (c.below(19)) {
        case 0:
            if (pos < N) {
                c.op("++");
                auto &r = ++it;
                c.check(&r == &it, "increment-returns-self", "");
                ++pos;
            }
            break;
        case 1:
            if (pos < N) {
                c.op("post++");
                auto o = it++;
                c.check(o == at(pos), "post-increment", "");
                ++pos;
            }
            break;
        case 2:
            if (pos > 0) {
                c.op("--");
                auto &r = --it;
                c.check(&r == &it, "decrement-returns-self", "");
                --pos;
            }
            break;
        case 3:
            if (pos > 0) {
                c.op("post--");
                auto o = it--;
                c.check(o == at(pos), "post-decrement", "");
                --pos;
            }
            break;
        case 4: {
            auto d = c.range(-pos, N - pos);
            c.op("+=", d);
            switch (c.below(3)) {
            case 0: it += d; break;
            case 1: it -= -d; break;
            default: it.advance(d); break;
            }
            pos += d;
            break;
        }
        case 5: {
            auto d = c.range(-pos, N - pos);
            c.op("+", d);
            auto o = c.coin() ? it + d : d + it;
            c.eq(static_cast<void const *>(o.operator->()),
                 static_cast<void const *>(raw + pos + d), "plus");
            c.eq(o - it, d, "difference");
            c.eq(it - o, -d, "difference");
            auto o2 = it - (-d);
            c.check(o2 == o, "minus", "");
            c.eq(it == o, d == 0, "==");
            c.eq(it != o, d != 0, "!=");
            c.eq(it < o, 0 < d, "<");
            c.eq(it <= o, 0 <= d, "<=");
            c.eq(it > o, 0 > d, ">");
            c.eq(it >= o, 0 >= d, ">=");
            c.check((it <=> o) == (i64{0} <=> d), "<=>", "");
            break;
        }
        case 6: {
            auto k = c.below(count + 1);
            auto e = elem(k);
            auto ep = static_cast<i64>(k * sizeof(T));
            c.op("compare with iterator", k);
            c.eq(it == e, pos == ep, "== iterator");
            c.eq(it != e, pos != ep, "!= iterator");
            c.eq(e == it, pos == ep, "iterator ==");
            c.eq(it < e, pos < ep, "< iterator");
            c.eq(it <= e, pos <= ep, "<= iterator");
            c.eq(it > e, pos > ep, "> iterator");
            c.eq(it >= e, pos >= ep, ">= iterator");
            c.eq(e < it, ep < pos, "iterator <");
            c.eq(e >= it, ep >= pos, "iterator >=");
            break;
        }
        case 7: {
            auto d = c.range(-pos, N - pos - 1);
            c.op("[]", d);
            B const &ci = it;
            c.eq(static_cast<unsigned>(it[d]), unsigned{m[pos + d]}, "index");
            c.eq(static_cast<unsigned>(ci[d]), unsigned{m[pos + d]}, "index");
            if constexpr (not Const) {
                auto b = static_cast<unsigned char>(c.next());
                it[d] = std::byte{b};
                m[pos + d] = b;
            }
            break;
        }
        case 8: reading(u8{}); break;
        case 9:
            switch (c.below(4)) {
            case 0: reading(u16{}); break;
            case 1: reading(std::int16_t{}); break;
            case 2: reading(P3{}); break;
            default: reading(std::array<u8, 5>{}); break;
            }
            break;
        case 10:
            switch (c.below(4)) {
            case 0: reading(u32{}); break;
            case 1: reading(E32{}); break;
            case 2: reading(float{}); break;
            default: reading(u64{}); break;
            }
            break;
        case 11: reading(Odd{}); break;
        case 12:
            switch (c.below(8)) {
            case 0: writing(u8{}); break;
            case 1: writing(u16{}); break;
            case 2: writing(u32{}); break;
            case 3: writing(u64{}); break;
            case 4: writing(P3{}); break;
            case 5: writing(Odd{}); break;
            case 6: writing(E32{}); break;
            default: writing(std::array<u16, 3>{}); break;
            }
            break;
        // the named conveniences
#define NAMED(W)                                                               \
    if (pos + W / 8 <= N) {                                                    \
        using V = std::uint##W##_t;                                            \
        auto want = model(V{});                                                \
        c.op("named", W);                                                      \
        auto p = it.peeku##W();                                                \
        static_assert(std::is_same_v<decltype(p), V>);                         \
        c.eq(p, want, "peeku");                                                \
        here();                                                                \
        auto as = [&]<typename R>(R) {                                         \
            auto r = it.template peeku##W<R>();                                \
            static_assert(std::is_same_v<decltype(r), R>);                     \
            c.check(r == static_cast<R>(want), "peeku<R>",                     \
                    "not the bytes converted to R");                           \
            c.check(it.template peek<V, R>() == static_cast<R>(want),          \
                    "peek<V, R>", "not the bytes converted to R");             \
            auto jt = it;                                                      \
            c.check(jt.template readu##W<R>() == static_cast<R>(want),         \
                    "readu<R>", "not the bytes converted to R");               \
            c.check(jt - it == W / 8, "readu<R>", "moved by another size");    \
        };                                                                     \
        as(u8{}), as(std::int8_t{}), as(u16{}), as(std::int16_t{});            \
        as(u32{}), as(std::int32_t{}), as(u64{}), as(i64{});                   \
        here();                                                                \
        auto q = it.template peeku##W<E32>();                                  \
        static_assert(std::is_same_v<decltype(q), E32>);                       \
        c.eq(static_cast<u32>(q), static_cast<u32>(want), "peeku<enum>");      \
        switch (c.below(Const ? 3 : 4)) {                                      \
        case 0: c.eq(it.readu##W(), want, "readu"); break;                     \
        case 1:                                                                \
            c.eq(it.template readu##W<u64>(), u64{want}, "readu<u64>");        \
            break;                                                             \
        case 2: {                                                              \
            auto &r = it.advanceu##W();                                        \
            c.check(&r == &it, "advance-returns-self", "");                    \
            break;                                                             \
        }                                                                      \
        default:                                                               \
            if constexpr (not Const) {                                         \
                auto v = c.next();                                             \
                auto w = static_cast<V>(v);                                    \
                std::memcpy(m.data() + pos, &w, sizeof w);                     \
                if (c.coin()) {                                                \
                    it.writeu##W(v);                                           \
                } else {                                                       \
                    it.writeu##W(static_cast<E32>(w));                         \
                    auto w2 = static_cast<V>(static_cast<u32>(w));             \
                    std::memcpy(m.data() + pos, &w2, sizeof w2);               \
                }                                                              \
            }                                                                  \
        }                                                                      \
        pos += W / 8;                                                          \
    }                                                                          \
    break;
        case 13: NAMED(8)
        case 14: NAMED(16)
        case 15: NAMED(32)
        case 16: NAMED(64)
        case 17: {
            // read a narrow value as a wider or enumerated one
            if (pos < N) {
                c.op("read<u8, E32>");
                auto want = m[pos];
                auto g = it.template peek<u8, E32>();
                c.eq(static_cast<u32>(g), u32{want}, "peek<V, R>");
                auto r = it.template read<u8, u64>();
                c.eq(r, u64{want}, "read<V, R>");
                ++pos;
            }
            break;
        }
        default: {
            auto align = [&]<typename V>(V) {
                auto s = sizeof(V);
                auto a = (addr + static_cast<u64>(pos) + s - 1) / s * s;
                // keep inside the buffer
                i64 k = c.range(-3, 3);
                auto target = static_cast<i64>(a - addr) +
                              k * static_cast<i64>(s);
                bool plain = c.coin();
                if (plain) {
                    k = 0;
                    target = static_cast<i64>(a - addr);
                }
                if (target < 0 or target > N) {
                    return;
                }
                c.op("advance_to_alignment", s, k);
                auto &r = plain ? it.template advance_to_alignment<V>()
                                : it.template advance_to_alignment<V>(k);
                c.check(&r == &it, "advance-returns-self", "");
                pos = target;
            };
            switch (c.below(5)) {
            case 0: align(u8{}); break;
            case 1: align(u16{}); break;
            case 2: align(u32{}); break;
            case 3: align(E32{}); break;
            default: align(u64{}); break;
            }
        }
        }
        here();
    }
    // as a random access iterator of bytes
    c.op("range");
    auto b = at(0), e = at(N);
    c.eq(std::distance(b, e), N, "distance");
    i64 i = 0;
    for (auto p = b; p != e; ++p, ++i) {
        c.eq(static_cast<unsigned>(*p), unsigned{m[i]}, "iterate");
    }
    if (n > 0) {
        auto v = std::byte{m[c.below(n)]};
        auto f = std::find(b, e, v);
        auto mf = std::find(m.begin(), m.end(), static_cast<unsigned char>(v));
        c.eq(f - b, mf - m.begin(), "find");
    }
}
template <std::size_t N> struct Block {
    u8 b[N];
};
VF_EXHAUSTIVE(huge, 24) {
    // distances beyond what narrow integers count, over memory that is never touched
    constexpr auto space = std::size_t{5} << 32;
    auto *const mem = ::mmap(reinterpret_cast<void *>(0x2000'1234'0000), space, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (mem == MAP_FAILED) {
        c.op("no address space");
        return;
    }
    auto *const p = static_cast<u8 *>(mem);
    auto const N = static_cast<i64>(space);
    auto const in = static_cast<i64>(c.below(u64{5} << c.below(33))), out = static_cast<i64>(c.below(space - static_cast<u64>(in) + 1));
    c.op("distances", in, out);
    c.state(vf::mix(static_cast<u64>(in) ^ vf::mix(static_cast<u64>(out))));
    auto it = stdx::byterator{p};
    auto const here = [&](i64 at, char const *key) {
        c.eq(it - stdx::byterator{p}, at, key);
        c.check(it == p + at, key, "not equal to the pointer");
    };
    it += in;
    here(in, "huge-plus");
    it = it + out;
    here(in + out, "huge-plus");
    it = (-out) + it;
    here(in, "huge-minus");
    it -= in;
    here(0, "huge-minus");
    it.advance(in + out);
    here(in + out, "huge-advance");
    it = it - (in + out);
    here(0, "huge-minus");
    c.check(static_cast<void const *>(&it[in]) == p + in and static_cast<void const *>(&std::as_const(it)[in]) == p + in, "huge-index", "");
    it += in;
    if (in > 0) {
        c.check(&it[-in] == static_cast<void *>(p), "huge-index", "");
    }
    c.check((it < stdx::byterator{p + N}) == (in < N) and it <= stdx::byterator{p + N} and (it > stdx::byterator{p}) == (in > 0), "huge-order", "");
    auto const align = [&]<typename V>(V *, i64 steps) {
        auto const w = static_cast<i64>(sizeof(V));
        auto from = in % (N / 2);
        if (c.chance(30)) { // just below a place where the low half of the address wraps
            from = static_cast<i64>((std::size_t{1} << 32) - reinterpret_cast<std::uintptr_t>(p) % (std::size_t{1} << 32)) +
                   (static_cast<i64>(c.below(2)) << 32) - static_cast<i64>(c.below(2));
        }
        it = stdx::byterator{p + from};
        auto const up = static_cast<i64>((reinterpret_cast<std::uintptr_t>(p + from) + sizeof(V) - 1) / sizeof(V) * sizeof(V) - reinterpret_cast<std::uintptr_t>(p));
        it.template advance_to_alignment<V>(steps);
        here(up + steps * w, "huge-align");
        it = stdx::byterator{p + from};
        it.template advance_to_alignment<V>();
        here(up, "huge-align");
        it.template advance<V>();
        here(up + w, "huge-advance-type");
    };
    align(static_cast<u8 *>(nullptr), out / 8);
    align(static_cast<u32 *>(nullptr), out / 16);
    align(static_cast<Block<256> *>(nullptr), out / 1024);
    align(static_cast<Block<65536> *>(nullptr), out / 65536 / 4);
    it = stdx::byterator{p};
    it.advance<Block<70001>>();
    here(70001, "huge-advance-type");
    ::munmap(mem, space);
}
VF_EXHAUSTIVE(blocks, 4) {
    // values larger than narrow sizes
    constexpr std::size_t n = 70001;
    c.op("blocks");
    auto from = std::make_unique<Block<n>>();
    for (auto &b : from->b) {
        b = static_cast<u8>(c.next());
    }
    std::vector<u8> bytes(2 * n + 3);
    auto const at = c.below(n + 3);
    auto it = stdx::byterator{bytes.data()};
    it += static_cast<i64>(at);
    it.write(*from);
    c.check(it == bytes.data() + at + n, "block-write-advances", "");
    c.check(std::equal(from->b, from->b + n, bytes.data() + at), "block-written", "");
    c.check(std::count(bytes.begin(), bytes.begin() + static_cast<i64>(at), 0) == static_cast<i64>(at) and
                std::count(bytes.begin() + static_cast<i64>(at + n), bytes.end(), 0) == static_cast<i64>(bytes.size() - at - n),
            "block-outside", "");
    it -= static_cast<i64>(n);
    auto const peeked = std::make_unique<Block<n>>(it.peek<Block<n>>());
    c.check(std::equal(from->b, from->b + n, peeked->b) and it == bytes.data() + at, "block-peeked", "");
    auto const read = std::make_unique<Block<n>>(it.read<Block<n>>());
    c.check(std::equal(from->b, from->b + n, read->b) and it == bytes.data() + at + n, "block-read", "");
}
VF_INST(3, walk, u8, false, 0)
VF_INST(3, walk, u8, true, 0)
VF_INST(2, walk, u16, false, 1)
VF_INST(2, walk, u32, true, 1)
VF_INST(2, walk, u32, false, 0)
VF_INST(2, walk, u64, false, 1)
VF_INST(2, walk, P3, false, 0)
VF_INST(2, walk, P3, true, 1)
VF_INST(1, walk, Odd, false, 1)
VF_INST(1, walk, std::byte, false, 1)
} // namespace
