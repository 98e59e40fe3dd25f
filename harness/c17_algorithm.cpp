#include <stdx/algorithm.hpp>
#include <stdx/iterator.hpp>
#include <stdx/numeric.hpp>

#include "elems.hpp"

#include <array>
#include <deque>
#include <forward_list>
#include <functional>
#include <iterator>
#include <limits>
#include <list>
#include <sstream>
#include <vector>

using vf::u64;

namespace {
using Row = std::vector<int>;
using Log = std::vector<Row>;

// A range that notices every access outside it, and for single-pass
// iterators every access behind the furthest position.
struct Range {
    std::vector<int> data;
    std::string fault;
    std::ptrdiff_t front = 0;
    std::size_t reads = 0;
    void bad(char const *w) {
        if (fault.empty()) {
            fault = w;
        }
    }
};

template <typename Tag> struct It {
    using iterator_category = Tag;
    using value_type = int;
    using difference_type = std::ptrdiff_t;
    using pointer = int *;
    static constexpr bool input = std::is_same_v<Tag, std::input_iterator_tag>;
    using reference = std::conditional_t<input, int, int &>;

    Range *r{};
    std::ptrdiff_t p{};

    void touch() const {
        if constexpr (input) {
            if (p < r->front) {
                r->bad("single-pass iterator used behind the current position");
            }
        }
    }
    reference operator*() const {
        static int dummy = -99;
        touch();
        ++r->reads;
        if (p < 0 or p >= static_cast<std::ptrdiff_t>(r->data.size())) {
            r->bad("dereferenced outside the range");
            return dummy;
        }
        return r->data[static_cast<std::size_t>(p)];
    }
    It &operator++() {
        touch();
        ++p;
        if (p > static_cast<std::ptrdiff_t>(r->data.size())) {
            r->bad("incremented past the end");
        }
        if constexpr (input) {
            r->front = std::max(r->front, p);
        }
        return *this;
    }
    It operator++(int) {
        auto t = *this;
        ++*this;
        return t;
    }
    It &operator--()
        requires std::derived_from<Tag, std::bidirectional_iterator_tag>
    {
        if (--p < 0) {
            r->bad("decremented before the beginning");
        }
        return *this;
    }
    It operator--(int)
        requires std::derived_from<Tag, std::bidirectional_iterator_tag>
    {
        auto t = *this;
        --*this;
        return t;
    }
    static constexpr bool ra =
        std::derived_from<Tag, std::random_access_iterator_tag>;
    It &operator+=(std::ptrdiff_t n)
        requires ra
    {
        p += n;
        if (p < 0 or p > static_cast<std::ptrdiff_t>(r->data.size())) {
            r->bad("advanced outside the range");
        }
        return *this;
    }
    It &operator-=(std::ptrdiff_t n)
        requires ra
    {
        return *this += -n;
    }
    friend It operator+(It a, std::ptrdiff_t n)
        requires ra
    {
        return a += n;
    }
    friend It operator+(std::ptrdiff_t n, It a)
        requires ra
    {
        return a += n;
    }
    friend It operator-(It a, std::ptrdiff_t n)
        requires ra
    {
        return a -= n;
    }
    friend std::ptrdiff_t operator-(It const &a, It const &b)
        requires ra
    {
        return a.p - b.p;
    }
    reference operator[](std::ptrdiff_t n) const
        requires ra
    {
        return *(*this + n);
    }
    friend bool operator==(It const &a, It const &b) { return a.p == b.p; }
    friend bool operator!=(It const &a, It const &b) { return a.p != b.p; }
    friend auto operator<=>(It const &a, It const &b)
        requires ra
    {
        return a.p <=> b.p;
    }
};
static_assert(std::input_iterator<It<std::input_iterator_tag>>);
static_assert(std::forward_iterator<It<std::forward_iterator_tag>>);
static_assert(std::bidirectional_iterator<It<std::bidirectional_iterator_tag>>);
static_assert(std::random_access_iterator<It<std::random_access_iterator_tag>>);

using In = std::input_iterator_tag;
using Fw = std::forward_iterator_tag;
using Bi = std::bidirectional_iterator_tag;
using Ra = std::random_access_iterator_tag;

// Write-only output: every position is assigned exactly once, in order.
struct Out {
    std::vector<int> vals;
    std::size_t limit = 0;
    std::string fault;
};
struct OutIt {
    using iterator_category = std::output_iterator_tag;
    using value_type = void;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    using reference = void;
    Out *o{};
    std::size_t p{};
    struct Px {
        Out *o;
        std::size_t p;
        void operator=(int v) const {
            if (p >= o->limit) {
                o->fault = "wrote past the documented output";
            }
            if (p != o->vals.size()) {
                o->fault = "wrote out of order or twice";
            }
            o->vals.push_back(v);
        }
    };
    Px operator*() const { return {o, p}; }
    OutIt &operator++() {
        ++p;
        return *this;
    }
    OutIt operator++(int) {
        auto t = *this;
        ++p;
        return t;
    }
};

struct Boom {};

struct Rec { // stateful function object; the copy that came back knows its calls
    Log *log;
    int tag;
    u64 calls = 0;
    int boom = -1;
    template <typename... Is> int operator()(Is const &...is) {
        if (boom >= 0 and calls == static_cast<u64>(boom)) {
            throw Boom{};
        }
        ++calls;
        log->push_back(Row{static_cast<int>(is)...});
        long h = tag;
        ((h = (h * 31 + is) % 1000003), ...);
        return static_cast<int>(h);
    }
};
int value_of(int tag, Row const &r) {
    long h = tag;
    for (auto i : r) {
        h = (h * 31 + i) % 1000003;
    }
    return static_cast<int>(h);
}

std::size_t len(vf::Ctx &c) {
    if (c.chance(3)) {
        return 250 + c.below(20);
    }
    if (c.chance(33)) {
        return c.below(4);
    }
    return c.below(14);
}
Range make(vf::Ctx &c, std::size_t n) {
    Range r;
    for (std::size_t i = 0; i < n; ++i) {
        r.data.push_back(static_cast<int>(c.below(1000)));
    }
    return r;
}
// extra ranges hold what is needed, sometimes more
std::size_t extra_len(vf::Ctx &c, std::size_t need) {
    return need + (c.coin() ? 0 : c.below(4));
}

Log expect(std::vector<Range *> const &rs, std::size_t n) {
    Log l;
    for (std::size_t i = 0; i < n; ++i) {
        Row row;
        for (auto *r : rs) {
            row.push_back(r->data[i]);
        }
        l.push_back(row);
    }
    return l;
}
u64 log_hash(Log const &l) {
    u64 h = l.size();
    for (auto const &r : l) {
        for (auto v : r) {
            h = vf::mix(h ^ static_cast<u64>(v));
        }
    }
    return h;
}

template <typename P, typename... Es> struct Runner {
    static constexpr auto K = sizeof...(Es);
    Range first;
    std::array<Range, K + 1> ex;
    Log log;
    Log want;

    template <typename F> auto with(F f) {
        return [&]<std::size_t... Is>(std::index_sequence<Is...>) {
            return f(It<Es>{&ex[Is], 0}...);
        }(std::make_index_sequence<K>{});
    }
    void set(vf::Ctx &c, std::size_t n, std::size_t need) {
        first = make(c, n);
        std::vector<Range *> rs{&first};
        for (std::size_t i = 0; i < K; ++i) {
            ex[i] = make(c, extra_len(c, need));
            rs.push_back(&ex[i]);
        }
        want = expect(rs, need);
    }
    void verify(vf::Ctx &c, char const *alg, std::size_t done) {
        std::string const a = alg;
        c.eq(first.fault, std::string{}, a + "-touched-outside");
        for (auto &e : ex) {
            c.eq(e.fault, std::string{}, a + "-touched-outside");
        }
        c.eq(log.size(), done, a + "-call-count");
        want.resize(done);
        c.check(log == want, a + "-calls", "arguments or order of the calls");
        c.state(log_hash(log));
    }
    template <std::size_t Base, typename R>
    void positions(vf::Ctx &c, char const *alg, R const &r, std::size_t done) {
        [&]<std::size_t... Is>(std::index_sequence<Is...>) {
            ((c.eq(get<Base + Is>(r).p, static_cast<std::ptrdiff_t>(done),
                   std::string(alg) + "-returned-iterator"),
              c.check(get<Base + Is>(r).r == &ex[Is],
                      std::string(alg) + "-returned-iterator",
                      "not the iterator of that range")),
             ...);
        }(std::make_index_sequence<K>{});
    }

    void run(vf::Ctx &c) {
        auto const n = len(c);
        auto const tag = static_cast<int>(c.below(100));
        auto const which = c.below(8);
        auto const b = It<P>{&first, 0};
        auto e = [&] { return It<P>{&first, static_cast<std::ptrdiff_t>(first.data.size())}; };
        Rec rec{&log, tag};
        switch (which) {
        case 0: {
            set(c, n, n);
            c.op("for_each", n, K);
            auto r = with([&](auto... is) { return stdx::for_each(b, e(), rec, is...); });
            verify(c, "for_each", n);
            c.eq(get<0>(r).calls, n, "for_each-returned-op");
            positions<1>(c, "for_each", r, n);
            break;
        }
        case 1: {
            set(c, n, n);
            auto more = make(c, c.below(3)); // the range may go on after n
            first.data.insert(first.data.end(), more.data.begin(), more.data.end());
            c.op("for_each_n", n, K);
            auto go = [&](auto cnt) {
                return with([&](auto... is) { return stdx::for_each_n(b, cnt, rec, is...); });
            };
            auto r = n < 128 and c.coin() ? go(static_cast<signed char>(n))
                     : n < 256 and c.coin() ? go(static_cast<unsigned char>(n))
                     : c.coin() ? go(n)
                                : go(static_cast<int>(n));
            verify(c, "for_each_n", n);
            c.eq(get<0>(r).calls, n, "for_each_n-returned-op");
            c.eq(get<1>(r).p, static_cast<std::ptrdiff_t>(n), "for_each_n-returned-iterator");
            positions<2>(c, "for_each_n", r, n);
            break;
        }
        case 2: {
            set(c, n, n);
            c.op("transform", n, K);
            Out o;
            o.limit = n;
            auto r = with([&](auto... is) { return stdx::transform(b, e(), OutIt{&o, 0}, rec, is...); });
            out(c, "transform", o, tag, n);
            verify(c, "transform", n);
            c.eq(get<0>(r).p, n, "transform-returned-output");
            c.eq(get<1>(r).p, static_cast<std::ptrdiff_t>(n), "transform-returned-iterator");
            positions<2>(c, "transform", r, n);
            break;
        }
        case 3: {
            set(c, n, n);
            auto more = make(c, c.below(3));
            first.data.insert(first.data.end(), more.data.begin(), more.data.end());
            c.op("transform_n", n, K);
            Out o;
            o.limit = n;
            auto go = [&](auto cnt) {
                return with([&](auto... is) { return stdx::transform_n(b, cnt, OutIt{&o, 0}, rec, is...); });
            };
            auto r = n < 128 and c.coin() ? go(static_cast<signed char>(n))
                     : n < 256 and c.coin() ? go(static_cast<unsigned char>(n))
                     : c.coin() ? go(n)
                                : go(static_cast<long long>(n));
            out(c, "transform_n", o, tag, n);
            verify(c, "transform_n", n);
            c.eq(get<0>(r).p, n, "transform_n-returned-output");
            c.eq(get<1>(r).p, static_cast<std::ptrdiff_t>(n), "transform_n-returned-iterator");
            positions<2>(c, "transform_n", r, n);
            break;
        }
        case 4: {
            auto const fold = [](std::string s, int v) { return s + "," + std::to_string(v); };
            bool const sized = c.coin();
            set(c, n, n);
            if (sized) {
                auto more = make(c, c.below(3));
                first.data.insert(first.data.end(), more.data.begin(), more.data.end());
            }
            c.op(sized ? "transform_reduce_n" : "transform_reduce", n, K);
            auto s = with([&](auto... is) {
                return sized ? stdx::transform_reduce_n<std::string>(b, n, "init", fold, rec, is...)
                             : stdx::transform_reduce<std::string>(b, e(), "init", fold, rec, is...);
            });
            std::string x = "init";
            for (auto const &row : want) {
                x = fold(x, value_of(tag, row));
            }
            c.eq(s, x, "transform_reduce-value");
            verify(c, "transform_reduce", n);
            break;
        }
        case 5: { // move-only accumulator, accumulator type unlike the values
            set(c, n, n);
            c.op("transform_reduce-move", n, K);
            auto up = with([&](auto... is) {
                return stdx::transform_reduce(
                    b, e(), std::make_unique<long>(7),
                    [](std::unique_ptr<long> a, int v) {
                        *a = (*a * 33 + v) % 1000033;
                        return a;
                    },
                    rec, is...);
            });
            long x = 7;
            for (auto const &row : want) {
                x = (x * 33 + value_of(tag, row)) % 1000033;
            }
            c.check(up != nullptr, "transform_reduce-move", "accumulator lost");
            if (up) {
                c.eq(*up, x, "transform_reduce-move");
            }
            verify(c, "transform_reduce-move", n);
            break;
        }
        case 6: { // the function fails part-way: exactly the earlier calls happened
            set(c, n, n);
            rec.boom = static_cast<int>(c.below(n + 2));
            auto const done = std::min<std::size_t>(n, static_cast<std::size_t>(rec.boom));
            c.op("throwing", n, rec.boom);
            Out o;
            o.limit = n;
            bool threw = false;
            bool const tr = c.coin();
            try {
                with([&](auto... is) {
                    tr ? (void)stdx::transform(b, e(), OutIt{&o, 0}, rec, is...)
                       : (void)stdx::for_each(b, e(), rec, is...);
                });
            } catch (Boom const &) {
                threw = true;
            }
            c.eq(threw, done < n, "throwing-propagates");
            if (tr) {
                want.resize(done);
                out(c, "throwing", o, tag, done);
            }
            verify(c, "throwing", done);
            break;
        }
        default:
            if constexpr (not std::is_same_v<P, In>) {
                butlast(c, n, tag);
            } else {
                c.op("noop");
                set(c, n, n);
                double d = with([&](auto... is) { return stdx::transform_reduce<double>(b, e(), 0, std::plus<>{}, rec, is...); });
                double x = 0;
                for (auto const &row : want) {
                    x += value_of(tag, row);
                }
                c.eq(d, x, "transform_reduce-double");
                verify(c, "transform_reduce-double", n);
            }
        }
    }
    void out(vf::Ctx &c, char const *alg, Out const &o, int tag, std::size_t n) {
        c.eq(o.fault, std::string{}, std::string(alg) + "-output");
        c.eq(o.vals.size(), n, std::string(alg) + "-output-count");
        for (std::size_t i = 0; i < n and i < o.vals.size(); ++i) {
            c.eq(o.vals[i], value_of(tag, want[i]), std::string(alg) + "-output-value");
        }
    }
    template <typename N> void butlastn(vf::Ctx &c, std::size_t n, int tag, N skip) {
        auto const done = static_cast<u64>(skip) >= n ? 0 : n - static_cast<std::size_t>(skip);
        set(c, n, done);
        c.op("for_each_butlastn", n, static_cast<u64>(skip), K);
        auto const b = It<P>{&first, 0};
        auto const e = It<P>{&first, static_cast<std::ptrdiff_t>(n)};
        auto r = with([&](auto... is) { return stdx::for_each_butlastn(b, e, skip, Rec{&log, tag}, is...); });
        verify(c, "for_each_butlastn", done);
        c.eq(get<0>(r).calls, done, "for_each_butlastn-returned-op");
        c.eq(get<1>(r).p, static_cast<std::ptrdiff_t>(done), "for_each_butlastn-returned-iterator");
        positions<2>(c, "for_each_butlastn", r, done);
    }
    void butlast(vf::Ctx &c, std::size_t n, int tag) {
        auto const small = c.below(n + 3);
        switch (c.below(8)) {
        case 0:
        case 1: {
            auto const done = n == 0 ? 0 : n - 1;
            set(c, n, done);
            c.op("for_each_butlast", n, K);
            auto const b = It<P>{&first, 0};
            auto const e = It<P>{&first, static_cast<std::ptrdiff_t>(n)};
            auto r = with([&](auto... is) { return stdx::for_each_butlast(b, e, Rec{&log, tag}, is...); });
            verify(c, "for_each_butlast", done);
            c.eq(get<0>(r).calls, done, "for_each_butlast-returned-op");
            c.eq(get<1>(r).p, static_cast<std::ptrdiff_t>(done), "for_each_butlast-returned-iterator");
            positions<2>(c, "for_each_butlast", r, done);
            break;
        }
        case 2: butlastn(c, n, tag, static_cast<int>(small)); break;
        case 3: butlastn(c, n, tag, small); break;
        case 4: butlastn(c, n, tag, static_cast<unsigned char>(small)); break;
        case 5: butlastn(c, n, tag, static_cast<short>(small)); break;
        case 6:
            switch (c.below(5)) { // counts far beyond the range
            case 0: butlastn(c, n, tag, small + 1000); break;
            case 1: butlastn(c, n, tag, std::numeric_limits<u64>::max() - c.below(5)); break;
            case 2:
                butlastn(c, n, tag, std::numeric_limits<unsigned>::max() - static_cast<unsigned>(c.below(5)));
                break;
            case 3: butlastn(c, n, tag, (u64{1} << (31 + c.below(33))) + small); break;
            default: butlastn(c, n, tag, (std::int64_t{1} << (31 + c.below(32))) + static_cast<std::int64_t>(small));
            }
            break;
        default: imf(c, n);
        }
    }
    void imf(vf::Ctx &c, std::size_t n) {
        first = make(c, n);
        c.op("initial_medial_final", n);
        auto const b = It<P>{&first, 0};
        auto const e = It<P>{&first, static_cast<std::ptrdiff_t>(n)};
        Log li, lm, lf;
        std::string order;
        struct Op {
            Log *l;
            std::string *o;
            char ch;
            u64 calls = 0;
            void operator()(int const &v) {
                ++calls;
                l->push_back(Row{v});
                o->push_back(ch);
            }
        };
        auto r = stdx::initial_medial_final(b, e, Op{&li, &order, 'i'}, Op{&lm, &order, 'm'}, Op{&lf, &order, 'f'});
        std::string want_order;
        Log wi, wm, wf;
        for (std::size_t i = 0; i < n; ++i) {
            auto &l = i == 0 ? wi : i + 1 == n ? wf : wm;
            l.push_back(Row{first.data[i]});
            want_order.push_back(i == 0 ? 'i' : i + 1 == n ? 'f' : 'm');
        }
        c.eq(order, want_order, "initial_medial_final-order");
        c.check(li == wi and lm == wm and lf == wf, "initial_medial_final-calls", "wrong elements");
        c.eq(get<0>(r).calls, wi.size(), "initial_medial_final-returned-iop");
        c.eq(get<1>(r).calls, wm.size(), "initial_medial_final-returned-mop");
        c.eq(get<2>(r).calls, wf.size(), "initial_medial_final-returned-fop");
        c.check(get<0>(r).ch == 'i' and get<1>(r).ch == 'm' and get<2>(r).ch == 'f',
                "initial_medial_final-returned", "functions returned in the wrong places");
        c.eq(first.fault, std::string{}, "initial_medial_final-touched-outside");
        c.state(log_hash(lm));
    }
};
#define COMBO(NAME, ...)                                                       \
    VF_SUITE(NAME, 3) {                                                        \
        Runner<__VA_ARGS__> r;                                                 \
        r.run(c);                                                              \
    }
COMBO(input, In)
COMBO(forward, Fw)
COMBO(bidirectional, Bi)
COMBO(random, Ra)
COMBO(input_forward, In, Fw)
COMBO(forward_input, Fw, In)
COMBO(random_forward, Ra, Fw)
COMBO(random_random, Ra, Ra)
COMBO(forward_random_input, Fw, Ra, In)
COMBO(random_bidi_input, Ra, Bi, In)
COMBO(random_4, Ra, Fw, Ra, In)
COMBO(bidi_5, Bi, Ra, Fw, Ra, In)

// Library iterators, members as functions, in-place output.
struct Pt {
    int x, y;
    int sum(int k) const { return x + y + k; }
    void add(int k) { x += k; }
};
// An input that never ends, so that counts can be larger than any container.
struct Endless {
    using iterator_category = std::forward_iterator_tag;
    using value_type = int;
    using difference_type = std::ptrdiff_t;
    using pointer = int const *;
    using reference = int;
    int at{};
    int operator*() const { return at; }
    Endless &operator++() {
        ++at;
        return *this;
    }
    Endless operator++(int) { return {at++}; }
    friend bool operator==(Endless const &, Endless const &) = default;
};
struct Sink {
    struct Ref {
        std::vector<int> *to;
        void operator=(int v) const { to->push_back(v); }
    };
    std::vector<int> *to;
    Ref operator*() const { return {to}; }
    Sink &operator++() { return *this; }
};
struct Stop {};
template <typename N> void huge_counts(vf::Ctx &c, N n) {
    auto const limit = static_cast<int>(c.below(9));
    auto const which = c.below(3);
    c.op("huge", which, limit, n);
    std::vector<int> seen, out;
    auto const f = [&](int a, auto... bs) {
        if (static_cast<int>(seen.size()) == limit) {
            throw Stop{};
        }
        seen.push_back(a);
        return (a + ... + bs);
    };
    auto const with = [&](auto... es) {
        switch (which) {
        case 0: stdx::for_each_n(Endless{}, n, f, es...); break;
        case 1: stdx::transform_n(Endless{}, n, Sink{&out}, f, es...); break;
        default:
            (void)stdx::transform_reduce_n(
                Endless{}, n, 0,
                [&](int a, int b) {
                    out.push_back(b);
                    return a + b;
                },
                f, es...);
        }
    };
    bool stopped = false;
    auto const k = c.below(3);
    try {
        k == 0 ? with() : k == 1 ? with(Endless{10}) : with(Endless{10}, Endless{20});
    } catch (Stop const &) {
        stopped = true;
    }
    c.check(stopped, "huge-count", "fewer calls than asked for");
    c.eq(static_cast<int>(seen.size()), limit, "huge-count-calls");
    for (int i = 0; i < static_cast<int>(seen.size()); ++i) {
        c.eq(seen[static_cast<std::size_t>(i)], i, "huge-count-argument");
    }
    if (which != 0) {
        c.eq(out.size(), seen.size(), "huge-count-results");
        for (int i = 0; i < static_cast<int>(out.size()); ++i) {
            c.eq(out[static_cast<std::size_t>(i)], k == 0 ? i : k == 1 ? 2 * i + 10 : 3 * i + 30, "huge-count-result");
        }
    }
}
VF_SUITE(library, 6) {
    auto const n = len(c);
    std::vector<int> v;
    for (std::size_t i = 0; i < n; ++i) {
        v.push_back(static_cast<int>(c.below(1000)));
    }
    switch (c.below(10)) {
    case 0: { // output over the input
        c.op("in-place", n);
        auto w = v;
        auto r = stdx::transform(w.begin(), w.end(), w.begin(), [](int a, int b) { return a * 3 + b; }, v.begin());
        c.check(get<0>(r) == w.end() and get<1>(r) == w.end() and get<2>(r) == v.end(), "in-place-iterators", "");
        for (std::size_t i = 0; i < n; ++i) {
            c.eq(w[i], v[i] * 4, "in-place");
        }
        break;
    }
    case 1: { // member function and member object
        c.op("members", n);
        std::vector<Pt> ps;
        for (auto x : v) {
            ps.push_back({x, x + 1});
        }
        std::vector<int> o(n, -1), o2(n, -1);
        stdx::transform(ps.begin(), ps.end(), o.begin(), &Pt::sum, v.begin());
        stdx::transform_n(ps.begin(), n, o2.begin(), &Pt::y);
        for (std::size_t i = 0; i < n; ++i) {
            c.eq(o[i], 3 * v[i] + 1, "member-function");
            c.eq(o2[i], v[i] + 1, "member-object");
        }
        stdx::for_each(ps.begin(), ps.end(), &Pt::add, v.begin());
        stdx::for_each_n(ps.begin(), n, &Pt::add, v.begin());
        if (n > 0) {
            stdx::for_each_butlast(ps.begin(), ps.end(), &Pt::add, v.begin());
        }
        for (std::size_t i = 0; i < n; ++i) {
            c.eq(ps[i].x, v[i] * (i + 1 == n ? 3 : 4), "member-for_each");
        }
        auto s = stdx::transform_reduce(ps.begin(), ps.end(), 0L, std::plus<>{}, &Pt::y);
        long x = 0;
        for (auto i : v) {
            x += i + 1;
        }
        c.eq(s, x, "member-reduce");
        break;
    }
    case 2: { // streams: single pass, back inserter
        c.op("streams", n);
        std::stringstream ss;
        for (auto i : v) {
            ss << i << ' ';
        }
        std::vector<int> o;
        stdx::transform(std::istream_iterator<int>{ss}, std::istream_iterator<int>{}, std::back_inserter(o),
                        [](int a, auto b) { return a - static_cast<int>(b); }, stdx::counting_iterator{std::size_t{}});
        c.eq(o.size(), n, "streams-count");
        for (std::size_t i = 0; i < n and i < o.size(); ++i) {
            c.eq(o[i], v[i] - static_cast<int>(i), "streams");
        }
        break;
    }
    case 3: { // list containers
        c.op("lists", n);
        std::list<int> l(v.begin(), v.end());
        std::forward_list<int> f(v.begin(), v.end());
        std::deque<int> d(v.begin(), v.end());
        auto const k = static_cast<int>(c.below(n + 2));
        std::vector<int> seen;
        auto op = [&](int a, int b, int e) {
            c.check(a == b and b == e, "lists-zip", "ranges out of step");
            seen.push_back(a);
        };
        switch (c.below(3)) {
        case 0: stdx::for_each_butlastn(l.begin(), l.end(), k, op, f.begin(), d.begin()); break;
        case 1: stdx::for_each_butlastn(f.begin(), f.end(), k, op, l.begin(), d.begin()); break;
        default: stdx::for_each_butlastn(d.begin(), d.end(), k, op, l.begin(), f.begin()); break;
        }
        auto want = v;
        want.resize(n > static_cast<std::size_t>(k) ? n - static_cast<std::size_t>(k) : 0);
        c.check(seen == want, "lists-butlastn", vf::str(seen.size()) + " of " + vf::str(n));
        break;
    }
    case 4: { // pointers into exactly sized storage
        c.op("pointers", n);
        auto a = std::make_unique<int[]>(n);
        auto o = std::make_unique<int[]>(n);
        std::copy(v.begin(), v.end(), a.get());
        auto r = stdx::transform_n(a.get(), n, o.get(), [](int p, int q) { return p + q; }, v.begin());
        c.check(get<0>(r) == o.get() + n and get<1>(r) == a.get() + n and get<2>(r) == v.end(), "pointers-iterators", "");
        for (std::size_t i = 0; i < n; ++i) {
            c.eq(o[i], 2 * v[i], "pointers");
        }
        break;
    }
    case 5: { // elements are passed by reference: writes reach them
        c.op("references", n);
        auto w = v;
        auto x = v;
        auto s = stdx::for_each(w.begin(), w.end(), [](int &a, int &b) { std::swap(++a, b); }, x.begin());
        c.check(get<1>(s) == x.end(), "references-iterator", "");
        for (std::size_t i = 0; i < n; ++i) {
            c.check(w[i] == v[i] and x[i] == v[i] + 1, "references", "write did not reach the element");
        }
        auto y = v;
        stdx::initial_medial_final(
            y.begin(), y.end(), [](int &a) { a = -1; }, [](int &a) { a = -2; }, [](int &a) { a = -3; });
        for (std::size_t i = 0; i < n; ++i) {
            c.eq(y[i], i == 0 ? -1 : i + 1 == n ? -3 : -2, "references-imf");
        }
        break;
    }
    case 6: { // function passed by reference wrapper keeps its state outside
        c.op("ref", n);
        Log log;
        Rec rec{&log, 1};
        auto r = stdx::for_each(v.begin(), v.end(), std::ref(rec));
        c.check(&get<0>(r).get() == &rec, "ref-returned", "");
        c.eq(rec.calls, n, "ref-calls");
        break;
    }
    case 7: { // string building is order sensitive
        c.op("fold", n);
        auto s = stdx::transform_reduce_n(
            v.begin(), static_cast<unsigned char>(std::min<std::size_t>(n, 255)), std::string{"<"},
            [](std::string &&a, std::string const &b) { return "(" + a + b + ")"; },
            [](int i) { return std::to_string(i); });
        std::string x = "<";
        for (std::size_t i = 0; i < std::min<std::size_t>(n, 255); ++i) {
            x = "(" + x + std::to_string(v[i]) + ")";
        }
        c.eq(s, x, "fold");
        // what the transforming function returns reaches the reducing one in its own category
        auto const own = [](std::unique_ptr<long> a, std::unique_ptr<long> b) {
            *a = (*a * 31 + *b) % 1000003;
            return a;
        };
        auto const mk = [](int i) { return std::make_unique<long>(i); };
        auto p = c.coin() ? stdx::transform_reduce(v.begin(), v.end(), std::make_unique<long>(5), own, mk)
                          : stdx::transform_reduce_n(v.begin(), n, std::make_unique<long>(5), own, mk);
        long y = 5;
        for (auto i : v) {
            y = (y * 31 + i) % 1000003;
        }
        c.check(p and *p == y, "fold-own", "");
        std::vector<int const *> seen;
        auto const refs = [&](int a, int const &b) {
            seen.push_back(&b);
            return a + 1;
        };
        auto cnt = stdx::transform_reduce(v.begin(), v.end(), 0, refs, [](int &i) -> int & { return i; });
        c.eq(static_cast<std::size_t>(cnt), n, "fold-references");
        for (std::size_t i = 0; i < n; ++i) {
            c.check(seen[i] == &v[i], "fold-references", "a copy was passed");
        }
        break;
    }
    case 8: { // counts that do not fit narrower types
        auto const big = (std::uint64_t{c.below(1000)} + 1) << (32 + c.below(20));
        switch (c.below(4)) {
        case 0: huge_counts(c, big); break;
        case 1: huge_counts(c, static_cast<std::int64_t>(big)); break;
        case 2: huge_counts(c, std::uint64_t{0} - 1 - c.below(3)); break;
        default: huge_counts(c, static_cast<std::uint32_t>(0x80000000u + c.below(1000))); break;
        }
        break;
    }
    default: { // move-only function objects' state: tracked elements
        c.op("tracked", n);
        vf::life.reset();
        {
            std::vector<vf::Tracked> t;
            for (auto i : v) {
                t.emplace_back(i);
            }
            auto copies = vf::life.copies;
            std::vector<vf::Tracked> o(n);
            stdx::transform(t.begin(), t.end(), o.begin(),
                            [](vf::Tracked const &a, vf::Tracked const &b) { return vf::Tracked{a.get() + b.get()}; },
                            t.begin());
            c.eq(vf::life.copies, copies, "tracked-copies");
            for (std::size_t i = 0; i < n; ++i) {
                c.eq(o[i].get(), 2 * v[i], "tracked-value");
            }
        }
        vf::life_check(c, "transform");
        break;
    }
    }
    c.state(vf::mix(n ^ (v.empty() ? 0 : static_cast<u64>(v.back()) << 32)));
}
} // namespace
