// Monitoring kernel shared by every harness: seeded workload generation,
// oracle comparisons, operation traces, event accounting and hang detection.
#pragma once

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <fcntl.h>
#include <functional>
#include <map>
#include <signal.h>
#include <sstream>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <sys/time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vf {
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using i64 = std::int64_t;

inline u64 mix(u64 x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline u64 hash_str(std::string_view s) {
    u64 h = 1469598103934665603ull;
    for (unsigned char c : s) {
        h = (h ^ c) * 1099511628211ull;
    }
    return h;
}

// progress record, readable by the driver whatever kills the process
struct Progress {
    char suite[64];
    u64 case_no;
    u64 serial;
    u64 pad;
};
inline Progress local_progress{};
inline Progress *progress = &local_progress;

struct Failed {};

struct Violation {
    std::string key, msg, suite;
    u64 case_no;
};

struct Global {
    u64 seed{1};
    bool verbose{};
    u64 checks{}, ops{}, cases{}, trivial{};
    std::map<std::string, u64> events;
    std::unordered_set<u64> states, case_hashes;
    std::vector<Violation> violations;
    std::vector<std::string> samples;
    std::string out;
    std::size_t max_violations{4};
};
inline Global g;

template <typename T> inline std::string str(T const &t) {
    if constexpr (std::is_same_v<T, bool>) {
        return t ? "true" : "false";
    } else if constexpr (std::is_enum_v<T>) {
        return str(static_cast<std::underlying_type_t<T>>(t));
    } else if constexpr (std::is_integral_v<T> and sizeof(T) == 16) {
        return "i128";
    } else if constexpr (std::is_integral_v<T>) {
        if constexpr (std::is_signed_v<T>) {
            return std::to_string(static_cast<long long>(t));
        } else {
            return std::to_string(static_cast<unsigned long long>(t));
        }
    } else if constexpr (requires(std::ostream &o) { o << t; }) {
        std::ostringstream o;
        o << t;
        return o.str();
    } else if constexpr (requires { t.begin(); t.end(); }) {
        std::string s = "[";
        for (auto const &e : t) {
            if (s.size() > 1) {
                s += ' ';
            }
            s += str(e);
        }
        return s + "]";
    } else {
        return "<obj>";
    }
}

class Ctx {
    u64 s;

  public:
    std::string suite;
    u64 case_no;
    u64 trace_hash{14695981039346656037ull};
    u64 local_ops{};
    bool sampling{};
    std::string trace;

    Ctx(std::string su, u64 c)
        : s{mix(mix(g.seed) ^ mix(hash_str(su)) ^ (c * 0xd1342543de82ef95ull))},
          suite{std::move(su)}, case_no{c} {}

    u64 next() { return mix(s += 0x632be59bd9b4e019ull); }
    // uniform in [0, n)
    u64 below(u64 n) { return n == 0 ? 0 : next() % n; }
    i64 range(i64 lo, i64 hi) { // inclusive
        return lo + static_cast<i64>(below(static_cast<u64>(hi - lo) + 1));
    }
    bool chance(unsigned percent) { return below(100) < percent; }
    bool coin() { return (next() >> 17) & 1; }
    template <typename V> auto const &pick(V const &v) {
        return v[below(std::size(v))];
    }
    // values biased towards boundaries
    u64 interesting(unsigned bits) {
        u64 m = bits >= 64 ? ~u64{} : ((u64{1} << bits) - 1);
        u64 r{};
        switch (below(9)) {
        case 0: r = 0; break;
        case 1: r = m; break;
        case 2: r = u64{1} << below(bits); break;
        case 3: r = (u64{1} << below(bits)) - 1; break;
        case 4: r = ~(u64{1} << below(bits)); break;
        case 5: r = below(16); break;
        case 6: r = m - below(16); break;
        case 7: r = (u64{1} << (bits - 1)) + below(5) - 2; break;
        default: r = next(); break;
        }
        return r & m;
    }
    template <typename T> T value() {
        return static_cast<T>(interesting(8 * sizeof(T)));
    }

    void note(u64 h) { trace_hash = mix(trace_hash ^ h); }
    // one operation of the workload (name plus arguments)
    template <typename... As> void op(char const *name, As const &...as) {
        ++g.ops;
        ++local_ops;
        note(hash_str(name));
        (note_arg(as), ...);
        if (g.verbose or sampling) {
            std::string line = name;
            line += '(';
            bool first = true;
            ((line += (first ? "" : ", "), first = false, line += str(as)),
             ...);
            line += ")";
            if (g.verbose) {
                std::fprintf(stderr, "  %s\n", line.c_str());
            }
            if (sampling and trace.size() < 1200) {
                trace += (trace.empty() ? "" : "; ") + line;
            }
        }
    }
    template <typename T> void note_arg(T const &t) {
        if constexpr (std::is_integral_v<T>) {
            note(static_cast<u64>(t));
        } else if constexpr (std::is_enum_v<T>) {
            note(static_cast<u64>(t));
        } else if constexpr (std::is_convertible_v<T const &,
                                                   std::string_view>) {
            note(hash_str(std::string_view{t}));
        } else {
            note(hash_str(str(t)));
        }
    }
    void state(u64 h) {
        if (g.states.size() < 400000) {
            g.states.insert(mix(h ^ hash_str(suite)));
        }
        note(h);
    }
    void event(char const *name, u64 n = 1) { g.events[name] += n; }

    [[noreturn]] void fail(std::string const &key, std::string const &msg) {
        g.violations.push_back({key, msg, suite, case_no});
        if (g.verbose) {
            std::fprintf(stderr, "  !! %s: %s\n", key.c_str(), msg.c_str());
        }
        throw Failed{};
    }
    void check(bool ok, char const *key, char const *msg = "") {
        ++g.checks;
        if (not ok) {
            fail(key, msg);
        }
    }
    void check(bool ok, std::string const &key, std::string const &msg = "") {
        ++g.checks;
        if (not ok) {
            fail(key, msg);
        }
    }
    template <typename A, typename B>
    void eq(A const &actual, B const &expected, std::string const &key) {
        eq(actual, expected, key.c_str());
    }
    template <typename A, typename B>
    void eq(A const &actual, B const &expected, char const *key) {
        ++g.checks;
        bool ok;
        if constexpr (std::is_integral_v<A> and std::is_integral_v<B> and
                      not std::is_same_v<A, bool> and
                      not std::is_same_v<B, bool> and sizeof(A) <= 8 and
                      sizeof(B) <= 8) {
            if constexpr (std::is_signed_v<A> == std::is_signed_v<B>) {
                ok = actual == expected;
            } else if constexpr (std::is_signed_v<A>) {
                ok = actual >= 0 and static_cast<u64>(actual) == expected;
            } else {
                ok = expected >= 0 and actual == static_cast<u64>(expected);
            }
        } else {
            ok = static_cast<bool>(actual == expected);
        }
        if (not ok) {
            fail(key, "observed " + str(actual) + ", expected " +
                          str(expected));
        }
    }
};

using CaseFn = void (*)(Ctx &);
struct Suite {
    char const *name;
    unsigned weight; // share of the cases, relative
    CaseFn fn;
    u64 exhaustive; // when non-zero: exactly this many cases, all of them
};
inline std::vector<Suite> &suites() {
    static std::vector<Suite> v;
    return v;
}
struct Reg {
    Reg(char const *n, unsigned w, CaseFn f, u64 ex = 0) {
        suites().push_back({n, w, f, ex});
    }
};

inline u64 wd_last = ~u64{};
inline int wd_same = 0;
inline int wd_limit = 40;
// the signal may arrive on any thread, so these are atomic accesses
inline void on_prof(int) {
    u64 cur = __atomic_load_n(&progress->serial, __ATOMIC_RELAXED);
    if (cur == __atomic_load_n(&wd_last, __ATOMIC_RELAXED)) {
        if (__atomic_add_fetch(&wd_same, 1, __ATOMIC_RELAXED) >= wd_limit) {
            char const m[] = "\nVF-HANG\n";
            (void)!::write(2, m, sizeof m - 1);
            ::_exit(97);
        }
    } else {
        __atomic_store_n(&wd_last, cur, __ATOMIC_RELAXED);
        __atomic_store_n(&wd_same, 0, __ATOMIC_RELAXED);
    }
}
inline void keep_alive() {
    __atomic_fetch_add(&progress->serial, 1, __ATOMIC_RELAXED);
}

inline void json_escape(std::string &o, std::string_view s) {
    o += '"';
    for (unsigned char c : s) {
        if (c == '"' or c == '\\') {
            o += '\\';
            o += static_cast<char>(c);
        } else if (c < 32 or c > 126) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else {
            o += static_cast<char>(c);
        }
    }
    o += '"';
}

inline void write_set(std::string const &path,
                      std::unordered_set<u64> const &s) {
    if (FILE *f = std::fopen(path.c_str(), "wb")) {
        std::vector<u64> v(s.begin(), s.end());
        if (not v.empty()) {
            std::fwrite(v.data(), 8, v.size(), f);
        }
        std::fclose(f);
    }
}

inline void write_out() {
    std::string o = "{\"cases\":" + std::to_string(g.cases) +
                    ",\"trivial\":" + std::to_string(g.trivial) +
                    ",\"checks\":" + std::to_string(g.checks) +
                    ",\"ops\":" + std::to_string(g.ops) + ",\"events\":{";
    bool first = true;
    for (auto const &[k, v] : g.events) {
        o += first ? "" : ",";
        first = false;
        json_escape(o, k);
        o += ":" + std::to_string(v);
    }
    o += "},\"violations\":[";
    first = true;
    for (auto const &v : g.violations) {
        o += first ? "" : ",";
        first = false;
        o += "{\"key\":";
        json_escape(o, v.key);
        o += ",\"msg\":";
        json_escape(o, v.msg);
        o += ",\"suite\":";
        json_escape(o, v.suite);
        o += ",\"case\":" + std::to_string(v.case_no) + "}";
    }
    o += "],\"samples\":[";
    first = true;
    for (auto const &s : g.samples) {
        o += first ? "" : ",";
        first = false;
        json_escape(o, s);
    }
    o += "]}\n";
    if (not g.out.empty()) {
        if (FILE *f = std::fopen(g.out.c_str(), "wb")) {
            std::fwrite(o.data(), 1, o.size(), f);
            std::fclose(f);
        }
        write_set(g.out + ".cases", g.case_hashes);
        write_set(g.out + ".states", g.states);
    } else {
        std::fwrite(o.data(), 1, o.size(), stdout);
    }
}

inline void run_case(Suite const &s, u64 n, bool sampling) {
    std::strncpy(progress->suite, s.name, sizeof(progress->suite) - 1);
    progress->case_no = n;
    keep_alive();
    Ctx c{s.name, n};
    c.sampling = sampling;
    u64 const before = g.checks;
    if (g.verbose) {
        std::fprintf(stderr, "suite %s case %llu seed %llu\n", s.name,
                     static_cast<unsigned long long>(n),
                     static_cast<unsigned long long>(g.seed));
    }
    try {
        s.fn(c);
    } catch (Failed const &) {
    } catch (std::exception const &e) {
        g.violations.push_back({"unexpected-exception",
                                std::string("exception escaped: ") + e.what(),
                                s.name, n});
    } catch (...) {
        g.violations.push_back({"unexpected-exception",
                                "exception of unknown type escaped", s.name,
                                n});
    }
    ++g.cases;
    if (g.checks > before and c.local_ops > 0) {
        if (g.case_hashes.size() < 2000000) {
            g.case_hashes.insert(mix(c.trace_hash ^ hash_str(s.name)));
        }
    } else {
        ++g.trivial;
    }
    if (sampling and not c.trace.empty()) {
        g.samples.push_back(std::string(s.name) + "#" + std::to_string(n) +
                            ": " + c.trace);
    }
}

inline int main_impl(int argc, char **argv) {
    u64 cases = 100, shard = 0, shards = 1;
    std::string only;
    long long only_case = -1;
    std::string prog;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return std::string(argv[++i]); };
        if (a == "--seed") {
            g.seed = std::stoull(val());
        } else if (a == "--cases") {
            cases = std::stoull(val());
        } else if (a == "--shard") {
            shard = std::stoull(val());
        } else if (a == "--shards") {
            shards = std::stoull(val());
        } else if (a == "--suite") {
            only = val();
        } else if (a == "--case") {
            only_case = std::stoll(val());
        } else if (a == "--out") {
            g.out = val();
        } else if (a == "--progress") {
            prog = val();
        } else if (a == "--verbose") {
            g.verbose = true;
        } else if (a == "--list") {
            for (auto const &s : suites()) {
                std::printf("%s %u\n", s.name, s.weight);
            }
            return 0;
        }
    }
    if (not prog.empty()) {
        int fd = ::open(prog.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0 and ::ftruncate(fd, sizeof(Progress)) == 0) {
            void *p = ::mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE,
                             MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) {
                progress = static_cast<Progress *>(p);
            }
        }
    }
    struct sigaction sa {};
    sa.sa_handler = on_prof;
    sa.sa_flags = SA_RESTART;
    ::sigaction(SIGPROF, &sa, nullptr);
    itimerval tv{{1, 0}, {1, 0}};
    ::setitimer(ITIMER_PROF, &tv, nullptr);

    u64 total = 0;
    for (auto const &s : suites()) {
        if (s.exhaustive == 0) {
            total += s.weight;
        }
    }
    for (auto const &s : suites()) {
        if (not only.empty() and only != s.name) {
            continue;
        }
        if (only_case >= 0) {
            run_case(s, static_cast<u64>(only_case), false);
            continue;
        }
        u64 n = s.exhaustive != 0 ? s.exhaustive
                                  : (cases * s.weight + total - 1) / total;
        std::size_t in_suite = 0;
        for (u64 i = shard; i < n; i += shards) {
            std::size_t const before = g.violations.size();
            run_case(s, i, shard == 0 and i / shards < 1);
            if (g.violations.size() > before and
                ++in_suite >= g.max_violations) {
                break;
            }
        }
    }
    write_out();
    return g.violations.empty() ? 0 : 3;
}
} // namespace vf

#define VF_SUITE(NAME, WEIGHT)                                                 \
    static void vf_case_##NAME(vf::Ctx &);                                     \
    static vf::Reg vf_reg_##NAME{#NAME, WEIGHT, vf_case_##NAME};               \
    static void vf_case_##NAME([[maybe_unused]] vf::Ctx &c)

#define VF_EXHAUSTIVE(NAME, CASES)                                             \
    static void vf_case_##NAME(vf::Ctx &);                                     \
    static vf::Reg vf_reg_##NAME{#NAME, 1, vf_case_##NAME, CASES};             \
    static void vf_case_##NAME([[maybe_unused]] vf::Ctx &c)

#ifndef VF_NO_MAIN
int main(int argc, char **argv) { return vf::main_impl(argc, argv); }
#endif
