"""Programs written from a seed: includes, declarations and cases with the expected values embedded."""
import random


class Prog:
    def __init__(self, *includes):
        self.includes = list(includes)
        self.decls = []
        self.cases = []
        self.life = False

    def decl(self, text):
        self.decls.append(text)

    def case(self, body, prefix="g"):
        """One case; body sees `c`, the vf::Ctx."""
        if self.life:
            head, rest = body.split("\n", 1)
            body = head + "\nc15::lives(c, [&] {\n" + rest.rstrip("\n") + "\n});"
        self.cases.append((f"{prefix}{len(self.cases):03d}", body))

    def text(self):
        o = [f'#include {i if i[0] in "<" else chr(34) + i + chr(34)}' for i in self.includes]
        o += ["namespace {", *self.decls]
        for n, b in self.cases:
            o += [f"VF_EXHAUSTIVE({n}, 1) {{", b.rstrip("\n"), "}"]
        o += ["} // namespace"]
        return "\n".join(o) + "\n"


def cstr(s):
    """A C++ string literal (no escapes that could swallow the next character)."""
    o = ""
    for ch in s:
        if ch in '"\\':
            o += "\\" + ch
        elif 32 <= ord(ch) < 127:
            o += ch
        else:
            o += "\\%03o" % ord(ch)
    return '"' + o.replace("??", '?""?') + '"'


# ---- C18: literals --------------------------------------------------------------------------------------------------

def _digits(r, v):
    """v in a random base with random digit separators."""
    base = r.choice(["d", "d", "x", "X", "b", "B", "o"])
    if base == "d":
        pre, s = "", str(v)
    elif base in "xX":
        pre, s = "0" + base, "%x" % v
        s = "".join(ch.upper() if r.random() < .5 else ch for ch in s)
    elif base in "bB":
        pre, s = "0" + base, bin(v)[2:]
    else:
        pre, s = "0", oct(v)[2:]
    if base != "d" and r.random() < .3:
        s = "0" * r.randrange(1, 4) + s
    if r.random() < .6:
        t = s[0]
        for ch in s[1:]:
            t += ("'" if r.random() < .35 else "") + ch
        s = t
    if base == "o" and r.random() < .3:
        s = "'" + s
    return pre + s


def _val(r, bits):
    k = r.randrange(6)
    if k == 0:
        return r.randrange(20)
    if k == 1:
        return (1 << r.randrange(bits)) - r.randrange(2)
    if k == 2:
        return (1 << bits) - 1 - r.randrange(3)
    if k == 3:
        return r.randrange(1 << r.randrange(1, bits + 1))
    return r.randrange(1 << bits)


def literals(seed, k, n):
    r = random.Random(f"c18 {seed} {k}")
    p = Prog("<stdx/tuple.hpp>", "<stdx/udls.hpp>", "<stdx/utility.hpp>", "vf.hpp", "<type_traits>")
    p.decl("using namespace stdx::literals;")
    for _ in range(n):
        b = ""
        for _ in range(6):
            kind = r.choice(["_c", "_idx", "_z", "_z", "unit", "_lsb", "_msb", "_len", "true", "small"])
            if kind == "_c":
                v = _val(r, 32)
                t = _digits(r, v) + "_c"
                b += f'c.op("{t}"); c.eq(decltype({t})::value, {v}ull, "_c");\n'
                b += f"static_assert(std::is_same_v<decltype({t}), std::integral_constant<std::uint32_t, {v}u>>);\n"
            elif kind == "_idx":
                v = _val(r, 64)
                t = _digits(r, v) + "_idx"
                b += f'c.op("{t}"); c.eq(decltype({t})::value, {v}ull, "_idx");\n'
            elif kind == "_z":
                w, u = r.choice([8, 16, 32, 64]), r.choice([8, 16, 32, 64])
                v = _val(r, 60)
                t = _digits(r, v) + f"_z{w}"
                x = (v * (w // 8) + u // 8 - 1) // (u // 8)
                b += f'c.op("{t}"); c.eq(({t}).in<std::uint{u}_t>, {x}ull, "_z");\n'
                b += f'c.eq({t}->z{u}, {x}ull, "_z-arrow"); c.eq(({t}).in<>, {v * (w // 8)}ull, "_z-default");\n'
            elif kind == "unit":
                s, m = r.choice([("k", 10**3), ("M", 10**6), ("G", 10**9), ("ki", 1 << 10), ("Mi", 1 << 20),
                                 ("Gi", 1 << 30)])
                lim = ((1 << 64) - 1) // m
                v = r.choice([lim, lim - 1, r.randrange(lim + 1), min(lim, r.randrange(1000)), 0, 1])
                t = _digits(r, v) + "_" + s
                b += f'c.op("{t}"); c.eq({t}, {v * m}ull, "unit");\n'
            elif kind in ("_lsb", "_msb", "_len"):
                v = _val(r, 32)
                t = _digits(r, v) + kind
                b += f'c.op("{t}"); c.eq(stdx::to_underlying({t}), {v}ull, "{kind}");\n'
                e = {"_lsb": "lsb_t", "_msb": "msb_t", "_len": "length_t"}[kind]
                b += f"static_assert(std::is_same_v<decltype({t}), stdx::{e}>);\n"
            elif kind == "true":
                s = "".join(r.choice("abc XYZ_-=") for _ in range(r.randrange(8)))
                for suf, x in (("_b", 1), ("_true", 1), ("_false", 0)):
                    b += f'c.op("{suf}"); c.check("{s}"{suf} == bool({x}), "truth-literal");\n'
            else:
                v = r.randrange(10)
                s = "".join(r.choice("abc XYZ") for _ in range(r.randrange(8)))
                b += f'c.op("small {v}"); c.eq(decltype("{s}"_{v})::value, {v}u, "small-literal");\n'
        p.case(b)
    return p.text()


# ---- C15: tuple algorithms --------------------------------------------------------------------------------------------

C15_COPY = ["Ta", "Ta", "Tb", "Tc", "Td", "int", "char", "std::string", "Ea", "Eb"]
C15_MOVE = ["Ma", "Mb"]
C15_PRED = {
    "is_copyable": lambda e: e.t not in C15_MOVE,
    "is_emp": lambda e: e.t in ("Ea", "Eb"),
    "is_ref": lambda e: e.ref != "",
    "is_a": lambda e: e.t in ("Ta", "Ea", "int", "std::string"),
    "always": lambda e: True,
    "never": lambda e: False,
}
C15_PROJ = {
    "std::type_identity_t": lambda e: e.sortname(),
    "c15::size_class": lambda e: "K2" if e.t in ("Ea", "Eb") else "K0" if C15_PRED["is_a"](e) else "K1",
    "c15::d": lambda e: e.t,
}


class _El:
    """One tuple element: its type, reference kind, value as the printer shows it, and the variable it refers to."""

    def __init__(self, t, ref, val, var):
        self.t, self.ref, self.val, self.var = t, ref, val, var

    def type(self):
        return self.t + {"": "", "&": " &", "c&": " const &"}[self.ref]

    def sortname(self):
        return {"": self.t, "&": self.t + "&", "c&": "const " + self.t + "&"}[self.ref]

    def init(self):
        return self.var if self.ref else self.make()

    def make(self):
        if self.t in ("Ea", "Eb"):
            return self.t + "{}"
        if self.t == "std::string":
            return f'std::string("{self.val}")'
        if self.t == "char":
            return f"static_cast<char>({self.val})"
        if self.t == "int":
            return self.val
        if self.t.startswith("Ent"):
            return f"{self.t}{{{self.val}}}"
        return f"{self.t}({self.val})"

    def show(self):
        if self.ref:
            return {"&": self.t, "c&": "c " + self.t}[self.ref] + f"&:{self.val}@{self.var}"
        return f"{self.t}:{self.val}"

    def cat(self, mode):
        """how get() delivers it: mode is l(value), c(onst), r(value)"""
        return self.ref or {"l": "&", "c": "c&", "r": "&&"}[mode]

    def asref(self, mode, var):
        return _El(self.t, self.cat(mode), self.val, self.var if self.ref else var)

    def decayed(self):
        return _El(self.t, "", self.val, "")


class _Tup:
    def __init__(self, kind, els, name):
        self.kind, self.els, self.name = kind, els, name

    def type(self):
        ts = ", ".join(e.type() for e in self.els)
        if self.kind == "a":
            return f"std::array<{self.els[0].t}, {len(self.els)}>"
        return {"t": "stdx::tuple", "s": "std::tuple", "p": "std::pair"}[self.kind] + f"<{ts}>"

    def decl(self):
        o = "".join(f"{e.t} {'const ' if e.ref == 'c&' else ''}{e.var}{{{e.make()}}}; c15::name({e.var}, \"{e.var}\");\n"
                    for e in self.els if e.ref)
        init = ", ".join(e.init() for e in self.els)
        if self.kind == "i":
            return o + f"auto {self.name} = stdx::make_indexed_tuple<key_for>({init});\n"
        if self.kind == "a":
            return o + f"{self.type()} {self.name}{{{{{init}}}}};\n"
        return o + f"{self.type()} {self.name}{{{init}}};\n"

    def use(self, mode):
        return {"l": self.name, "c": f"std::as_const({self.name})", "r": f"std::move({self.name})"}[mode]

    def copyable(self):
        return all(e.ref or e.t not in C15_MOVE for e in self.els)


def _show(kind, els):
    return f"{kind}(" + " ".join(e if isinstance(e, str) else e.show() for e in els) + ")"


def _rec(els, modes):
    return "(" + "".join(f"{e.t}{e.cat(m)}:{e.val} " for e, m in zip(els, modes)) + ")"


def _vec(groups):
    return "{" + ", ".join("{" + ", ".join(cstr(x) for x in g) + "}" for g in groups) + "}"


class _C15:
    def __init__(self, r, p):
        self.r, self.p, self.n = r, p, 0

    def el(self, move=True, refs=True, pool=None):
        r = self.r
        self.n += 1
        t = r.choice(pool or (C15_COPY + (C15_MOVE if move else [])))
        val = {"Ea": "", "Eb": "", "std::string": f"string number {self.n}, on the heap", "char": str(self.n % 100)}.get(
            t, str(self.n % 100 if t == "int" else self.n))
        ref = r.choice(["", "", "", "&", "c&"]) if refs else ""
        return _El(t, ref, val, f"v{self.n}")

    def tup(self, kind="t", n=None, move=True, refs=True):
        r = self.r
        if n is None:
            n = r.randrange(10, 20) if r.random() < .04 else r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 7])
        self.n += 1
        pool = None
        if r.random() < .5:
            pool = r.sample(C15_COPY + (C15_MOVE if move else []), r.randrange(1, 4))
        if kind == "p":
            n = 2
        if kind == "a":
            n = max(n, 1)
            t = r.choice(pool or C15_COPY)
            els = [self.el(pool=[t], refs=False) for _ in range(n)]
        elif kind == "i":
            els = []
            for k in range(min(n, 4)):
                self.n += 1
                els.append(_El(f"Ent<K{k}>", "", str(self.n), ""))
        else:
            els = [self.el(move, refs, pool) for _ in range(n)]
        return _Tup(kind, els, f"t{self.n}")

    def copymode(self, t):
        """a passing mode for algorithms that copy elements out of lvalues"""
        return self.r.choice("lcr" if t.copyable() else "r")

    def intact(self, t, mode, b):
        if mode != "r":
            b.append(f'c15::is(c, {t.name}, {cstr(_show(t.kind, t.els))}, "source-changed");')

    # each returns nothing, appends to b
    def cat(self, b):
        ts = [self.tup(self.r.choice("tttti"), n=self.r.choice([0, 1, 1, 2, 3])) for _ in range(self.r.choice([0, 1, 2, 2, 3, 4, 4, 9]))]
        ms = [self.copymode(t) for t in ts]
        b += [t.decl() for t in ts]
        b.append(f"auto r = stdx::tuple_cat({', '.join(t.use(m) for t, m in zip(ts, ms))});")
        kind = ts[0].kind if len(ts) == 1 else "t"
        b.append(f'c15::is(c, r, {cstr(_show(kind, [e for t in ts for e in t.els]))}, "tuple_cat");')
        for t, m in zip(ts, ms):
            self.intact(t, m, b)

    def cons(self, b):
        r = self.r
        t, x = self.tup(r.choice("tts")), self.el(refs=False, pool=C15_MOVE if r.random() < .3 else None)
        m, xm = self.copymode(t), r.choice("lcr" if x.t not in C15_MOVE else "r")
        b += [t.decl(), f"{x.t} x{{{x.make()}}};"]
        xu = {"l": "x", "c": "std::as_const(x)", "r": "std::move(x)"}[xm]
        front = r.random() < .5
        fn = r.choice(["tuple_cons", "tuple_push_front"] if front else ["tuple_snoc", "tuple_push_back"])
        args = [xu, t.use(m)] if front else [t.use(m), xu]
        els = [x] + t.els if front else t.els + [x]
        b.append(f"auto r = stdx::{fn}({', '.join(args)});")
        b.append(f'c15::is(c, r, {cstr(_show(t.kind, els))}, "{fn}");')
        self.intact(t, m, b)
        if xm != "r" and x.t != "Ea" and x.t != "Eb":
            b.append(f'c.eq(c15::value(x), std::string({cstr(x.val)}), "{fn}-argument");')

    def filter(self, b):
        t = self.tup(self.r.choice("ttts"))
        m = self.copymode(t)
        pr = self.r.choice(list(C15_PRED))
        b += [t.decl(), f"auto r = stdx::filter<c15::{pr}>({t.use(m)});"]
        b.append(f'c15::is(c, r, {cstr(_show(t.kind, [e for e in t.els if C15_PRED[pr](e)]))}, "filter");')
        self.intact(t, m, b)

    def zips(self, b, first="ts", other="ttsap", k=None):
        r = self.r
        k = r.choice([1, 1, 2, 2, 3]) if k is None else k
        ts = [self.tup(r.choice(first if i == 0 else other)) for i in range(k)]
        ms = [r.choice("lcr") for _ in ts]
        b += [t.decl() for t in ts]
        n = min(len(t.els) for t in ts)
        return ts, ms, n, ", ".join(t.use(m) for t, m in zip(ts, ms))

    def logs(self, b, want, what):
        b.append(f'c.eq(c15::calls, std::string({cstr(want)}), "{what}-calls");')

    def transform(self, b):
        r = self.r
        kind = r.choice(["val", "val", "ref", "ent"])
        if kind == "ent":
            t = self.tup("i", n=r.randrange(1, 5))
            m = r.choice("lcr")
            more = [self.tup(r.choice("tsa")) for _ in range(r.choice([0, 0, 1]))]
            mm = [r.choice("lcr") for _ in more]
            plain = _Tup("t", t.els, t.name)
            b += [plain.decl()] + [x.decl() for x in more]
            n = min([len(t.els)] + [len(x.els) for x in more])
            us = ", ".join([plain.use(m)] + [x.use(k) for x, k in zip(more, mm)])
            b.append(f"auto r = stdx::transform<key_for>(c15::TransEnt{{}}, {us});")
            els = [_El(e.t, "", str(int(e.val) + 1000), "") for e in t.els[:n]]
            b.append(f'c15::is(c, r, {cstr(_show("i", els))}, "transform-indexed");')
            for i, e in enumerate(els):
                b.append(f'c.eq(get<K{i}>(r).id, {e.val}, "transform-indexed-key");')
            self.logs(b, "".join(_rec([x.els[i] for x in [t] + more], [m] + mm) for i in range(n)), "transform-indexed")
            return
        ts, ms, n, us = self.zips(b)
        if kind == "ref" and ms[0] == "r":
            ms[0] = "l"
            us = ", ".join(t.use(m) for t, m in zip(ts, ms))
        if kind == "ref":
            t = ts[0]
            b += [f'c15::name({"std::" if t.kind == "s" else ""}get<{i}>({t.name}), "{t.name}.{i}");'
                  for i, e in enumerate(t.els) if not e.ref]
            b.append(f"auto r = stdx::transform(c15::TransRef{{}}, {us});")
            els = [e.asref(ms[0], f"{t.name}.{i}") for i, e in enumerate(t.els[:n])]
        else:
            b.append(f"auto r = stdx::transform(c15::Trans{{}}, {us});")
            cats = {"&": "{}&", "c&": "c {}&", "&&": "{}"}
            els = ["W" + cats[e.cat(ms[0])].format(e.t) + ":" + "+".join(t.els[i].val for t in ts)
                   for i, e in enumerate(ts[0].els[:n])]
        b.append(f'c15::is(c, r, {cstr(_show(ts[0].kind, els))}, "transform");')
        self.logs(b, "".join(_rec([t.els[i] for t in ts], ms) for i in range(n)), "transform")
        for t, m in zip(ts, ms):
            self.intact(t, m, b)

    def for_each(self, b):
        r = self.r
        enum, unrolled = r.random() < .5, r.random() < .4
        if unrolled:
            ts, ms, n, us = self.zips(b, first="atsp", other="atp")
        else:
            ts, ms, n, us = self.zips(b, first="tsti", other="tsap")
        fn = ("unrolled_" if unrolled else "") + ("enumerate" if enum else "for_each")
        op = "Enum" if enum else "Op"
        if r.random() < .5:
            b.append(f"auto o = stdx::{fn}(c15::{op}{{}}, {us});")
            b.append(f"static_assert(std::is_same_v<decltype(stdx::{fn}(c15::{op}{{}}, {us})), c15::{op}>);")
        else:
            b.append(f"c15::{op} o{{}}; auto &back = stdx::{fn}(o, {us});")
            b.append(f'c.check(&back == &o, "{fn}-returns-argument", "");')
        b.append(f'c.eq(o.n, {n}, "{fn}-state");')
        self.logs(b, "".join((str(i) if enum else "") + _rec([t.els[i] for t in ts], ms) for i in range(n)), fn)
        for t, m in zip(ts, ms):
            self.intact(t, m, b)

    def quantifier(self, b):
        r = self.r
        unrolled = r.random() < .4
        ts, ms, n, us = self.zips(b, first="atsp" if unrolled else "tsti", other="atp" if unrolled else "tsap")
        fn = r.choice(["all_of", "any_of", "none_of"])
        bias = r.random()
        ans = [int(r.random() < bias) for _ in range(n)]
        stop = 0 if fn == "all_of" else 1
        seen = n
        for i, a in enumerate(ans):
            if a == stop:
                seen = i + 1
                break
        hit = any(a == stop for a in ans)
        res = {"all_of": not hit, "any_of": hit, "none_of": not hit}[fn]
        fn = ("unrolled_" if unrolled else "") + fn
        b.append(f"c15::Pred f{{{{{', '.join(map(str, ans))}}}}};")
        b.append(f'c.check(stdx::{fn}({r.choice(["f", "std::move(f)"])}, {us}) == {str(res).lower()}, "{fn}", "wrong answer");')
        self.logs(b, "".join(_rec([t.els[i] for t in ts], ms) for i in range(seen)), fn)

    def apply(self, b):
        ts, ms, n, us = self.zips(b, first="tsapi", other="tsap", k=self.r.choice([1, 2, 2, 3, 4]))
        tot = sum(len(t.els) for t in ts)
        els = [(e, m) for t, m in zip(ts, ms) for e in t.els]
        want = _rec([e for e, _ in els], [m for _, m in els])
        how = self.r.choice(["", "&", "c&", "&&"])
        if how:
            b.append("c15::Applied f{};")
            f = {"&": "f", "c&": "std::as_const(f)", "&&": "std::move(f)"}[how]
        else:
            f = "[](auto &&...xs) { return c15::applied(std::forward<decltype(xs)>(xs)...); }"
        b.append(f"auto n = stdx::apply({f}, {us});")
        b.append(f'c.eq(n, {tot}, "apply-result");')
        self.logs(b, how + want, "apply")

    def cartesian(self, b):
        r = self.r
        copy = r.random() < .5
        k = r.choice([0, 1, 2, 2, 3])
        ts = [self.tup(r.choice("ttti"), n=r.choice([1, 2, 2, 3, 0]), move=not copy) for _ in range(k)]
        while len(ts) == 3 and len(ts[0].els) * len(ts[1].els) * len(ts[2].els) > 12:
            ts.pop()
        ms = [r.choice("lcr" if copy else "lc") for _ in ts]
        b += [t.decl() for t in ts]
        if not copy:
            b += [f'c15::name(get<{i}>({t.name}), "{t.name}.{i}");' for t in ts for i, e in enumerate(t.els) if not e.ref]
        rows = [[]]
        for t, m in zip(ts, ms):
            els = [e.decayed() if copy else e.asref(m, f"{t.name}.{i}") for i, e in enumerate(t.els)]
            rows = [x + [e] for x in rows for e in els]
        fn = "cartesian_product_copy" if copy else "cartesian_product"
        b.append(f"auto r = stdx::{fn}({', '.join(t.use(m) for t, m in zip(ts, ms))});")
        b.append(f'c15::is(c, r, {cstr(_show("t", [_show("t", x) for x in rows]))}, "{fn}");')
        for t, m in zip(ts, ms):
            self.intact(t, m, b)

    def _groups(self, els, key):
        ks = sorted(set(key(e) for e in els))
        return [[e for e in els if key(e) == k] for k in ks]

    def sort(self, b):
        r = self.r
        t = self.tup(r.choice("tttti"))
        m = self.copymode(t)
        pr = r.choice(list(C15_PROJ)) if t.kind == "t" else "std::type_identity_t"
        how = f"<{pr}>" if pr != "std::type_identity_t" or r.random() < .3 else ""
        b += [t.decl(), f"auto r = stdx::sort{how}({t.use(m)});"]
        g = [[e.show() for e in x] for x in self._groups(t.els, C15_PROJ[pr])]
        b.append(f"c15::grouped(c, c15::list(r), {_vec(g)}, \"sort\"); c.check(c15::kind<decltype(r)> == 't', \"sort-kind\", \"\");")
        self.intact(t, m, b)

    def gather(self, b):
        r = self.r
        t = self.tup("t")
        m = self.copymode(t)
        pr = r.choice(list(C15_PROJ))
        fn = "gather" if pr == "std::type_identity_t" and r.random() < .5 else f"gather_by<{pr}>"
        b += [t.decl(), f"auto r = stdx::{fn}({t.use(m)});"]
        g = [[e.show() for e in x] for x in self._groups(t.els, C15_PROJ[pr])]
        b.append(f'c15::groups(c, r, {_vec(g)}, "gather");')
        self.intact(t, m, b)

    def chunk(self, b):
        r = self.r
        t = self.tup("t")
        m = self.copymode(t)
        pr = r.choice(list(C15_PROJ))
        fn = "chunk" if pr == "std::type_identity_t" and r.random() < .5 else f"chunk_by<{pr}>"
        g = []
        for e in t.els:
            if g and C15_PROJ[pr](g[-1][-1]) == C15_PROJ[pr](e):
                g[-1].append(e)
            else:
                g.append([e])
        b += [t.decl(), f"auto r = stdx::{fn}({t.use(m)});"]
        b.append(f'c15::is(c, r, {cstr(_show("t", [_show("t", x) for x in g]))}, "chunk");')
        self.intact(t, m, b)

    def sets(self, b):
        r = self.r
        t = self.tup("t")
        m = self.copymode(t)
        fn = r.choice(["unique", "to_sorted_set", "to_unsorted_set"])
        b += [t.decl(), f"auto r = stdx::{fn}({t.use(m)});"]
        if fn == "unique":
            els = [e for i, e in enumerate(t.els) if i == 0 or t.els[i - 1].type() != e.type()]
            b.append(f'c15::is(c, r, {cstr(_show("t", els))}, "unique");')
        elif fn == "to_unsorted_set":
            els = [e for i, e in enumerate(t.els) if e.type() not in [x.type() for x in t.els[:i]]]
            b.append(f'c15::is(c, r, {cstr(_show("t", els))}, "to_unsorted_set");')
        else:
            g = [[e.show() for e in x] for x in self._groups(t.els, lambda e: e.sortname())]
            b.append(f'c15::one_of_each(c, r, {_vec(g)}, "to_sorted_set");')
        self.intact(t, m, b)

    def contains(self, b):
        t = self.tup("t")
        b.append(f"using T = {t.type()};")
        have = {e.type() for e in t.els}
        for x in self.r.sample(C15_COPY + C15_MOVE, 5):
            for suf in ("", " &", " const &"):
                b.append(f'c.check(stdx::contains_type<T, {x}{suf}> == {str(x + suf in have).lower()}, "contains_type", '
                         f'"{x}{suf}");')
        ks = self.r.sample(range(4), self.r.randrange(0, 4))
        ref = self.r.choice(["", " &", " const &"])
        b.append("using I = decltype(stdx::apply_indices<key_for>(std::declval<stdx::tuple<"
                 + ", ".join(f"Ent<K{k}>{ref}" for k in ks) + ">>()));")
        for k in range(4):
            b.append(f'c.check(stdx::contains_type<I, K{k}> == {str(k in ks).lower()}, "contains_type-key", "");')
            b.append(f'c.check(stdx::contains_type<I, Ent<K{k}>{ref}> == {str(k in ks).lower()}, "contains_type-indexed", "");')

    def literal(self, b):
        """arguments that decay"""
        b.append('auto r = stdx::tuple_cons("abc", stdx::tuple_snoc(stdx::tuple<int>{4}, "de"));')
        b.append("static_assert(std::is_same_v<decltype(r), stdx::tuple<char const *, int, char const *>>);")
        b.append('c.check(get<0>(r) == std::string("abc") and get<1>(r) == 4 and get<2>(r) == std::string("de"), '
                 '"cons-decays", "");')

    def fixed(self, b):
        """result types that depend on the argument category; products of one tuple that can only be moved"""
        b.append("""using A = c15::Kept<K0, int>; using B = c15::Kept<K1, long>;
stdx::tuple<A, B> t{A{1}, B{2}}; stdx::tuple<int, int, int> z{1, 2, 3};
auto one = [&](auto const &r, auto a, char const *what) {
    c.check(get<K0>(r).v == a and get<K1>(r).v == a, what, "");
    static_assert(std::is_same_v<decltype(get<K0>(r).v), decltype(a)>);
};
one(stdx::transform<key_for>(c15::ByCategory{}, t), 1, "transform-type");
one(stdx::transform<key_for>(c15::ByCategory{}, std::as_const(t)), 'c', "transform-type");
one(stdx::transform<key_for>(c15::ByCategory{}, std::move(t)), std::string("moved"), "transform-type");
one(stdx::transform<key_for>(c15::ByCategory{}, t, z), 1, "transform-type");
one(stdx::transform<key_for>(c15::ByCategory{}, std::as_const(t), z), 'c', "transform-type");
one(stdx::transform<key_for>(c15::ByCategory{}, std::move(t), z), std::string("moved"), "transform-type");
auto p = stdx::cartesian_product_copy(stdx::tuple<Ma, Mb>{Ma{3}, Mb{4}});
c15::is(c, p, "t(t(Ma:3) t(Mb:4))", "cartesian_product_copy");""")


def tuple_algs(seed, k, n, life=False):
    r = random.Random(f"c15 {seed} {k} {life or ''}")
    p = Prog("c15.hpp")
    p.life = life
    g = _C15(r, p)
    ops = ["cat", "cons", "filter", "transform", "for_each", "quantifier", "apply", "cartesian", "sort", "gather", "chunk",
           "sets", "contains"]
    order = [ops[(i + k) % len(ops)] for i in range(n)]
    for what in order + (["literal"] if k == 0 else ["fixed"] if k < 3 else []):
        b = []
        getattr(g, what)(b)
        p.case(f'c.op("{what}", {cstr(" ".join(b)[:400])}); c15::names.clear(); c15::calls.clear();\n' + "\n".join(b))
    return p.text()


# ---- C21: bound calls and batches -----------------------------------------------------------------------------------

def _pass(var, mode):
    return {"l": var, "c": f"std::as_const({var})", "r": f"std::move({var})"}[mode]


def _argtext(t, cat, val, where):
    """how c21::arg shows a parameter; cat "" is a by-value parameter"""
    return f"{t}{cat}:{val}" + (f"@{where}" if cat and t not in ("Ea", "Eb") else "") + " "


CAT = {"l": "&", "c": "c&", "r": "&&"}


class _C21(_C15):
    def var(self, e):
        return f'{e.t} {e.var}{{{e.make()}}}; c15::name({e.var}, "{e.var}");\n'

    def bound_call(self, b):
        r = self.r
        front = r.random() < .5
        nb, nc = r.choice([0, 1, 1, 2, 2, 3, 4]), r.choice([0, 1, 1, 2, 2, 3])
        # clang 18 crashes on a bound argument of empty class type
        bound = [self.el(refs=False, pool=None if self.empties else [t for t in C15_COPY + C15_MOVE if t not in ("Ea", "Eb")])
                 for _ in range(nb)]
        bmode = [r.choice("lcr") if e.t not in C15_MOVE else "r" for e in bound]
        kind = r.choice(["obj", "obj", "obj", "mo", "plain", "ptr", "value", "value", "vplain"])
        ret = r.choice(["Wrap<int>", "Wrap<int>", "int &", "void", "Ma"])
        name = "bind_front" if front else "bind_back"
        b += [self.var(e) for e in bound]
        modes = [r.choice("lc") for _ in range(r.randrange(1, 4))] + (["r"] if r.random() < .6 else [])
        if r.random() < .2:
            modes = ["r"]
        every = []  # argument lists per call
        for m in modes:
            call = [self.el(refs=False) for _ in range(nc)]
            every.append((m, call, [r.choice("lcr") for _ in call]))
        declared = kind in ("plain", "ptr", "vplain")
        params = None
        if declared:
            # one parameter list good for every call
            ts = [self.el(refs=False).t for _ in range(nc)]
            cm = [r.choice("lcr") for _ in range(nc)]
            for i, (m, call, _) in enumerate(every):
                every[i] = (m, [self.el(refs=False, pool=[t]) for t in ts], cm)
            ms = set(modes)
            params = []
            for e in bound:
                ok = ["c&"]
                if ms == {"l"}:
                    ok.append("&")
                if ms == {"r"}:
                    ok += ["&&", ""]
                if e.t not in C15_MOVE:
                    ok.append("")
                params.append((e.t, r.choice(ok)))
            cp = []
            for t, m in zip(ts, cm):
                ok = {"l": ["&", "c&"], "c": ["c&"], "r": ["c&", "&&", ""]}[m] + ([""] if t not in C15_MOVE else [])
                cp.append((t, r.choice(ok)))
            params = params + cp if front else cp + params
            ptypes = ", ".join({"": t, "&": t + " &", "c&": t + " const &", "&&": t + " &&"}[q] for t, q in params)
            fn = f"c21::plain<{ptypes}>"
            ret = "Wrap<int>"
        bargs = [_pass(e.var, m) for e, m in zip(bound, bmode)]
        self.n += 1
        fid = self.n
        if kind == "obj":
            fm = r.choice("lcr")
            b.append(f"c21::Fn<{ret}> f({fid});")
            b.append(f"auto w = stdx::{name}({', '.join([_pass('f', fm)] + bargs)});")
        elif kind == "mo":
            b.append(f"c21::MoveFn<{ret}> f({fid});")
            b.append(f"auto w = stdx::{name}({', '.join(['std::move(f)'] + bargs)});")
        elif kind == "plain":
            b.append(f"auto w = stdx::{name}({', '.join([fn] + bargs)});")
        elif kind == "ptr":
            b.append(f"auto *f = &{fn}; auto w = stdx::{name}({', '.join(['f'] + bargs)});")
        elif kind == "vplain":
            b.append(f"auto w = stdx::{name}<&{fn}>({', '.join(bargs)});")
        else:
            b.append(f"auto w = stdx::{name}<c21::Fn<{ret}>({fid})>({', '.join(bargs)});")
        for e, m in zip(bound, bmode):
            if m != "r" and e.t not in ("Ea", "Eb"):
                b.append(f'c.eq(c15::value({e.var}), std::string({cstr(e.val)}), "{name}-source");')
        val = [e.val for e in bound]  # what the wrapper holds
        hasid = [e.t in ("Ta", "Tb", "Tc", "Td", "Ma", "Mb") for e in bound]
        wants = ""
        for k, (m, call, cm) in enumerate(every):
            b += [self.var(e) for e in call]
            cargs = ", ".join(_pass(e.var, x) for e, x in zip(call, cm))
            bt, ct = [], []
            for i, e in enumerate(bound):
                q = params[i if front else len(call) + i][1] if declared else CAT[m]
                bt.append(_argtext(e.t, q, val[i], "-"))
            for i, e in enumerate(call):
                q = params[len(bound) + i if front else i][1] if declared else CAT[cm[i]]
                ct.append(_argtext(e.t, q, e.val, e.var))
            who = "f" if declared else f"{fid}C" if kind == "value" else f"{fid}" + {"l": "L", "c": "C", "r": "R"}[m]
            wants += f"{who}(" + "".join(bt + ct if front else ct + bt) + ")"
            inv = f"{_pass('w', m)}({cargs})"
            if ret == "void":
                b.append(f"static_assert(std::is_void_v<decltype({inv})>); {inv};")
            else:
                b.append(f"static_assert(std::is_same_v<decltype({inv}), {ret}>); {{ decltype(auto) x = {inv};")
                if ret == "Wrap<int>":
                    b.append(f'c.eq(x.v, std::string({cstr(wants)}), "{name}-result"); }}')
                elif ret == "Ma":
                    b.append(f'c.eq(x.id, {len(wants)}, "{name}-result"); }}')
                else:
                    b.append(f'c.check(&x == &c21::slot, "{name}-result", ""); }}')
            if not declared:
                for i in range(nb):
                    if m == "l" and hasid[i]:
                        val[i] = str(int(val[i]) + 1000)
            for e, x in zip(call, cm):
                if e.t in ("Ea", "Eb"):
                    continue
                if x == "l" and not declared and e.t in ("Ta", "Tb", "Tc", "Td", "Ma", "Mb"):
                    b.append(f'c.eq({e.var}.id, {int(e.val) + 1000}, "{name}-argument");')
                elif x != "r":
                    b.append(f'c.eq(c15::value({e.var}), std::string({cstr(e.val)}), "{name}-argument");')
        self.logs(b, wants, name)

    def batches(self, b):
        r = self.r
        kind = r.choice(["obj", "obj", "mo", "lambda", "lambda", "mlambda", "nlambda", "plain", "stdfn", "default", "member"])
        n = r.choice([1, 1, 2, 2, 3, 4])
        rows = r.choice([0, 1, 2, 2, 3, 4, 5])
        if kind in ("obj", "mo"):
            es = [self.el(refs=False) for _ in range(n * rows)]
            ms = [r.choice("lcr") for _ in es]
            b += [self.var(e) for e in es]
            fm = r.choice("lcr") if kind == "obj" else r.choice("lr")
            self.n += 1
            b.append(f"c21::{'Fn' if kind == 'obj' else 'MoveFn'}<{r.choice(['void', 'int &', 'Ma'])}> f({self.n});")
            b.append(f"stdx::for_each_n_args<{n}>({', '.join([_pass('f', fm)] + [_pass(e.var, m) for e, m in zip(es, ms)])});")
            rows_t = ["".join(_argtext(e.t, CAT[m], e.val, e.var) for e, m in list(zip(es, ms))[i * n:i * n + n])
                      for i in range(rows)]
            # called more than once, so never as an rvalue, except perhaps the last time
            b.append("if (auto at = c15::calls.rfind('('); at != std::string::npos and at > 0 and c15::calls[at - 1] == 'R') { c15::calls.erase(at - 1, 1); }")
            b.append("for (auto q : {\"L(\", \"C(\"}) { for (auto at = c15::calls.find(q); at != "
                     "std::string::npos; at = c15::calls.find(q)) { c15::calls.replace(at, std::string(q).size(), \"(\"); } }")
            self.logs(b, "".join(f"{self.n}({t})" for t in rows_t), "for_each_n_args")
            return
        params, ts = [], []
        for _ in range(n):
            t = self.el(refs=False).t
            q = r.choice(["&", "c&", "&&", ""])
            params.append((t, q))
        es, ms = [], []
        for _ in range(rows):
            for t, q in params:
                es.append(self.el(refs=False, pool=[t]))
                ms.append({"&": "l", "c&": r.choice("lcr"), "&&": "r", "": r.choice("lcr" if t not in C15_MOVE else "r")}[q])
        b += [self.var(e) for e in es]
        full = [{"": t, "&": t + " &", "c&": t + " const &", "&&": t + " &&"}[q] for t, q in params]
        who, tail = "f", ""
        body = 'c15::calls += "f("; ' + " ".join(f"c21::arg<{t}>(a{i});" for i, t in enumerate(full))
        plist = ", ".join(f"{t} a{i}" for i, t in enumerate(full))
        expl = f"<{n}>" if r.random() < .3 else ""
        fm = r.choice("lcr")
        if kind == "plain":
            f, fm = f"c21::plain<{', '.join(full)}>", None
            if r.random() < .5:
                f = "&" + f
        elif kind == "default":
            b.append(f'auto f = [&]({plist}, int z = 42) {{ {body} c21::arg<int>(z); c15::calls += ")"; }};')
            expl, tail = f"<{n}>", "int:42 "
        elif kind == "stdfn":
            b.append(f'std::function<int({", ".join(full)})> f = [&]({plist}) {{ {body} c15::calls += ")"; return 1; }};')
        elif kind == "member":
            b.append(f'struct Obj {{ int k; void mem({plist}) {{ {body} c21::arg<int>(k); c15::calls += ")"; }} }};')
            b.append("Obj " + ", ".join(["dummy{0}"] + [f"o{i}{{{i}}}" for i in range(rows)]) + "; (void)dummy;")
        else:
            q = {"lambda": "", "mlambda": " mutable", "nlambda": " noexcept"}[kind]
            b.append(f'auto f = [&, k = 0]({plist}){q} {{ {body} {"++k; c21::arg<int>(k);" if q == " mutable" else "(void)k;"} '
                     'c15::calls += ")"; };')
            if q == " mutable":
                fm = r.choice("lr")
        av = [_pass(e.var, m) for e, m in zip(es, ms)]
        want = ""
        for i in range(rows):
            t = tail
            if kind == "mlambda":
                t = f"int:{i + 1} "
            if kind == "member":
                t = f"int:{i} "
            want += "f(" + "".join(_argtext(e.t, q, e.val, e.var) for e, (_, q) in zip(es[i * n:i * n + n], params)) + t + ")"
        if kind == "member":
            pp = []
            for i in range(rows):
                pp += [r.choice([f"o{i}", f"&o{i}", f"std::ref(o{i})"])] + av[i * n:i * n + n]
            b.append(f"stdx::for_each_n_args<{n + 1}>({', '.join(['&Obj::mem'] + pp)});")
        else:
            b.append(f"stdx::for_each_n_args{expl}({', '.join([f if fm is None else _pass('f', fm)] + av)});")
        self.logs(b, want, "for_each_n_args")
        for e, m in zip(es, ms):
            if m != "r" and e.t not in ("Ea", "Eb"):
                b.append(f'c.eq(c15::value({e.var}), std::string({cstr(e.val)}), "for_each_n_args-argument");')


def wrappers(seed, k, n, life=False):
    r = random.Random(f"c21 {seed} {k} {life or ''}")
    p = Prog("c21.hpp")
    p.life = life
    g = _C21(r, p)
    g.empties = k % 2 == 0
    for i in range(n):
        b = []
        what = "batches" if i % 3 == 2 else "bound_call"
        getattr(g, what)(b)
        p.case(f'c.op("{what}", {cstr(" ".join(b)[:400])}); c21::begin();\n' + "\n".join(b))
    return p.text()


# ---- C22: call_by_need ----------------------------------------------------------------------------------------------

ARITH = ("int", "char")


def _accepts(par, e, cat):
    """par (type, quals) can be initialised from an argument of type e.t delivered as cat"""
    t, q = par
    if t != e.t:
        return t in ARITH and e.t in ARITH and q != "&"
    return {"": cat == "&&" or t not in C15_MOVE, "c&": True, "&": cat == "&", "&&": cat == "&&"}[q]


class _Need:
    """One function: what it accepts, how it shows a call, what it returns."""

    def __init__(self, g, i, pool, fmode):
        r = self.r = g.r
        self.who = f"f{i}"
        self.kind = r.choice(["lambda", "lambda", "lambda", "lambda", "only", "any", "plain", "mutable", "default", "mo"])
        self.once = fmode == "r" and r.random() < .2
        if fmode == "c" and self.kind == "mutable":
            self.kind = "lambda"
        if fmode != "r" and self.kind == "mo":
            self.kind = "lambda"
        if self.kind == "any" and r.random() < .6:
            self.kind = "lambda"
        self.void = r.random() < .2
        if self.kind in ("only", "any"):
            self.ok = sorted(r.sample(pool, r.randrange(1, min(3, len(pool)) + 1)))
            self.lo = r.choice([0, 1, 1, 2])
            self.hi = self.lo + r.randrange(0, 4)
            self.ret = "void" if self.void else "Wrap<int>"
            return
        n = r.choice([0, 1, 1, 1, 2, 2, 3])
        self.par = [(r.choice(pool), r.choice(["", "", "c&", "c&", "&", "&&"])) for _ in range(n)]
        self.opt = []
        if self.kind == "default":
            self.opt = [("int", ""), ("char", "")][:r.choice([1, 1, 2])]
        self.ret = "void" if self.void else r.choice(["Wrap<int>", "Wrap<int>", "Ma", "Ta &", "arg", "arg"])
        if self.ret == "arg":
            ix = [i for i, (t, q) in enumerate(self.par) if q in ("&", "c&")]
            if ix and self.kind != "plain":
                self.back = r.choice(ix)
            else:
                self.ret = "Wrap<int>"
        if self.kind == "plain":
            self.ret = "Wrap<int>"

    def match(self, es, cats):
        """number of arguments accepted from this exact run?"""
        if self.kind == "any":
            return True
        if self.kind == "only":
            return self.lo <= len(es) <= self.hi and all(e.t in self.ok for e in es)
        ps = self.par + self.opt
        return len(self.par) <= len(es) <= len(ps) and all(_accepts(p, e, c) for p, e, c in zip(ps, es, cats))

    def eats(self, j, e, cat):
        """argument j of the run is moved from"""
        if self.kind in ("only", "any") or cat != "&&":
            return False
        t, q = (self.par + self.opt)[j]
        return q == "" and t == e.t and t not in ARITH

    def code(self):
        return f"c21::Once{{{self.code_()}}}" if self.once else self.code_()

    def code_(self):
        if self.kind == "only":
            return f'c21::Only<{self.ret}, {self.lo}, {self.hi}, {", ".join(self.ok)}>{{"{self.who}"}}'
        if self.kind == "any":
            return f'c21::Any<{self.ret}>{{"{self.who}"}}'
        full = [{"": t, "&": t + " &", "c&": t + " const &", "&&": t + " &&"}[q] for t, q in self.par + self.opt]
        if self.kind == "plain":
            return f"&c21::plain<{', '.join(full)}>"
        dflt = [""] * len(self.par) + [" = 7", " = 'x'"]
        plist = ", ".join(f"{t} a{i}{dflt[i]}" for i, t in enumerate(full))
        body = f'c15::calls += tag + "("; ' + " ".join(f"c21::arg<{t}>(a{i});" for i, t in enumerate(full))
        body += ' c15::calls += ")"; '
        rt = self.ret
        if rt == "arg":
            rt = full[self.back]
            body += f"return a{self.back};"
        elif rt == "Ma":
            body += "return Ma(77);"
        elif rt == "Ta &":
            body += "return global_ta();"
        elif rt == "Wrap<int>":
            body += "return Wrap<int>{tag};"
        cap = f'tag = std::string("{self.who}")'
        if self.kind == "mo":
            cap += ", own = std::make_unique<int>(3)"
            body = "(void)*own; " + body
        mut = ""
        if self.kind == "mutable":
            cap += ", times = 0"
            body = 'if (times++) { c15::calls += "again:"; } ' + body
            mut = " mutable"
        return f"[{cap}]({plist}){mut} -> {rt} {{ {body} }}"

    def shown(self, es, cats, names):
        o = ("f" if self.kind == "plain" else self.who) + "("
        if self.kind in ("only", "any"):
            return o + "".join(_argtext(e.t, c, e.val, n) for e, c, n in zip(es, cats, names)) + ")"
        for j, (t, q) in enumerate(self.par + self.opt):
            if j >= len(es):
                o += f"{t}:{7 if t == 'int' else ord('x')} "
            else:
                e = es[j]
                # a converted argument is a temporary
                o += _argtext(t, q, e.val, names[j] if t == e.t else "-")
        return o + ")"

    def result(self, es, names, log):
        """text of the tuple element it gives, or None"""
        if self.ret == "void":
            return None
        if self.ret == "Wrap<int>":
            return "Wint:" + (log if self.kind == "plain" else self.who)
        if self.ret == "Ma":
            return "Ma:77"
        if self.ret == "Ta &":
            return "Ta&:5555@global"
        t, q = self.par[self.back]
        e = es[self.back]
        return f"{'c ' if q == 'c&' else ''}{t}&:{e.val}@{names[self.back]}"


class _C22(_C21):
    def one(self, b, twice=False):
        """Try to write one call; False if the drawn functions and arguments do not go together."""
        r = self.r
        pool = r.sample(C15_COPY + C15_MOVE, r.randrange(1, 5))
        if r.random() < .25:
            pool = sorted(set(pool + ["int", "char"]))
        n = r.choice([0, 1, 2, 2, 3, 3, 4, 5, 6])
        els = [self.el(pool=pool) for _ in range(n)]
        self.n += 1
        t = _Tup("t", els, f"t{self.n}")
        mode, fmode = r.choice("lcrr"), r.choice("lcr")
        cats = [e.cat(mode) for e in els]
        names = [e.var if e.ref else f"{t.name}_{i}" for i, e in enumerate(els)]
        fs = []
        want, log, used, eaten = [], "", set(), set()
        nf = r.choice([0, 1, 2, 2, 3, 3, 4, 5])
        tries = 0
        while len(fs) < nf and tries < 60:
            tries += 1
            f = _Need(self, len(fs), pool or ["Ta"], fmode)
            run = None
            for base in range(n if n else 1):
                for ln in range(n - base, -1, -1):
                    if f.match(els[base:base + ln], cats[base:base + ln]):
                        run = (base, ln)
                        break
                if run:
                    break
            if run is None:
                continue
            base, ln = run
            ix = list(range(base, base + ln))
            # a run of accepted arguments may convert between char and int through a reference that dies
            if getattr(f, "ret", "") == "arg" and (f.par[f.back][0] != els[base + f.back].t or cats[base + f.back] == "&&"):
                continue
            if eaten & set(ix):
                continue
            eat = {i for j, i in enumerate(ix) if f.eats(j, els[i], cats[i])}
            es, nm, ct = [els[i] for i in ix], [names[i] for i in ix], [cats[i] for i in ix]
            sh = f.shown(es, ct, nm)
            log += sh
            res = f.result(es, nm, log)
            if res is not None:
                want.append(res)
            used |= set(ix)
            eaten |= eat
            fs.append(f)
        rest = [e.asref(mode, names[i]) if (e.ref or mode != "r") else e.decayed() for i, e in enumerate(els) if i not in used]
        want += [e.show() for e in rest]
        b.append(t.decl())
        for i, e in enumerate(els):
            if not e.ref:
                b.append(f'c15::name(get<{i}>({t.name}), "{names[i]}");')
        b.append('c15::name(global_ta(), "global");')
        b.append(f"auto fs = stdx::tuple{{{', '.join(f.code() for f in fs)}}};" if fs else "stdx::tuple<> fs{};")
        b.append(f"auto r = stdx::call_by_need({_pass('fs', fmode)}, {t.use(mode)});")
        self.logs(b, log, "call_by_need")
        b.append(f'c15::is(c, r, {cstr("t(" + " ".join(want) + ")")}, "call_by_need-result");')
        if mode != "r":
            b.append(f'c15::is(c, {t.name}, {cstr(_show(t.kind, t.els))}, "call_by_need-arguments");')


def needs(seed, k, n, life=False):
    r = random.Random(f"c22 {seed} {k} {life or ''}")
    p = Prog("c21.hpp")
    p.life = life
    p.decl("Ta global_(5555);\nTa &global_ta() { return global_; }")
    g = _C22(r, p)
    for i in range(n):
        b = []
        g.one(b)
        p.case(f'c.op("call_by_need", {cstr(" ".join(b)[:600])}); c21::begin();\n' + "\n".join(b))
    return p.text()


# ---- C23: ct_string -------------------------------------------------------------------------------------------------

def _sv(s):
    return f"std::string({cstr(s)}, {len(s)})"


class _C23:
    def __init__(self, r):
        self.r = r
        self.n = 0

    def text(self, n=None):
        r = self.r
        if n is None:
            n = r.choice([0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 63, 64, r.randrange(20, 150)])
            if r.random() < .02:
                n = r.randrange(250, 262)
        alpha = r.choice(["ab", "abc/", "abcdefghij /.:-", "a\0", "\"\\'?{}%\n\t", "".join(map(chr, range(256)))])
        return "".join(r.choice(alpha) for _ in range(n))

    def make(self, s):
        """An expression giving a ct_string with this text."""
        r = self.r
        return r.choice([
            lambda: f"stdx::ct_string{{{cstr(s)}}}",
            lambda: f"{cstr(s)}_cts",
            lambda: f"stdx::ct_string<{len(s) + 1}>{{std::string_view{{{cstr(s)}, {len(s)}}}}}",
            lambda: f"stdx::ct_string<{len(s) + 1}>{{{cstr(s)}, {len(s)}}}",
            lambda: f"stdx::ct_string_from_type({self.pack(s)}{{}})",
            lambda: f"+{cstr(s)}_ctst",
            lambda: f"stdx::ct<{cstr(s)}>()()",
            lambda: f"stdx::ct_string{{{cstr(s)}_ctst}}",
        ])()

    def pack(self, s, t=None):
        t = t or self.r.choice(["Pack", "std::integer_sequence"])
        return f"{t}<char{''.join(f', char({ord(ch)})' for ch in s)}>"

    def wrapped(self, s):
        return self.r.choice([f"{cstr(s)}_ctst", f"stdx::ct<{cstr(s)}>()", f"stdx::cts_t<{cstr(s)}>{{}}"])

    def var(self, b, s, how=None):
        self.n += 1
        kind = self.r.choice(["constexpr auto", "constexpr auto", "constexpr static auto", "auto"])
        b.append(f"{kind} s{self.n} = {how or self.make(s)};")
        return f"s{self.n}"

    def build(self, b):
        s = self.text()
        b.append(f'c23::is(c, {self.var(b, s)}, {_sv(s)}, "built");')
        b.append(f'c23::is(c, {self.var(b, s, self.wrapped(s))}, {_sv(s)}, "wrapped");')
        b.append(f'c.eq(c23::arg<{self.r.choice([cstr(s), self.make(s), self.wrapped(s)])}>(), {_sv(s)}, "template-argument");')
        b.append(f"stdx::ct_string<{len(s) + 1}> e{{}};")
        b.append(f'c23::is(c, e, std::string({len(s)}, char(0)), "default");')

    def related(self, s):
        r = self.r
        if r.random() < .6 and s:
            i = r.randrange(len(s))
            return r.choice([s, s[:i], s[i:], s + "\0", s + s[:i + 1], s[:i] + chr((ord(s[i]) + 1) % 256) + s[i + 1:]])
        return self.text()

    def concat(self, b):
        r = self.r
        ss = [self.text() for _ in range(r.choice([2, 2, 3, 4]))]
        modes = [r.choice(["s", "s", "w"]) for _ in ss]
        vs = [self.var(b, s, self.wrapped(s) if m == "w" else None) for s, m in zip(ss, modes)]
        want = "".join(ss)
        self.n += 1
        e = " + ".join(vs)
        if len(vs) > 2 and r.random() < .4:
            e = f"{vs[0]} + ({' + '.join(vs[1:])})"
        b.append(f"auto s{self.n} = {e};")
        b.append(f"static_assert({'' if all(m == 'w' for m in modes) else 'not '}stdx::is_ct_v<decltype(s{self.n})>);")
        b.append(f'c23::is(c, s{self.n}, {_sv(want)}, "concatenated");')
        for v, s in zip(vs, ss):
            b.append(f'c23::is(c, {v}, {_sv(s)}, "operand");')

    def compare(self, b):
        s = self.text()
        t = self.related(s)
        if self.r.random() < .6:
            v, w = self.var(b, s), self.var(b, t)
        else:
            v, w = self.var(b, s, self.wrapped(s)), self.var(b, t, self.wrapped(t))
        b.append(f'c.eq({v} == {w}, {"true" if s == t else "false"}, "equal");')
        b.append(f'c.eq({w} == {v}, {"true" if s == t else "false"}, "equal");')
        b.append(f'c.eq({v} != {w}, {"false" if s == t else "true"}, "not-equal");')
        b.append(f'c.check({v} == {v}, "equal-to-itself", "");')

    def split(self, b):
        r = self.r
        s = self.text()
        ch = r.choice([r.choice(s or "a"), r.choice(s or "a"), s[-1:] or "b", s[:1] or "b", "a", "/", "\0", "z",
                       chr(r.randrange(256))])
        if r.random() < .25:  # the only one of its kind, anywhere, also far from the start
            s = s.replace(ch, chr(ord(ch) ^ 1))
            if r.random() < .2:
                s = (s + "x" * 300)[:r.randrange(254, 300)].replace(ch, chr(ord(ch) ^ 1))
            at = r.choice([r.randrange(len(s) + 1), len(s)])
            s = s[:at] + ch + s[at:]
        i = s.find(ch)
        first, second = (s, "") if i < 0 else (s[:i], s[i + 1:])
        arg = r.choice([cstr(s), self.make(s), self.wrapped(s)])
        b.append(f"{r.choice(['constexpr ', ''])}auto p = stdx::split<{arg}, char({ord(ch)})>();")
        b.append(f'c23::is(c, p.first, {_sv(first)}, "split-before");')
        b.append(f'c23::is(c, p.second, {_sv(second)}, "split-after");')

    def packs(self, b):
        s = self.text()
        for t in ("Pack", "std::integer_sequence"):
            arg = self.r.choice([cstr(s), self.make(s), self.wrapped(s)])
            b.append(f"using {t[0]}t = stdx::ct_string_to_type_t<{arg}, {t}>;")
            b.append(f"static_assert(std::is_same_v<{t[0]}t, decltype(stdx::ct_string_to_type<{arg}, {t}>())>);")
            b.append(f'c.eq(c23::text({t[0]}t{{}}), {_sv(s)}, "to-type");')
            b.append(f'c.check(std::is_same_v<{t[0]}t, {self.pack(s, t)}>, "to-type", "");')
            b.append(f'c23::is(c, stdx::ct_string_from_type({t[0]}t{{}}), {_sv(s)}, "from-type");')


def strings(seed, k, n):
    r = random.Random(f"c23 {seed} {k}")
    p = Prog("c23.hpp")
    p.decl("using namespace stdx::literals;")
    ops = ["build", "concat", "compare", "split", "packs", "split"]
    for i in range(n):
        g = _C23(r)
        b = []
        getattr(g, ops[i % len(ops)])(b)
        p.case(f'c.op("{ops[i % len(ops)]}", {cstr(" ".join(b)[:400])});\n' + "\n".join(b))
    return p.text()


# ---- C24: ct_format -------------------------------------------------------------------------------------------------

C24_INTS = [("int", 32, 1), ("std::int8_t", 8, 1), ("std::uint8_t", 8, 0), ("std::int16_t", 16, 1), ("std::uint16_t", 16, 0),
            ("unsigned int", 32, 0), ("std::int64_t", 64, 1), ("std::uint64_t", 64, 0), ("long long", 64, 1)]
C24_TYPES = [("int", "int"), ("bool", "bool"), ("double", "double"), ("Widget", "Widget"), ("Gadget", "Gadget"),
             ("Box<>", "Box<>"), ("Box<int>", "Box<int>"), ("unsigned int", "unsigned int"), ("deep::er::Holder", "deep::er::Holder"),
             ("int const", "const int"), ("Gadget const", "const Gadget"), ("Box<int const> const", "const Box<const int>"),
             ("double volatile", "volatile double")]
C24_ENUMS = [("Colour::red", "red"), ("Colour::blue_2", "blue_2"), ("plain_one", "plain_one"), ("deep::er::Level::hi", "hi"),
             ("deep::er::Holder::Inner::longer_name", "longer_name"), ("static_cast<Colour>(9)", "(Colour)9"),
             ("Colour::green", "green")]


def _int(r, bits, signed):
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    v = r.choice([0, 1, lo, hi, lo + 1, hi - 1, r.randint(lo, hi), r.randint(lo, hi), r.randint(max(lo, -20), min(hi, 300)),
                  10 ** r.randrange(1, 19), 16 ** r.randrange(1, 15), -(10 ** r.randrange(1, 19))])
    return min(max(v, lo), hi)


def _lit(t, v):
    if v == -(1 << 63):
        return f"std::int64_t{{-9223372036854775807 - 1}}"
    suf = "u" if v > (1 << 63) - 1 else ""
    return f"static_cast<{t}>({v}{suf})"


class _Res:
    """What a call of ct_format must give."""

    def __init__(self):
        self.text, self.args, self.named = "", [], []

    def join(self, o, at=0):
        for nm, b, e in o.named:
            self.named.append((nm, b + len(self.args), None) if e is None else (nm, b + len(self.text), e + len(self.text)))
        self.text += o.text
        self.args += o.args

    def check(self, v):
        a = "".join(x + "|" for x in self.args)
        nm = "".join(f"{n}@{b} " if e is None else f"{n}@{b}-{e} " for n, b, e in self.named)
        return f"c24::is(c, {v}, {_sv(self.text)}, {_sv(a)}, {_sv(nm)});"


class _C24:
    def __init__(self, r):
        self.r = r
        self.n = 0
        self.results = []  # (variable, _Res, how it may be used)

    def literal(self, escapes):
        r = self.r
        n = r.choice([0, 0, 0, 1, 1, 2, 3, 5, 8, r.randrange(30), r.randrange(80)])
        if r.random() < .015:
            n = r.randrange(250, 270)
        alpha = ["a", "b", " ", ".", ":", "x", "%", "\\", '"', "=", "(", "7", "-"]
        if escapes and r.random() < .4:
            alpha += ["{{", "}}"] * 2
        return "".join(r.choice(alpha) for _ in range(n))

    def name(self):
        r = self.r
        return "".join(r.choice("abcdefgh_") for _ in range(r.choice([1, 2, 3, 8])))

    def string(self):
        r = self.r
        n = r.choice([0, 1, 2, 5, 9, 20] * 6 + [r.randrange(250, 270)])
        alpha = "ABC xyz_:;.\\\"-\n\xe9" + "\0\0\0" * (r.random() < .2)
        return "".join(r.choice(alpha) for _ in range(n))

    def ct(self, macro):
        """A compile-time argument: expression, specification, text."""
        r = self.r
        k = r.choice(["int", "int", "int", "char", "str", "str", "type", "enum"])
        if k == "int":
            t, bits, signed = r.choice(C24_INTS)
            v = _int(r, bits, signed)
            spec = r.choice(["", "", ":x"])
            e = _lit(t, v) if t != "int" or v < -2147483647 or r.random() < .3 else str(v)
            tx = (("-" if v < 0 else "") + "%x" % abs(v)) if spec else str(v)
            if macro:
                return e, spec, tx
            return r.choice([f"CX_VALUE({e})", f"stdx::ct<{e}>()", f"std::integral_constant<{t}, {e}>{{}}"]), spec, tx
        if k == "char":
            ch = r.choice("abzA09 :!~\n\x7f\xc8\0")
            q = f"'{ch}'" if " " <= ch <= "~" else f"'\\{ord(ch):03o}'"
            return (q if macro else r.choice([f"CX_VALUE({q})", f"stdx::ct<{q}>()"])), "", ch
        if k == "str":
            s = self.string()
            if "\0" in s:  # not for pointers
                return r.choice([f"{cstr(s)}sv", f"{cstr(s)}_cts", f"{cstr(s)}_ctst"] if macro else
                                [f"CX_VALUE({cstr(s)}sv)", f"{cstr(s)}_ctst", f"CX_VALUE({cstr(s)}_cts)", f"stdx::ct<{cstr(s)}>()",
                                 f"{cstr(s)}_fmt_res"]), "", s
            if macro:
                return r.choice([cstr(s), f"{cstr(s)}sv", f"{cstr(s)}_cts", f"{cstr(s)}_ctst"]), "", s
            chars = "Chars<char" + "".join(f", char({ord(ch)})" for ch in s) + ">{}"
            return r.choice([f"CX_VALUE({cstr(s)})", f"CX_VALUE({cstr(s)}sv)", f"{cstr(s)}_ctst", f"CX_VALUE({cstr(s)}_cts)",
                             chars, f"stdx::ct<{cstr(s)}>()", f"CX_VALUE(std::string_view{{{cstr(s)}}})",
                             f"{cstr(s)}_fmt_res"]), "", s
        if k == "type":
            t, tx = r.choice([x for x in C24_TYPES if not macro or x[0] != "Widget"])
            if macro:
                return t, "", tx
            ways = [f"stdx::ct<{t}>()", f"stdx::type_identity<{t}>{{}}"] + [f"CX_VALUE({t})"] * (t != "Widget")  # incomplete
            return r.choice(ways), "", tx
        e, tx = r.choice(C24_ENUMS)
        if macro:
            return e, "", tx
        return r.choice([f"CX_VALUE({e})", f"stdx::ct<{e}>()"]), "", tx

    def rt(self, b, macro):
        """A run-time argument: expression, how it is shown."""
        r = self.r
        self.n += 1
        v = f"v{self.n}"
        k = r.choice(["int", "int", "int", "double", "char", "string", "string_view", "cstr", "Colour", "u64", "tuple"]
                     + ([] if macro else ["MoveOnly", "MoveOnly"]))
        i = r.randrange(-1000, 1000)
        lit = {"int": str(i), "double": f"{i}.5", "char": "'q'", "string": f'std::string("text {i}, long enough for the heap")',
               "string_view": f'std::string_view{{"sv{i}"}}', "cstr": f'static_cast<char const *>("cs{i}")',
               "Colour": "Colour::green", "u64": f"std::uint64_t{{{abs(i)}}}", "MoveOnly": f"MoveOnly{{{i}}}", "tuple": f"stdx::make_tuple({i}, 'q')"}[k]
        shown = {"int": f"int:{i}", "double": f"double:{float(i) + (.5 if i >= 0 else -.5):.6f}", "char": "char:q",
                 "string": f"string:text {i}, long enough for the heap", "string_view": f"string_view:sv{i}", "cstr": f"cstr:cs{i}",
                 "Colour": "Colour:1", "u64": f"u64:{abs(i)}", "MoveOnly": f"MoveOnly:{i}", "tuple": f"tuple:int:{i},char:q"}[k]
        if not macro and r.random() < .3:
            return lit, shown, None
        b.append(f"auto {v} = {lit};")
        if k == "MoveOnly" or (not macro and r.random() < .3):
            return f"std::move({v})", shown, None
        if not macro and r.random() < .3:
            return f"std::as_const({v})", shown, v
        return v, shown, v

    def call(self, b, macro=False, depth=0):
        r = self.r
        if depth == 0:
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                self.call(b, depth=1)
        elif depth < 3 and r.random() < .4:
            self.call(b, depth=depth + 1)
        nargs = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 6, 9])
        res, fmt, args, keep, count, allct = _Res(), "", [], [], 0, True
        for _ in range(nargs):
            k = r.choice(["ct", "ct", "rt", "rt", "nest", "user" if not macro else "rt"])
            usable = [x for x in self.results if not macro or x[2] != "static"]
            if k == "nest" and not usable:
                k = r.choice(["ct", "rt"])
            lit = self.literal(k == "rt")
            nm = self.name() if r.random() < .3 and k in ("ct", "rt") else ""
            one = _Res()
            one.text = lit
            if k == "ct":
                e, spec, tx = self.ct(macro)
                at = len(one.text)
                one.text += tx
                if nm and "_fmt_res" not in e:
                    one.named.append((nm, at, len(one.text)))
            elif k == "rt":
                allct = False
                e, shown, var = self.rt(b, macro)
                spec = r.choice(["", "", ":x", ":>8", ":08.3f", ":*^#12x", ":?", ":d"])
                one.args.append(shown)
                one.text += "{" + spec + "}"
                if nm:
                    one.named.append((nm, 0, None))
                if var:
                    keep.append((var, shown))
            elif k == "user":
                spec = ""
                x = r.randrange(100)
                sub = _Res()
                if r.random() < .4:
                    way = r.choice("lcrt")
                    if way != "t":
                        self.n += 1
                        b.append(f"UserM v{self.n}{{MoveOnly{{{x}}}}};")
                    e = {"l": f"v{self.n}", "c": f"std::as_const(v{self.n})", "r": f"std::move(v{self.n})", "t": f"UserM{{MoveOnly{{{x}}}}}"}[way]
                    sub.text, sub.args = ("seen {}", [f"int:{x}"]) if way in "lc" else ("owner {}", [f"MoveOnly:{x}"])
                elif r.random() < .6:
                    e = f"User{{{x}}}"
                    sub.text, sub.args, sub.named = "user {} of 7", [f"int:{x}"], [("n", 11, 12)]
                else:
                    e, sub.text = f"User0{{{x}}}", "nobody"
                one.join(sub)
                allct = False
            else:
                spec = ""
                v, sub, how = r.choice(usable)
                if how == "static":
                    e = r.choice([f"CX_VALUE({v})", v])
                elif how == "once":
                    e = f"std::move({v})"
                    self.results = [x for x in self.results if x[0] != v]
                else:
                    e = r.choice([v, f"std::as_const({v})"])
                if how == "once" and macro:
                    e, spec, one.text = "17", "", one.text + "17"
                else:
                    one.join(sub)
                    allct = allct and how == "static"
            fmt += lit + "{" + nm + spec + "}"
            args.append(e)
            res.join(one)
            count += 1
        tail = self.literal(True)
        fmt += tail
        res.text += tail
        self.n += 1
        v = f"r{self.n}"
        static = allct and r.random() < .5 and not macro
        movable = any(x.startswith("MoveOnly") for x in res.args)
        out = r.random() < .15 and not macro
        head = "constexpr static auto" if static else "auto"
        if macro:
            b.append(f"{head} {v} = STDX_CT_FORMAT({', '.join([cstr(fmt)] + args)});")
        else:
            b.append(f"{head} {v} = stdx::ct_format<{cstr(fmt)}{', Chars' if out else ''}>({', '.join(args)});")
        b.append(res.check(v))
        b.append(f'c.eq(stdx::num_fmt_specifiers<{cstr(fmt)}>, std::size_t{{{count}}}, "number-of-specifiers");')
        for var, shown in keep:
            b.append(f'c.eq(c24::show({var}), {_sv(shown)}, "argument-kept");')
        if not out:
            self.results.append((v, res, "static" if static else "once" if movable else "copy"))
        elif not movable:
            self.results.append((v, res, "copy"))

    def macro(self, b):
        self.call(b, macro=True)


def formats(seed, k, n):
    r = random.Random(f"c24 {seed} {k}")
    p = Prog("c24.hpp")
    p.decl("using namespace stdx::literals;\nusing namespace std::string_view_literals;")
    for i in range(n):
        g = _C24(r)
        b = []
        what = "macro" if i % 4 == 3 else "call"
        getattr(g, what)(b)
        p.case(f'c.op("{what}", {cstr(" ".join(b)[:500])});\n' + "\n".join(b))
    return p.text()


# ---- C27: environments and type maps --------------------------------------------------------------------------------

def _const(r, strings=True):
    """A compile-time value: expression and how c27::show shows it."""
    k = r.choice(["int"] * 4 + ["char", "bool", "long", "En", "Point"] + ["string"] * strings)
    i = r.randrange(-50, 50)
    s = "".join(r.choice("abc ") for _ in range(r.randrange(6)))
    return {"int": (str(i), f"int:{i}"), "char": (f"'{'xyz'[i % 3]}'", f"char:{'xyz'[i % 3]}"),
            "bool": (("false", "true")[i % 2], f"bool:{i % 2}"), "long": (f"{i}L", f"long:{i}"),
            "En": (f"En::{'abc'[i % 3]}", f"En:{i % 3}"), "Point": (f"Point{{{i}, {i + 1}}}", f"Point:{i},{i + 1}"),
            "string": (cstr(s), f"string:{s}")}[k]


class _C27:
    def __init__(self, r):
        self.r = r

    def env(self, b):
        r = self.r
        nq = r.choice([1, 2, 3, 4, 6, 9, 14])
        qs = [f"q<{i}>" if r.random() < .6 else f"qd<{i}>" for i in range(nq)]
        envs = [("stdx::env<>", {})]
        joined = []

        def bindings():
            ks = r.sample(qs, min(nq, r.choice([0, 1, 1, 2, 2, 3, 5, 9, 14])))
            bs = {k: _const(r) for k in ks}
            return "".join(f", {k}, {v[0]}" for k, v in bs.items()), {k: v[1] for k, v in bs.items()}

        for i in range(r.choice([1, 2, 3, 4, 6])):
            k = r.choice(["make", "make", "extend", "extend", "append", "join"]) if i else "make"
            if k == "make":
                t, m = bindings()
                t, m = f"stdx::make_env_t<{t[2:]}>", m
            elif k == "extend":
                base, old = r.choice(envs)
                t, new = bindings()
                t, m = f"stdx::extend_env_t<{base}{t}>", {**old, **new}
            elif k == "join":  # the first one that knows the answer gives it
                parts = [r.choice(envs + joined) for _ in range(r.choice([1, 2, 2, 3]))]
                m = {}
                for p in reversed(parts):
                    m.update(p[1])
                t = f"stdx::env<{', '.join(p[0] for p in parts)}>"
                joined.append((f"E{i}", m))
            else:
                parts = [r.choice(envs) for _ in range(r.choice([1, 2, 2, 3, 4]))]
                m = {}
                for p in parts:
                    m.update(p[1])
                t = f"stdx::append_env_t<{', '.join(p[0] for p in parts)}>"
            b.append(f"using E{i} = {t};")
            b.append(f"static_assert(stdx::envlike<E{i}>);")
            if k != "join":  # an environment of environments can only be asked and joined
                envs.append((f"E{i}", m))
            for q in qs + ["q<99>"]:
                want = m.get(q) or (f"int:{1000 + int(q[3:-1])}" if q[1] == "d" else None)
                d = _const(r, strings=False)
                if want is None:
                    b.append(f'c.check(not c27::answers<E{i}, std::remove_cvref_t<decltype({q})>>, "unbound", "E{i} {q}");')
                    if r.random() < .2:
                        b.append(f"c27::defaults<E{i}>(c, {q});")
                    b.append(f'{{ constexpr auto x = stdx::query<E{i}>({q}, {d[0]}); c.eq(c27::show(x), '
                             f'std::string({cstr(d[1])}), "default"); }}')
                else:
                    e = r.choice([f"stdx::query<E{i}>({q})", f"{q}(E{i}{{}})", f"stdx::query<E{i}>({q}, {d[0]})",
                                  f"E{i}::query({q})" if q in m else f"{q}(E{i}{{}})"])
                    b.append(f'{{ constexpr auto x = {e}; c.eq(c27::show(x), std::string({cstr(want)}), "query"); }}')

    def map(self, b):
        r = self.r
        n = r.choice([0, 1, 2, 3, 4, 6, 10, 20, 40])
        types = [f"K<{i}>" for i in range(n)] + ["int", "void", "int const", "int &", "En", "K<900> *", "char[3]", "char[]", "int(char)",
                                                "K<901> const &&", "int const[2]", "std::string", "long double"]
        r.shuffle(types)
        tk, vk, tv, vv = types[:], [], [], []
        while len(vk) < n + 3:
            v = _const(r, strings=False)
            if v not in vk:
                vk.append(v)
        ent = []
        for i in range(n):
            kind = r.choice(["tt", "tv", "vt", "vv"])
            key = tk.pop() if kind[0] == "t" else vk.pop()
            val = r.choice(types) if kind[1] == "t" else _const(r, strings=False)
            ent.append((kind, key, val))
        tx = lambda x: x if isinstance(x, str) else x[0]
        b.append(f"using M = stdx::type_map<{', '.join(f'stdx::{k}_pair<{tx(a)}, {tx(v)}>' for k, a, v in ent)}>;")

        def same(e, want):
            b.append(f'c.check(std::is_same_v<{e}, {want}>, "type-lookup", {cstr(e)});')

        def eq(e, want):
            b.append(f'{{ constexpr auto x = {e}; c.eq(c27::show(x), std::string({cstr(want)}), "value-lookup"); }}')

        def forward(kind, a, v):
            fn = ("type" if kind[0] == "t" else "value") + "_lookup" + ("_t" if kind[1] == "t" else "_v")
            d = r.choice([", float", ""]) if kind[1] == "t" else r.choice([", 77", ""])
            return f"stdx::{fn}<M, {tx(a)}{d}>", d

        vals = [v for _, _, v in ent]
        for kind, a, v in ent:
            e, _ = forward(kind, a, v)
            same(e, v) if kind[1] == "t" else eq(e, v[1])
            if vals.count(v) == 1:  # reverse lookup needs unique values
                fn = "reverse_" + ("type" if kind[1] == "t" else "value") + "_lookup" + ("_t" if kind[0] == "t" else "_v")
                d = r.choice([", float", ""]) if kind[0] == "t" else r.choice([", 77", ""])
                e = f"stdx::{fn}<M, {tx(v)}{d}>"
                same(e, a) if kind[0] == "t" else eq(e, a[1])
        for _ in range(4):  # absent keys and values
            kind = r.choice(["tt", "tv", "vt", "vv"])
            a = tk[0] if kind[0] == "t" else vk[0]
            e, d = forward(kind, a, None)
            same(e, d[2:] or "void") if kind[1] == "t" else eq(e, "int:77" if d else "int:0")
            v = "K<777>" if kind[1] == "t" else ("7777", "int:7777")
            fn = "reverse_" + ("type" if kind[1] == "t" else "value") + "_lookup" + ("_t" if kind[0] == "t" else "_v")
            d = r.choice([", K<5>", ""]) if kind[0] == "t" else r.choice([", En::c", ""])
            e = f"stdx::{fn}<M, {tx(v)}{d}>"
            same(e, d[2:] or "void") if kind[0] == "t" else eq(e, "En:2" if d else "int:0")


def lookups(seed, k, n):
    r = random.Random(f"c27 {seed} {k}")
    p = Prog("c27.hpp")
    for i in range(n):
        g = _C27(r)
        b = []
        what = "map" if i % 3 == 2 else "env"
        getattr(g, what)(b)
        p.case(f'c.op("{what}", {cstr(" ".join(b)[:600])});\n' + "\n".join(b))
    return p.text()


# ---- C28: type introspection ----------------------------------------------------------------------------------------

# parameter types and what they decay to
_PARAMS = [("int", "int"), ("char", "char"), ("double", "double"), ("S", "S"), ("M", "M"), ("int &", "int"), ("S const &", "S"),
           ("S &&", "S"), ("S const &&", "S"), ("S volatile &", "S"), ("int *", "int *"), ("S const *", "S const *"),
           ("int (*)(char)", "int (*)(char)"), ("int (&)(char)", "int (*)(char)"), ("int (&)[3]", "int *"),
           ("char const (&)[4]", "char const *"), ("int S::*", "int S::*"), ("void (S::*)(int) const", "void (S::*)(int) const"),
           ("std::string", "std::string"), ("std::string const &", "std::string"), ("En", "En"), ("Box<int>", "Box<int>"),
           ("K<1> &", "K<1>"), ("K<2> const *", "K<2> const *"), ("Box<int const &>", "Box<int const &>"), ("M &&", "M"),
           ("int const volatile &", "int"), ("Pack<>", "Pack<>"), ("void *", "void *"), ("int * const &", "int *")]
_RETURNS = ["void", "int", "int &", "S", "S const", "S const &", "S &&", "int *", "int (*)(char)", "int (&)[3]", "std::string", "En",
            "K<1> &", "M", "Box<int>", "void *", "char const *"]
_QUALS = [q + r for q in ("", " const", " volatile", " const volatile") for r in ("", " &", " &&")]


def _c28_char(r):
    return r.choice(["'<'", "'>'", "'a'", "'('", "':'", "'\\''", "'\"'", "'\\\\'", "5", "'='", "true"])


class _C28:
    def __init__(self, r):
        self.r = r

    def is_same(self, b, got, want, key):
        b.append(f'c.check(std::is_same_v<{got}, {want}>, "{key}", {cstr(got + " is not " + want)});')

    def true(self, b, got, want, key):
        b.append(f'c.check(({got}) == {("false", "true")[bool(want)]}, "{key}", {cstr(got)});')

    def signature(self, b):
        r = self.r
        n = r.choice([0, 1, 1, 2, 2, 3, 4, 6, 10])
        ps = [r.choice(_PARAMS) for _ in range(n)]
        ret = r.choice(_RETURNS)
        args = ", ".join(p[0] for p in ps)
        ne = r.choice(["", "", " noexcept"])
        q = r.choice(_QUALS)
        shape = r.choice(["fn", "ptr", "member", "member", "lambda", "lambda", "functor", "functor", "static"])
        guard = False
        if shape == "fn":
            b.append(f"using F = auto({args}){ne} -> {ret};")
            obj = "void"
        elif shape == "ptr":
            b.append(f"using Fn = auto({args}){ne} -> {ret}; using F = Fn *{r.choice(['', ' const', ' volatile', ' const volatile'])};")
            obj = "void"
        elif shape == "member":
            k = r.choice(["S", "Box<char>", "K<7>"])
            b.append(f"using F = auto ({k}::*)({args}){q}{ne} -> {ret};")
            obj = k + q
        elif shape == "lambda":
            mut = r.choice(["", " mutable"])
            cap = r.choice(["", "z = 1"])
            body = "" if ret == "void" else f"return c28::any<{ret}>();"
            b.append(f"auto l = [{cap}]({args}){mut}{ne} -> {ret} {{ {body} }}; using L = decltype(l);")
            b.append(f"using F = L{r.choice(['', '', ' const', ' &', ' const &', ' &&'])};")
            obj = "L" if mut else "L const"
        else:
            st = "static " if shape == "static" else ""
            q = "" if st else q
            op = "operator()" if r.random() < .6 and not st else "f"
            b.append(f"struct L {{ {st}auto {op}({args}){q}{ne} -> {ret}; }};")
            b.append("using F = L;" if op != "f" else "using F = decltype(&L::f);")
            obj = "void" if st else "L" + q
        self.is_same(b, "stdx::return_t<F>", ret, "return")
        self.is_same(b, "stdx::args_t<F, c28::List>", f"c28::List<{args}>", "args")
        self.is_same(b, "stdx::decayed_args_t<F, c28::Other>", f"c28::Other<{', '.join(p[1] for p in ps)}>", "decayed-args")
        self.is_same(b, "stdx::obj_arg_t<F>", obj, "object")
        b.append(f'c.eq(stdx::arity_v<F>, std::size_t{{{n}}}, "arity");')
        b.append(f'c.eq(stdx::arity_t<F>::value, std::size_t{{{n}}}, "arity");')
        for i, p in enumerate(ps):
            self.is_same(b, f"stdx::nth_arg_t<F, {i}>", p[0], "nth-arg")
            self.is_same(b, f"stdx::decayed_nth_arg_t<F, {i}>", p[1], "nth-arg")

    def generic(self, b):
        r = self.r
        if r.random() < .2:
            k, n = r.choice([("Generic", 1), ("GenericMutable", 1), ("GenericRvalue", 1), ("GenericRvalueTwo", 2), ("GenericTwo", 2), ("GenericThree", 3), ("InheritsGeneric", 1),
                             ("LambdaGeneric", 1), ("LambdaGeneric2", 2)])
            b.append(f"using F = {k};")
        else:
            n = r.choice([1, 2, 3, 4, 5, 8, 12])
            ps = [r.choice(["auto", "auto const &", "auto &&", "int", "S const &", "char", "S", "int *"]) for _ in range(n)]
            ps[r.randrange(n)] = r.choice(["auto", "auto const &", "auto &&"])
            cap = r.choice(["", "z = 1"])
            b.append(f"auto l = [{cap}]({', '.join(ps)}){r.choice(['', ' mutable'])}{r.choice(['', ' -> int'])} {{ return 1; }};")
            b.append("using F = decltype(l);")
        b.append(f'c.eq(stdx::arity_v<F>, std::size_t{{{n}}}, "generic-arity");')
        b.append(f'c.eq(stdx::arity_t<F>::value, std::size_t{{{n}}}, "generic-arity");')

    def packs(self, b):
        r = self.r
        n = r.choice([1, 2, 3, 5, 9, 17, 40, 90])
        ts = [r.choice([f"K<{r.randrange(50)}>", "int", "void", "int const", "S &", "S const &&", "int[3]", "int(char) const", "Box<int>"])
              for _ in range(n)]
        vs = [_const(r, strings=False) for _ in range(n)]
        for i in {0, n - 1, *(r.randrange(n) for _ in range(6))}:
            self.is_same(b, f"stdx::nth_t<{i}, {', '.join(ts)}>", ts[i], "nth-type")
            b.append(f'c.eq(c28::show(stdx::nth_v<{i}, {", ".join(v[0] for v in vs)}>), std::string({cstr(vs[i][1])}), "nth-value");')
        p = r.choice([("std::is_void", {"void"}), ("std::is_integral", {"int", "int const"}), ("std::is_reference", {"S &", "S const &&"})])
        for _ in range(4):
            t, u, k = r.choice(ts), r.choice(ts), r.random() < .5
            self.is_same(b, f"stdx::conditional_t<{str(k).lower()}, {t}, {u}>", t if k else u, "conditional")
            self.is_same(b, f"stdx::type_or_t<{p[0]}, {t}, {u}>", t if t in p[1] else u, "type-or")
            self.is_same(b, f"stdx::type_or_t<{p[0]}, {t}>", t if t in p[1] else "void", "type-or")
            self.true(b, f"stdx::has_trait<{t}, {p[0]}>", t in p[1], "has-trait")

    def same(self, b):
        r = self.r
        base = ["int", "S", "K<1>", "En", "Box<int>", "Box<int const>", "int *", "int const *"]

        def qualified():
            t = r.choice(base[:3] if r.random() < .7 else base)
            return t, t + r.choice(["", " const", " volatile", " const volatile"]) + r.choice(["", " &", " &&"])
        for _ in range(8):
            (t, tq), (u, uq) = qualified(), qualified()
            self.true(b, f"stdx::is_same_unqualified_v<{tq}, {uq}>", t == u, "same-unqualified")
            self.true(b, f"stdx::same_as_unqualified<{tq}, {uq}>", t == u, "same-unqualified")
            us = [qualified()[1] for _ in range(r.choice([0, 1, 2, 5, 20]))]
            if us and r.random() < .4:
                us[r.choice([0, -1, r.randrange(len(us))])] = tq
            self.true(b, f"stdx::same_any<{', '.join([tq] + us)}>", tq in us, "same-any")
            self.true(b, f"stdx::same_none<{', '.join([tq] + us)}>", tq not in us, "same-none")

    def special(self, b):
        r = self.r
        types = [("Box", f"Box<{r.choice(['int', 'K<1>', 'S &', 'void', 'Box<int>'])}>"), ("ns1::Box", "ns1::Box<int>"), ("Two", "Two<int, S>"),
                 ("Def", "Def<char>"), ("Def", "Def<char, S>"), ("Pack", f"Pack<{', '.join(['int', 'S &', 'void'][:r.randrange(4)])}>"),
                 ("std::vector", "std::vector<int>"), ("std::pair", "std::pair<int, S>"), ("std::tuple", "std::tuple<int, char, S>"),
                 ("std::optional", "std::optional<int>"), ("std::unique_ptr", "std::unique_ptr<K<3>>"), (None, "DBox"), (None, "int"),
                 (None, "S"), (None, "K<4>"), (None, "En"), (None, "int *"), (None, "Box<int> *"), (None, "std::array<int, 3>"), (None, "Box<int>[2]")]
        values = [("VBox", f"VBox<{_const(r, False)[0]}>"), ("VPack", f"VPack<{', '.join(_const(r, False)[0] for _ in range(r.randrange(5)))}>"),
                  ("stdx::value_list", "stdx::value_list<1, 'c'>"), (None, "DVBox"), (None, "VBox<1> *")]
        tt = sorted({t[0] for t in types if t[0]})
        vt = sorted({t[0] for t in values if t[0]})
        for _ in range(10):
            k, t = r.choice(types + values)
            cv = r.choice(["", "const "])
            u = k if k in tt and r.random() < .5 else r.choice(tt)
            want = k == u
            self.true(b, f"stdx::is_specialization_of_v<{cv}{t}, {u}>", want, "specialization")
            self.true(b, f"stdx::is_type_specialization_of_v<{cv}{t}, {u}>", want, "specialization")
            self.true(b, f"stdx::is_specialization_of<{cv}{t}, {u}>()", want, "specialization")
            u = k if k in vt and r.random() < .5 else r.choice(vt)
            want = k == u
            self.true(b, f"stdx::is_value_specialization_of_v<{cv}{t}, {u}>", want, "value-specialization")
            self.true(b, f"stdx::is_specialization_of<{cv}{t}, {u}>()", want, "value-specialization")
        both = [t for t in types + values if t[0] not in (None, "std::vector", "std::pair", "std::optional", "std::unique_ptr")]
        for _ in range(4):
            (k, t), (l, u) = r.choice(both), r.choice(both)
            self.true(b, f"stdx::is_same_template_v<{t}, {u}>", k == l, "same-template")
            self.true(b, f"stdx::same_template_as<{t}, {u}>", k == l, "same-template")
        # members of one class template, and of different specializations of it: each its own template
        def member():
            h = f"Holder<{r.choice(['int', 'Box<int>', 'Two<int, S>', 'VBox<' + _c28_char(r) + '>'])}>"
            a = r.choice(["int", "Box<S>", "K<2>"])
            m, args = r.choice([("First", a), ("Second", ", ".join([a] * r.randrange(3))), ("Third", _c28_char(r)), (f"Third<{_c28_char(r)}>::template Fourth", a)])
            return h + "::" + m, f"{h}::{'' if m.startswith('Third<') else 'template '}{m}<{args}>"
        for _ in range(4):
            (k, t), (l, u) = member(), member()
            if r.random() < .3:
                t = r.choice(["Holder<int>::Type", "Holder<Box<S>>::Type", "Outer::In"]) if r.random() < .5 else "Holder<int>"
                k = t
            self.true(b, f"stdx::is_same_template_v<{t}, {u}>", k == l, "same-template-member")
            self.true(b, f"stdx::same_template_as<{u}, {t}>", k == l, "same-template-member")
        t, u = r.choice([("Holder<int>::Type", "Holder<int>::In"), ("Box<int> *", "Box<int>"), ("Box<int> &", "Box<int>"), ("Box<int>[2]", "Box<int>"), ("Box<int> *", "Box<int> &"),
                         ("Holder<int>::Type", "Holder<long>::Type"), ("Holder<int>::Type", "Holder<int>"), ("Holder<int>", "Holder<int>::First<int>"), ("Box<int> (*)(S)", "Box<S>")])
        self.true(b, f"stdx::is_same_template_v<{t}, {u}>", False, "same-template-other")
        self.true(b, f"stdx::is_same_template_v<{u}, {t}>", False, "same-template-other")

    def kinds(self, b):
        r = self.r
        fn = ["int(char)", "void()", "int(char, ...)", "void() noexcept", "int(S) const", "int(S) const &", "int(S) volatile &&",
              "int(S) const volatile & noexcept", "int(S) &", "void(...) const", "auto() -> int (*)(char)"]
        obj = ["Functor", "FunctorNonConst", "FunctorRef", "Overloaded", "Generic", "GenericMutable", "GenericTwo", "Inherits", "InheritsGeneric",
               "PrivateCall", "AbstractCall", "VariadicCall", "Lambda", "LambdaMutable", "LambdaGeneric", "LambdaGeneric2",
               "std::function<void()>", "std::plus<>", "std::reference_wrapper<int(char)>"]
        no = ["int (*)(char)", "int (&)(char)", "int (S::*)(char)", "int S::*", "NamedCall", "Converts", "Un", "S", "En", "int", "int &", "void",
              "int *", "int[3]", "Functor *", "std::nullptr_t", "Box<Functor>", "std::string", "std::unique_ptr<Functor>", "bool const"]
        for _ in range(8):
            t = r.choice(r.choice([fn, obj, no]))
            q = r.choice(["", " const"]) if t in obj else ""
            self.true(b, f"stdx::is_function_v<{t}>", t in fn, "function")
            self.true(b, f"stdx::is_function_object_v<{t}{q}>", t in obj, "function-object")
            self.true(b, f"stdx::is_callable_v<{t}{q}>", t not in no, "callable")
            self.true(b, f"stdx::callable<{t}{q}>", t not in no, "callable")
        yes = ["int", "bool", "char", "unsigned long", "En", "Plain", "int *", "S *", "K<1> *", "int (*)(char)", "int S::*", "int (S::*)(char)", "int &",
               "S const &", "K<2> &", "std::string &", "Point", "Agg", "Built", "Built9", "Derived28", "Empty", "std::nullptr_t", "std::integral_constant<int, 3>",
               "stdx::ct_string<5>", "std::array<int, 3>", "std::pair<int, char>", "S"]
        not_ = ["Private", "PrivatePart", "ProtectedBase", "MutablePart", "NotLiteral", "NoConstexpr", "std::string", "std::vector<int>",
                "std::string_view", "std::optional<int>", "std::unique_ptr<int>", "int &&", "S &&", "std::pair<int, std::string>",
                "std::array<Private, 2>"]
        for _ in range(6):
            t = r.choice(r.choice([yes, not_]))
            self.true(b, f"stdx::is_structural_v<{t}>", t in yes, "structural")
            self.true(b, f"stdx::structural<{t}>", t in yes, "structural")
        for t, want in r.sample([("int", 1), ("S", 1), ("S[3]", 1), ("S[]", 0), ("K<8>", 0), ("K<8> *", 1), ("K<8>[3]", 0), ("Box<K<8>>", 1), ("En", 1),
                                 ("void", 0), ("Un", 1), ("std::unique_ptr<K<8>>", 1), ("int (*)()", 1), ("K<8> const", 0), ("S const", 1)], 5):
            self.true(b, f"stdx::is_complete_v<{t}>", want, "complete")
            self.true(b, f"stdx::complete<{t}>", want, "complete")

    def lists(self, b):
        r = self.r
        n = r.choice([0, 1, 2, 3, 5, 9, 20, 60])
        ts = [r.choice([(f"K<{i}>", i), (f"K<{i}> const", 10000 + i), ("int", -1), ("void", -2), ("S &", -3)]) for i in range(n)]
        lst = f"{r.choice(['stdx::type_list', 'std::tuple', 'Pack', 'c28::List'])}<{', '.join(t[0] for t in ts)}>"
        want = "".join(f"{t[1]} " for t in ts)
        b.append("std::string o; std::size_t n{};")
        b.append(f"stdx::template_for_each<{lst}>([&]<typename T> {{ o += std::to_string(c28::Num<T>::value) + ' '; }});")
        b.append(f'c.eq(o, std::string("{want}"), "for-each-type");')
        b.append(f"o.clear(); n = stdx::apply_sequence<{lst}>([&]<typename... Ts> {{ ((o += std::to_string(c28::Num<Ts>::value) + ' '), ...); return c28::Count{{sizeof...(Ts)}}; }}).n;")
        b.append(f'c.eq(o, std::string("{want}"), "apply-types"); c.eq(n, std::size_t{{{n}}}, "apply-types");')
        t, sn = r.choice([("int", "int"), ("char", "char"), ("unsigned long", "ulong"), ("long", "long"), ("short", "short"), ("bool", "bool")])
        if r.random() < .4:
            vs = [r.randrange(2) if t == "bool" else r.randrange(97, 122) for _ in range(n)]
            lst = f"std::integer_sequence<{', '.join([t] + [str(v) for v in vs])}>"
            vs = [f"{sn}:{chr(v) if t == 'char' else v}" for v in vs]
        else:
            vs = [_const(r, strings=False) for _ in range(n)]
            lst = f"{r.choice(['stdx::value_list', 'VPack'])}<{', '.join(v[0] for v in vs)}>"
            vs = [v[1] for v in vs]
        want = "".join(v + " " for v in vs)
        b.append(f"o.clear(); stdx::template_for_each<{lst}>([&]<auto V> {{ o += c28::show(V) + ' '; }});")
        b.append(f'c.eq(o, std::string({cstr(want)}), "for-each-value");')
        b.append(f"o.clear(); n = stdx::apply_sequence<{lst}>([&]<auto... Vs> {{ ((o += c28::show(Vs) + ' '), ...); return c28::Count{{sizeof...(Vs)}}; }}).n;")
        b.append(f'c.eq(o, std::string({cstr(want)}), "apply-values"); c.eq(n, std::size_t{{{n}}}, "apply-values");')
        # integer sequences as tuples
        t, sn = r.choice([("int", "int"), ("unsigned long", "ulong"), ("long", "long"), ("short", "short"), ("unsigned char", "uchar")])
        n = r.choice([0, 1, 2, 3, 7, 30])
        seq = r.choice([f"stdx::make_integer_sequence<{t}, {n}>"] * 2 + [f"stdx::make_index_sequence<{n}>",
                       f"stdx::index_sequence_for<{', '.join(r.choice(['int', 'S &', 'void']) for _ in range(n))}>"])
        if "index" in seq:
            t, sn = "unsigned long", "ulong"
        b.append(f"using Q = {seq};")
        self.true(b, "stdx::has_tuple_protocol<Q>", True, "sequence-tuple")
        b.append(f'c.eq(std::size_t{{stdx::tuple_size_v<Q>}}, std::size_t{{{n}}}, "sequence-size"); c.eq(std::tuple_size_v<Q>, std::size_t{{{n}}}, "sequence-size");')
        for i in r.sample(range(n), min(n, 4)):
            self.is_same(b, f"stdx::tuple_element_t<{i}, Q>", f"std::integral_constant<{t}, {i}>", "sequence-element")
            self.is_same(b, f"std::tuple_element_t<{i}, Q>", f"std::integral_constant<{t}, {i}>", "sequence-element")
            b.append(f'c.eq(c28::held_ct(get<{i}>(Q{{}})), std::string("{sn}:{i}"), "sequence-get");')
        if n == 3:
            b.append('{ auto [x, y, z] = Q{}; c.eq(c28::held_ct(x) + c28::held_ct(y) + c28::held_ct(z), '
                     f'std::string("{sn}:0{sn}:1{sn}:2"), "sequence-bindings"); }}')
        # tuple protocol
        for t, n, es in r.sample([("std::array<S, 3>", 3, ["S"] * 3), ("std::array<int, 0>", 0, []), ("std::array<int const, 2>", 2, ["int const"] * 2),
                                  ("std::pair<int &, S const>", 2, ["int &", "S const"]), ("stdx::tuple<int, S &, char const>", 3, ["int", "S &", "char const"]),
                                  ("stdx::tuple<>", 0, []), ("int", None, []), ("S", None, []), ("std::vector<int>", None, []), ("Box<int>", None, []), ("Sized28", None, []), ("stdx::ct_string<4>", None, [])], 5):
            cv = r.choice(["", " const", " &", " const &", " &&"])
            self.true(b, f"stdx::has_tuple_protocol<{t}{cv}>", n is not None, "tuple-protocol")
            self.true(b, f"stdx::tuplelike<{t}{cv}>", t.startswith("stdx::tuple<"), "tuplelike")
            self.true(b, f"stdx::has_array_protocol<{t}{cv}>", t.startswith("std::array"), "array-protocol")
            if n is not None:
                b.append(f'c.eq(std::size_t{{stdx::tuple_size_v<{t}>}}, std::size_t{{{n}}}, "tuple-size");')
                for i, e in enumerate(es):
                    self.is_same(b, f"stdx::tuple_element_t<{i}, {t}>", e, "tuple-element")

    def names(self, b):
        r = self.r
        ts = ["int", "char", "bool", "double", "void", "S", "Ta", "ns1::Tb", "ns1::ns2::Tc", "Outer::In", "Outer::Tmpl<int>", "Box<int>", "Box<S>", "ns1::Box<char>",
              "Two<int, char>", "Two<S, ns1::Tb>", "Pack<>", "Pack<int, char, S>", "Box<Box<int>>", "Two<Box<int>, Outer::Tmpl<S>>", "VBox<3>", "VBox<-3>", "VBox<true>",
              "VPack<>", "VPack<1, 2, 3>", "Holder<int>::Type", "Holder<Box<S>>::Type", "int*", "const int", "Ta*", "const Ta&", "Ta&&", "int[3]", "Ta*[2]", "K<17>",
              "En", "Plain", "ns1::Tone", "Outer::Kind", "Holder<int>::In", "int(char)", "void()", "int(*)(char)", "Box<int(char)>", "VBox<'a'>", "Un", "VBox<'='>", "Holder<VBox<'='>>::Type", "VPack<'=',';',' '>", "Holder<int>::First<char>"]
        for t in r.sample(ts, 8):
            b.append(f'c.eq(c28::squeeze(stdx::type_as_string<{t}>()), std::string({cstr(t.replace(" ", ""))}), "type-name");')
            if t.startswith("Holder<") and not t.endswith(">"):
                b.append(f'c.eq(c28::squeeze(stdx::template_base<{t}>()), std::string({cstr(t)}), "template-base");')
            elif "<" in t and "(" not in t and not t.startswith("Holder<"):
                b.append(f'c.eq(std::string(stdx::template_base<{t}>()), std::string({cstr(t.split("<")[0])}), "template-base");')
        for _ in range(2):
            h, a = r.choice(["int", "Box<int>", "Two<S,char>", "Holder<int>::First<int>"]), r.choice(["int", "Box<S>", "Holder<S>::Type", "Holder<int>::First<S>"])
            for t, k in [(f"Holder<{h}>::First<{a}>", f"Holder<{h}>::First"), (f"Holder<{h}>::Second<{a},{a}>", f"Holder<{h}>::Second"), (f"Box<Holder<{h}>::First<{a}>>", "Box"),
                         (f"Holder<{h}>::Third<5>::Fourth<{a}>", f"Holder<{h}>::Third<5>::Fourth")]:
                b.append(f'c.eq(c28::squeeze(stdx::template_base<{t}>()), std::string({cstr(k)}), "template-base-member");')
            v = _c28_char(r)
            for t, k in [(f"VBox<{v}>", "VBox"), (f"VPack<{v}, {_c28_char(r)}>", "VPack"), (f"Holder<int>::Third<{v}>", "Holder<int>::Third"), (f"Holder<VBox<5>>::Third<{v}>", "Holder<VBox<5>>::Third")]:
                b.append(f'c.eq(c28::squeeze(stdx::template_base<{t}>()), std::string({cstr(k)}), "template-base-value");')
            v = "".join(r.choice("ab<>(:,=") for _ in range(r.randrange(6)))
            b.append(f'{{ auto tb = std::string(stdx::template_base<stdx::cts_t<stdx::ct_string{{{cstr(v)}}}>>()); c.eq(tb.substr(tb.find("cts_t") == std::string::npos ? 0 : tb.find("cts_t")), std::string("cts_t"), "template-base-string"); }}')
        b.append("enum struct Local { here, there = 12 }; enum LocalOld { near, far };")
        es = [("PlainA", "PlainA"), ("PlainB", "PlainB"), ("PlainC", "PlainC"), ("Colour::red", "red"), ("Colour::green", "green"), ("Colour::blue", "blue"),
              ("ns1::light", "light"), ("ns1::dark", "dark"), ("ns1::Tone::low", "low"), ("ns1::Tone::high", "high"), ("ns1::ns2::Tone::deep", "deep"),
              ("Outer::Kind::x", "x"), ("Outer::old2", "old2"), ("Holder<int>::In::y", "y"), ("Holder<Box<S>>::old1", "old1"), ("Local::here", "here"),
              ("Local::there", "there"), ("near", "near"), ("far", "far"), ("Holder<int (*)(char)>::In::x", "x"), ("Holder<int (*)(char)>::old2", "old2"),
              ("Holder<void()>::In::y", "y"), ("ns1::Tone{9}", "(ns1::Tone)9"), ("ns1::Tone{-9}", "(ns1::Tone)-9"), ("Outer::Kind{77}", "(Outer::Kind)77"),
              ("ns1::ns2::Tone{123456789}", "(ns1::ns2::Tone)123456789"), ("En::c", "c"), ("Holder<VBox<1>>::In{12}", "(Holder<VBox<1>>::In)12"), ("Holder<VBox<'='>>::In{12}", "(Holder<VBox<'='>>::In)12"), ("Holder<VBox<'='>>::In::y", "y"), ("Holder<VBox<':'>>::In::x", "x"), ("Holder<VBox<')'>>::old2", "old2")]
        for e, want in r.sample(es, 8):
            b.append(f'c.eq(c28::squeeze(stdx::enum_as_string<{e}>()), std::string({cstr(want.replace(" ", ""))}), "enum-name");')

    def wrapped(self, b):
        r = self.r
        eq = lambda got, want, key: b.append(f'c.eq({got}, std::string({cstr(want)}), "{key}");')
        for i in range(4):
            v, s = _const(r, strings=False)
            b.append("{")
            b.append(f"constexpr auto w = CX_VALUE({v}); using W = std::remove_const_t<decltype(w)>;")
            eq("c28::held(W{})", s, "cx-value")
            eq("c28::show(w())", s, "cx-value")
            self.true(b, "stdx::is_cx_value_v<W>", True, "cx-value")
            eq(f"c28::held_ct(stdx::ct<{v}>())", s, "ct")
            eq(f"c28::held_ct(stdx::ct<stdx::ct<{v}>()>())", s, "ct-of-ct") if not v.startswith("Point") and r.random() < .3 else None
            self.true(b, f"stdx::is_ct_v<decltype(stdx::ct<{v}>())>", True, "is-ct")
            self.true(b, f"stdx::is_ct_v<decltype(stdx::ct<{v}>()) const>", True, "is-ct")
            b.append(f"auto run = {v}; constexpr static auto cx = {v};")
            self.true(b, "stdx::is_ct_v<decltype(run)>", False, "is-ct")
            self.true(b, "stdx::is_cx_value_v<decltype(run)>", False, "cx-value")
            eq(f"c28::held_ct(CT_WRAP({v}))", s, "ct-wrap")
            eq("c28::held_ct(CT_WRAP(cx))", s, "ct-wrap")
            eq("c28::show(CT_WRAP(run))", s, "ct-wrap-run")
            eq(f"c28::held_ct(CT_WRAP(stdx::ct<{v}>()))", s, "ct-wrap-twice")
            eq(f"c28::held(CX_WRAP({v}))", s, "cx-wrap")
            eq("c28::show(CX_WRAP(run))", s, "cx-wrap-run")
            eq("c28::held(CX_WRAP(w))", s, "cx-wrap-twice")
            self.true(b, f"STDX_IS_TYPE({v})", False, "is-type")
            self.true(b, "STDX_IS_TYPE(run)", False, "is-type")
            b.append("}")
        s = "".join(r.choice("abc") for _ in range(r.randrange(8)))
        b.append(f"{{ constexpr auto w = CX_VALUE(std::string_view{{{cstr(s)}}});")
        eq("c28::show(w())", "view:" + s, "cx-value")
        eq("c28::held(w)", "view:" + s, "cx-value")
        b.append("}")
        for t in r.sample(["int", "char", "En", "Point", "S", "Box<int>", "Two<int, char>", "int *", "Pack<>", "unsigned long", "VPack<1, 2>"], 3):
            self.is_same(b, f"decltype(CX_VALUE({t})())", f"stdx::type_identity<{t}>", "cx-value-type")
            self.is_same(b, f"decltype(CX_WRAP({t}))", f"stdx::type_identity<{t}>", "cx-wrap-type")
            self.is_same(b, f"decltype(stdx::ct<{t}>())", f"stdx::type_identity<{t}>", "ct-type")
            self.is_same(b, f"decltype(CT_WRAP(stdx::ct<{t}>()))", f"stdx::type_identity<{t}>", "ct-wrap-type")
            self.true(b, f"STDX_IS_TYPE({t})", True, "is-type")
            self.true(b, f"stdx::is_ct_v<decltype(stdx::ct<{t}>())>", True, "is-ct")
            self.true(b, f"stdx::is_ct_v<{t}>", False, "is-ct")
        for t in r.sample(["S", "Point", "Box<int>", "K<3>", "Pack<int, char, void>", "std::string", "K<4> &", "int"], 3):
            self.is_same(b, f"stdx::expand_t<stdx::shrink_t<{t}>>", t, "shrink-expand")
            self.is_same(b, f"stdx::expand_t<{t}>", t, "expand")
            self.true(b, f"std::is_same_v<stdx::shrink_t<{t}>, stdx::shrink_t<{t}>>", True, "shrink")


_C28_KINDS = ["signature"] * 6 + ["generic", "packs", "same", "special", "kinds", "lists", "names", "wrapped"]


def shapes(seed, k, n):
    r = random.Random(f"c28 {seed} {k}")
    p = Prog("c28.hpp")
    for i in range(n):
        b = []
        what = _C28_KINDS[i % len(_C28_KINDS)]
        getattr(_C28(r), what)(b)
        p.case(f'c.op("{what}", {cstr(" ".join(b)[:600])});\n' + "\n".join(b))
    return p.text()


# ---- C26 ----------------------------------------------------------------------------------------------------------

def _c26_workloads(r):
    elem = lambda: r.choice(["int", "Pt", "Own", "unsigned char"])
    key = lambda: r.choice(["int", "Pt", "short"])
    word = lambda: "std::uint%d_t" % r.choice([8, 16, 32, 64])
    return [
        lambda: f"vector_w<{elem()}, {r.randint(1, 9)}>",
        lambda: f"vector_w<Own, {r.randint(2, 5)}>",
        lambda: f"queue_w<{elem()}, {r.randint(1, 7)}>",
        lambda: f"queue_w<Own, {r.randint(2, 5)}>",
        lambda: f"map_w<{key()}, {elem()}, {r.randint(1, 6)}>",
        lambda: f"map_w<int, Own, {r.randint(2, 6)}>",
        lambda: f"multimap_w<{key()}, {r.choice(['int', 'Pt'])}, {r.randint(1, 4)}, {r.randint(1, 3)}>",
        lambda: f"bitset_w<std::size_t{{{r.choice([1, 7, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 100, 129])}}}, {word()}>",
        lambda: f"bitset_w<std::size_t{{{r.randint(1, 140)}}}, {word()}>",
        lambda: f"bitset_w<std::size_t{{{r.choice([8, 16, 32]) * r.randint(3, 5) + r.randint(-1, 1)}}}, std::uint{r.choice([8, 16, 32])}_t>",
        lambda: f"bitset_w<std::size_t{{{r.randint(33, 90)}}}, std::uint{r.choice([8, 16])}_t>",
        lambda: f"bitset_w<Bits::max, {word()}>",
        lambda: "bits_w<std::uint8_t>",
        lambda: "bits_w<std::uint16_t>",
        lambda: "bits_w<std::uint32_t>",
        lambda: "bits_w<std::uint64_t>",
        lambda: "type_bitset_w",
        lambda: f"rollover_w<{word()}>",
        lambda: "rollover_w<std::uint16_t>",
        lambda: f"saturate_w<{r.choice(['signed char', 'short', 'int', 'long', 'unsigned char', 'unsigned short', 'unsigned', 'unsigned long'])}>",
        lambda: "saturate_w<long>",
        lambda: f"list_w<stdx::node_policy::{r.choice(['checked', 'unchecked'])}>",
        lambda: f"forward_list_w<stdx::node_policy::{r.choice(['checked', 'unchecked'])}>",
        lambda: "optional_w<En>",
        lambda: "optional_w<Pt>",
        lambda: "optional_w<Own>",
        lambda: "latched_w",
        lambda: "tuple_w",
        lambda: "indexed_tuple_w",
        lambda: "algorithm_w",
        lambda: "span_w",
        lambda: "misc_w",
    ]


def constants(seed, k, rounds):
    r = random.Random(f"c26 {seed} {k}")
    out = ['#include "c26.hpp"', "using namespace c26;"]
    i = 0
    for _ in range(rounds):
        for w in _c26_workloads(r):
            out.append(f"VF_TWICE(h{k}_{i}, {r.getrandbits(63)}u, {r.randint(12, 44)}, {w()})")
            i += 1
    return "\n".join(out) + "\n"


# ---- C29: the preprocessor map, formatted static assertions, forwarding ---------------------------------------------

class _C29:
    """One generated use of the macros; every argument list is known here, so is what it must expand to."""

    def __init__(self, r, i):
        self.r, self.i = r, i

    def length(self):
        r = self.r
        return r.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, 8, 9, 26, 27, 28, r.randrange(10, 80), r.randrange(80, 130), r.randrange(200, 360)])

    def value(self):
        """An argument that is an expression: text, value shown."""
        r = self.r
        k = r.choice(["int", "int", "neg", "paren", "comma", "call", "str", "char", "cast", "tern", "parens", "un"])
        a, b = r.randrange(1000), r.randrange(1000)
        return {"int": (str(a), str(a)), "neg": (f"-{a}", str(-a)), "paren": (f"({a})", str(a)),
                "comma": (f"((void){a},{b})", str(b)), "call": (f"c29::add({a},{b})", str(a + b)),
                "str": (f'"s,{a})("', f"s,{a})("), "char": ("','", "44"), "cast": (f"(int)({a})", str(a)),
                "tern": (f"{a}<{b}?{a}:{b}", str(min(a, b))), "parens": (f"(({a})+({b}))", str(a + b)),
                "un": (f"(c29::neg)({a})", str(-a))}[k]

    def tokens(self):
        """An argument that need not be an expression."""
        r = self.r
        n = f"n{r.randrange(1000)}"
        return r.choice([n, n, "+", "<", "int", "const char*", "[", "]", ";", "...", "()", "(,)", "()()", "(a,b)(c)", "{}", "x=1",
                         "if", f"{n}.{n}", f"{n}->x", f"&{n}", '","', "0x1p3", "f(a,(b,c))", "::", f"~{n}", "!", "return 0"])

    def text(self, b):
        args = [self.tokens() for _ in range(self.length())]
        f = self.r.choice(["f", "g", "std::move", "sizeof", "int", "x.y", "decltype"])
        want = ",".join(f"{f}({a})" for a in args).replace(" ", "")
        b.append(f'c.eq(c29::squeeze(VF_TEXT(STDX_MAP({", ".join([f] + args)}))), {_sv(want)}, "expansion");')
        return len(args)

    def calls(self, b):
        args = [self.value() for _ in range(self.length())]
        b.append("c29::Log log; c29::Note note{&log};")
        f = "note" if self.r.random() < .5 else "c29::Note{&log}"
        pre, post = self.r.choice([("", ""), ("7, ", ""), ("", ", 7"), ("7, ", ", 8")])
        if not args:
            pre, post = self.r.choice([("", ""), ("7, ", ""), ("", "7")])
        extra = sum(ch in "78" for ch in pre + post)
        b.append(f'std::vector<int> const v{{{pre}STDX_MAP({", ".join([f] + [a for a, _ in args])}){post}}};')
        b.append(f'c.eq(v.size(), std::size_t{{{len(args) + extra}}}, "length");')
        b.append(f'c.eq(c29::join(log), {_sv("|".join([str(len(args))] + [v for _, v in args]))}, "applied");')
        return len(args)

    def once(self, b):
        n = self.length()
        b.append("c29::Log log; c29::Note note{&log}; c29::Counter next;")
        b.append(f'std::vector<int> const v{{STDX_MAP({", ".join(["note"] + ["next()"] * n)})}};')
        b.append(f'c.eq(next.n, {n}, "evaluated");')
        b.append(f'c.eq(c29::join(log), {_sv("|".join([str(n)] + [str(i) for i in range(n)]))}, "order");')
        return n

    def enums(self, b):
        n = max(1, self.length())
        names = [f"e{i}" for i in range(n)]
        self.r.shuffle(names)
        b.append("#define VF_ENUM(x) en_##x")
        b.append(f'enum En : int {{ STDX_MAP({", ".join(["VF_ENUM"] + names)}) }};')
        b.append("#undef VF_ENUM")
        for at in {0, n - 1, self.r.randrange(n), self.r.randrange(n)}:
            b.append(f'c.eq(static_cast<int>(en_{names[at]}), {at}, "enumerator");')
        return n

    def types(self, b):
        n = min(self.length(), 130)
        pool = ["int", "char", "long", "Gadget", "Widget*", "unsigned char", "double", "Colour", "void*"]
        ts = [self.r.choice(pool) for _ in range(n)]
        b.append("#define VF_TYPE(x) stdx::type_identity<x>")
        b.append(f'using got = c29::Types<STDX_MAP({", ".join(["VF_TYPE"] + ts)})>;')
        b.append("#undef VF_TYPE")
        want = ", ".join(f"stdx::type_identity<{t}>" for t in ts)
        b.append(f'c.check(std::is_same_v<got, c29::Types<{want}>>, "types", "other types");')
        return len(ts)

    def declare(self, b):
        n = max(1, min(self.length(), 130))
        b.append("c29::Counter next;")
        b.append("#define VF_DECL(x) x = next()")
        b.append(f'int {"STDX_MAP(" + ", ".join(["VF_DECL"] + [f"d{i}" for i in range(n)]) + ")"};')
        b.append("#undef VF_DECL")
        for at in sorted({0, n - 1, self.r.randrange(n)}):
            b.append(f'c.eq(d{at}, {at}, "declared");')
        return n

    def asserts(self, b):
        r = self.r
        g = _C24(r)
        n = r.choice([0, 0, 1, 1, 2, 3, 5, 9])
        fmt, args = "", []
        for _ in range(n):
            e, spec, _ = g.ct(True)
            while e.startswith("Widget") or "\0" in e:
                e, spec, _ = g.ct(True)
            fmt += g.literal(False) + "{" + spec + "}"
            args.append(e)
        fmt += g.literal(False)
        cond = r.choice(["true", "(3 > 2)", "sizeof(char) == 1", "not false", "yes", "yes and not no", "(std::is_same_v<int, int>)", "no or yes"])
        b.append("[[maybe_unused]] constexpr auto yes = true; [[maybe_unused]] constexpr auto no = false;")
        call = f'STATIC_ASSERT({", ".join([cond, cstr(fmt)] + args)})'
        how = r.choice(["run", "static", "template", "init"])
        if how == "run":
            b.append(f'c.check({call}, "asserted", "a true condition yields false");')
        elif how == "static":
            b.append(f"static_assert({call});")
            b.append('c.check(true, "asserted", "");')
        elif how == "template":
            call = f'STATIC_ASSERT({", ".join(["(sizeof(T) >= 1)", cstr(fmt)] + args)})'
            b.append(f"auto const f = []<typename T>(T const &) -> bool {{ return {call}; }};")
            b.append('c.check(f(1) and f(2.0) and f(Gadget{}), "asserted", "a true condition yields false");')
        else:
            b.append(f"bool const ok = {call};")
            b.append('c.eq(ok, true, "asserted");')
        return n

    def forward(self, b):
        r = self.r
        t, init = r.choice([("int", "5"), ("std::string", '"abc"'), ("Gadget", ""), ("std::vector<int>", "1, 2")])
        cat = r.choice(["&", "const&", "&&", "const&&"])
        give = {"&": "o", "const&": "std::as_const(o)", "&&": "std::move(o)", "const&&": "std::move(std::as_const(o))"}[cat]
        par = r.choice(["auto &&x", f"{t} {'const ' if 'const' in cat else ''}{'&&' if '&&' in cat else '&'}x"])
        b.append(f"{t} o{{{init}}}; c29::Sink s;")
        b.append(f"auto f = [&]({par}) -> decltype(auto) {{ return s(FWD(x)); }};")
        b.append(f"auto &&back = f({give});")
        b.append('c.check(s.at == std::addressof(o) and std::addressof(back) == std::addressof(o), "object", "another object arrives");')
        b.append(f'c.eq(s.cat, std::string("{cat}"), "category");')
        if r.random() < .5:
            b.append("auto all = [&](auto &&...xs) { std::string k; (((void)s(FWD(xs)), k += s.cat + ';'), ...); return k; };")
            b.append(f'c.eq(all(o, std::as_const(o), std::move(o), {give}), std::string("&;const&;&&;{cat};"), "categories");')
        return 1


def macros(seed, k, n):
    r = random.Random(f"c29 {seed} {k}")
    p = Prog("c29.hpp")
    p.decl("using namespace stdx::literals;\nusing namespace std::string_view_literals;")
    kinds = ["text", "calls", "once", "asserts", "forward", "enums", "types", "declare"]
    for i in range(n):
        b = []
        what = kinds[i % len(kinds)]
        size = getattr(_C29(r, i), what)(b)
        p.case(f'c.op("{what}", {size}, {cstr(" ".join(b)[:300])});\n' + "\n".join(b))
    return p.text()
