"""Which programs decide which property."""
import gen
import vfdrv
from vfdrv import Unit

SPECS = {}


class Spec:
    level = "exploration"
    rule = ("a case is one generated history; it is non-trivial when it executed at least one operation and at least "
            "one oracle comparison, and distinct by the hash of its operations, arguments and observed states")
    assumptions = ["g++-13 and clang++-18 with libstdc++ on x86-64; only generated in-contract histories are observed"]
    min_cases = 100
    min_checks = 1000

    def __init__(self, units, rule=None, assumptions=(), **kw):
        self.units = units if callable(units) else (lambda seed, tier: units)
        if rule:
            self.rule = rule
        self.assumptions = list(Spec.assumptions) + list(assumptions)
        for k, v in kw.items():
            setattr(self, k, v)

    def extra(self, runner):
        return None


MORE = 5  # compiling takes most of the quick tier; running this much more costs little


def both(stem, src, quick, thorough, **kw):
    """The same program from both compilers, in different language modes."""
    return [Unit(stem + "-gcc", src, "g", 23, quick=MORE * quick, thorough=thorough, **kw),
            Unit(stem + "-clang", src, "c", 20, quick=MORE * quick, thorough=thorough, **kw)]


def matrix(stem, src, quick, thorough, **kw):
    """both(), plus optimised builds and the other language modes in the thorough tier."""
    return both(stem, src, quick, thorough, **kw) + [
        Unit(stem + "-gcc-o2", src, "g", 20, opt="-O2", quick=quick, thorough=thorough, tier="thorough", **kw),
        Unit(stem + "-clang-o2", src, "c", 23, opt="-O2", quick=quick, thorough=thorough, tier="thorough", **kw)]


SPECS["C01"] = Spec(matrix("vec", "c01_cx_vector.cpp", 4000, 60000))
SPECS["C02"] = Spec(matrix("queue", "c02_cx_queue.cpp", 6000, 80000))
SPECS["C03"] = Spec(matrix("panic", "c03_panic.cpp", 5000, 60000)
                    + both("default", "c03_default.cpp", 200, 1000, shards=1))
SPECS["C04"] = Spec(matrix("assoc", "c04_cx_assoc.cpp", 4000, 50000))
SPECS["C05"] = Spec(matrix("lists", "c05_lists.cpp", 8000, 100000))


def c06(seed, tier):
    import random
    r = random.Random(f"c06 {seed}")
    us = []
    for part in (1, 2, 3):
        n = {1: 2500, 2: 1500, 3: 1200}[part]
        us += both(f"bits{part}", "c06_bitset.cpp", n, 12 * n, defs=[f"PART={part}"])
    for k in range(1 if tier == "quick" else 6):  # sizes and storage types chosen by the seed
        insts = []
        for _ in range(5):
            st = r.choice(["u8", "u16", "u32", "u64", "u8", "u16"])
            w = int(st[1:])
            n = r.choice([r.randrange(1, 140), w * r.randrange(1, 7), w * r.randrange(1, 7) + 1,
                          max(1, w * r.randrange(1, 7) - 1)])
            insts.append(f"B({n}, {st})")
        insts.append(f"B({r.choice([255, 256, 257, 300, 513, r.randrange(240, 600)])}, {r.choice(['u8', 'u16', 'u32', 'u64'])})")
        us.append(Unit(f"bitsX{k}", "c06_bitset.cpp", "gc"[(seed + k) % 2], 23 if k % 2 else 20,
                       defs=["PART=4", "VF_EXTRA=" + " ".join(sorted(set(insts)))], quick=MORE * 1000, thorough=12000))
    return us


SPECS["C06"] = Spec(c06, assumptions=["range operations are used with msb >= lsb and length >= 1, strings with pos <= size"])


def c07(seed, tier):
    import random
    r = random.Random(f"c07 {seed}")
    us = both("types", "c07_typeset.cpp", 2500, 40000, defs=["PART=1"])
    us += both("enums", "c07_typeset.cpp", 2500, 40000, defs=["PART=2"])
    for k in range(2 if tier == "quick" else 10):
        lists = []
        for _ in range(4):
            n, dom = r.randrange(1, 16), r.randrange(1, 24)
            lists.append("TS(" + ", ".join(str(r.randrange(dom)) for _ in range(n)) + ")")
        if k == 0:  # more types than any storage element has bits
            ids = list(range(8, 8 + r.randrange(66, 100)))
            r.shuffle(ids)
            lists.append("TS(" + ", ".join(map(str, ids)) + ")")
        us.append(Unit(f"typesX{k}", "c07_typeset.cpp", "gc"[(seed + k) % 2], 20 + 3 * (k // 2 % 2),
                       defs=["PART=4", "VF_EXTRA=" + " ".join(sorted(set(lists)))], quick=MORE * 1200, thorough=8000))
    return us


SPECS["C07"] = Spec(c07, assumptions=["set() without types sets all bits; its value argument is not used without types"])


def c09(seed, tier):
    us = []
    for part, n in ((1, 6000), (2, 4000)):
        for cfg in ("", "cfg"):
            for comp, std in (("g", 23), ("c", 20)):
                defs = [f"PART={part}"] + (['ATOMIC_CFG="c09_cfg.hpp"'] if cfg else [])
                us.append(Unit(f"seq{part}{cfg}-{comp}", "c09_atomic_seq.cpp", comp, std, defs=defs, quick=MORE * n,
                               thorough=15 * n))
    return us


CONC = ("the baremetal concurrency library is not available here; its atomic layer is replaced by harness/conc/atomic.hpp "
        "(same interface over compiler builtins, validated with the repository's own atomic tests)")
SPECS["C09"] = Spec(c09, assumptions=[CONC])


def c08(seed, tier):
    us = []
    for comp in "gc":
        std = 23 if comp == "g" else 20
        us.append(Unit(f"mt-{comp}-tsan", "c08_atomics_mt.cpp", comp, std, san="t", quick=36000, thorough=200000))
        us.append(Unit(f"mt-{comp}-o2", "c08_atomics_mt.cpp", comp, std, san="none", opt="-O2", quick=120000,
                       thorough=400000))
        us.append(Unit(f"mt-{comp}-cfg", "c08_atomics_mt.cpp", comp, std, san="au" if comp == "g" else "t",
                       defs=['ATOMIC_CFG="c09_cfg.hpp"'], quick=24000, thorough=400000))
    return us


SPECS["C08"] = Spec(c08, rule=(
    "a case is one multi-threaded program: 2-4 threads x 3-10 operations on one atomic, run three times with injected "
    "delays, every recorded history searched for a sequential explanation; or one publication of plain data through an "
    "atomic under ThreadSanitizer; distinct by program and observed results"), assumptions=[
    CONC, "interleavings are those the scheduler and the injected delays produced on x86-64"])


def c10(seed, tier):
    import random
    r = random.Random(f"c10 {seed}")
    us = []
    for comp, std, poly in (("g", 23, 0), ("g", 20, 1), ("c", 20, 1), ("c", 23, 0)):
        insts = []
        for _ in range(8):
            w = r.choice([8, 16, 32, 64])
            offs = sorted(r.sample(range(1, w), r.randint(1, min(6, w - 1))))
            insts.append(f"VF_INST(1, destructure, u{w}, {', '.join(map(str, offs))})")
        us.append(Unit(f"bit-{comp}{std}{'poly' if poly else ''}", "c10_bit.cpp", comp, std,
                       defs=(["POLY"] if poly else []) + ["VF_EXTRA=" + " ".join(insts)], quick=MORE * 6000, thorough=150000))
    return us


SPECS["C10"] = Spec(c10)

SPECS["C11"] = Spec(matrix("byte", "c11_byterator.cpp", 8000, 100000))
SPECS["C12"] = Spec(matrix("opt", "c12_optional.cpp", 8000, 100000))
SPECS["C13"] = Spec(matrix("cached", "c13_cached.cpp", 8000, 100000))
SPECS["C17"] = Spec(matrix("alg", "c17_algorithm.cpp", 8000, 100000),
                    assumptions=["counts passed to the _n forms are not negative"])
SPECS["C19"] = Spec(matrix("roll", "c19_rollover.cpp", 8000, 200000))


def c18(seed, tier):
    us = matrix("conv", "c18_convert.cpp", 3000, 60000)
    for k in range(2 if tier == "quick" else 12):
        us.append(Unit(f"lit{k}", f"lit{k}.cpp", "gc"[(seed + k) % 2], 20 + 3 * (k // 2 % 2), text=gen.literals(seed, k, 60),
                       quick=1, thorough=1, shards=1))
    return us


SPECS["C18"] = Spec(c18, assumptions=[
    "sizes whose total in bytes fits std::size_t; literals whose value fits the result type"])


def c20(seed, tier):
    us = []
    for part in (1, 2):
        us += matrix(f"span{part}", "c20_span.cpp", 3000, 60000, defs=[f"PART={part}"])
    return us


SPECS["C20"] = Spec(c20)
SPECS["C25"] = Spec(matrix("count", "c25_counting.cpp", 6000, 100000)
                    + both("rev", "c25_reverse.cpp", 50, 500, shards=1),
                    assumptions=["values and differences stay inside the iterator's integer type"])

C14_T = ["int", "int", "char", "bool", "long", "unsigned short", "double", "S", "S", "Em<0>", "Em<1>", "UP", "TP", "TR",
         "TM", "Part", "Weak", "int &", "S &", "int const &", "S const &", "int const", "S const", "int &&", "Em<0> const &",
         "UP &", "Part &", "TR const &"]
C14_X = [["int", "long", "short", "char", "double", "int &", "long const &", "bool"], ["S", "S const &", "S &", "S const"],
         ["Part", "Part &", "Part const &"], ["Weak", "Weak const"], ["Em<0>", "Em<0> const &"], ["TR", "TR const &"]]
C14_C = ["int", "char", "bool", "long", "Em<0>", "Em<1>", "Part", "Weak", "TP", "unsigned short", "double"]


def c14(seed, tier):
    import random
    r = random.Random(f"c14 {seed}")
    us = both("core", "c14_tuple.cpp", 3000, 30000, defs=["FIXED"], opt="-O0")
    for k in range(6 if tier == "quick" else 20):
        ins = []
        for i in range(3):
            n = r.choice([1, 2, 2, 3, 3, 4, 5, 6, 6, 11])
            pal = C14_T if r.random() < .7 else r.sample(C14_T, 3)
            ins.append("VF_INST(4, core, " + ", ".join(r.choice(pal) for _ in range(n)) + ")")
        for i in range(2):
            fam = [r.choice(C14_X) for _ in range(r.randrange(1, 5))]
            a, b = (", ".join(r.choice(f) for f in fam) for _ in "ab")
            ins.append(f"using XA{i} = L<{a}>; using XB{i} = L<{b}>; VF_INST(3, cross, XA{i}, XB{i})")
        vals = [t for t in C14_T if "&" not in t and "const" not in t]
        ks = r.sample(range(40), r.randrange(1, 5))
        ins.append("VF_INST(2, indexed, " + ", ".join(f"Ent<{i}, {r.choice(vals)}>" for i in ks) + ")")
        ins.append("VF_INST(1, constants, " + ", ".join(r.choice(C14_C) for _ in range(r.randrange(1, 6))) + ")")
        us.append(Unit(f"coreX{k}", "c14_tuple.cpp", "gc"[k % 2], 20 + 3 * (k // 2 % 2), opt="-O2" if k > 11 else "-O0",
                       defs=["VF_EXTRA=" + " ".join(ins)], quick=MORE * 2000, thorough=16000))
    return us


SPECS["C14"] = Spec(c14, assumptions=["access through a const rvalue tuple is taken as access through a const lvalue"])


def c15(seed, tier):
    return [Unit(f"alg{k}", f"alg{k}.cpp", "gc"[k % 2], 20 + 3 * (k // 2 % 2), text=gen.tuple_algs(seed, k, 80), opt="-O0",
                 quick=1, thorough=1, shards=1) for k in range(8 if tier == "quick" else 48)] \
        + [Unit(f"large{k}", "c15_large.cpp", "g", 23, san="none", opt="-O0", defs=[f"PART={k}"], quick=20, thorough=200,
                shards=1) for k in (1, 2)]  # clang nests 256 deep


SPECS["C15"] = Spec(c15, rule=(
    "a case is one generated call of an algorithm on generated tuples (types, lengths, reference kinds, value categories, "
    "tuple kinds), compiled and run; distinct by the generated text"), assumptions=[
    "filter, tuple_cons/tuple_snoc, to_unsorted_set and n-ary transform are not used on indexed tuples; "
    "cartesian_product is used on lvalue tuples"])


def c21(seed, tier):
    return [Unit(f"wrap{k}", f"wrap{k}.cpp", "gc"[k % 2], 20 + 3 * (k // 2 % 2), text=gen.wrappers(seed, k, 80), opt="-O0",
                 quick=1, thorough=1, shards=1) for k in range(8 if tier == "quick" else 48)] \
        + matrix("fun", "c21_functional.cpp", 1500, 20000)


SPECS["C21"] = Spec(c21, rule=(
    "a case is one generated bound callable with its calls, one generated batched call, or one history of a hand-written "
    "driver; distinct by the generated text or the values drawn"), assumptions=[
    "bind_front and bind_back are given callables that are called with f(args...), not pointers to members"])


def c22(seed, tier):
    return [Unit(f"need{k}", f"need{k}.cpp", "gc"[k % 2], 20 + 3 * (k // 2 % 2), text=gen.needs(seed, k, 60), opt="-O0",
                 quick=1, thorough=1, shards=1) for k in range(8 if tier == "quick" else 48)] \
        + both("twice", "c22_twice.cpp", 20, 200, shards=1)


SPECS["C22"] = Spec(c22, rule=(
    "a case is one generated call of call_by_need (functions, argument types, reference kinds, tuple categories), compiled "
    "and run; distinct by the generated text"), assumptions=[
    "functions are called with f(args...), not pointers to members, and do not distinguish how they themselves are "
    "qualified; the unused arguments and the results can be moved"])


def c16(seed, tier):
    us = matrix("life", "c16_life.cpp", 4000, 60000)
    for k in range(12 if tier == "quick" else 48):  # the generated programs of C15, C21 and C22 with registering elements
        what, fn = [("tuples", gen.tuple_algs), ("wraps", gen.wrappers), ("needs", gen.needs)][k // 2 % 3]
        us.append(Unit(f"{what}{k}", f"{what}{k}.cpp", "gc"[k % 2], 20 + 3 * (k // 2 % 2), text=fn(seed, k, 52, life=True),
                       defs=["VF_LIFE"], opt="-O0", quick=1, thorough=1, shards=1))
    return us


SPECS["C16"] = Spec(c16, rule=(
    "a case is one history, or one generated program of C15, C21 or C22 whose elements register their lifetime, run once "
    "as it is and once more for every copy that can be made to fail; distinct by operations, values and generated text"),
    assumptions=["elements are destroyed and moved without throwing; assignment of the element being replaced may leave "
                 "that element in either state when it throws"])


def c23(seed, tier):
    return [Unit(f"str{k}", f"str{k}.cpp", "gc"[k % 2], 20 + 3 * (k // 2 % 2), text=gen.strings(seed, k, 120), opt="-O0",
                 quick=1, thorough=1, shards=1) for k in range(8 if tier == "quick" else 64)]


SPECS["C23"] = Spec(c23, rule=(
    "a case is one generated group of operations on strings of generated text, compiled and run; distinct by the generated "
    "text"), assumptions=["a ct_string built from a pointer and a size, or a string_view, is given exactly as many characters "
                          "as its capacity leaves room for"])


def c24(seed, tier):
    return [Unit(f"fmt{k}", f"fmt{k}.cpp", "gc"[k % 2], 20 + 3 * (k // 2 % 2), text=gen.formats(seed, k, 26), opt="-O0",
                 defs=["STDX_FREESTANDING"], quick=1, thorough=1, shards=1) for k in range(12 if tier == "quick" else 64)]


SPECS["C24"] = Spec(c24, rule=(
    "a case is one generated format call with the results nested in it, compiled and run; distinct by the generated text"),
    assumptions=["the freestanding formatter of the library (STDX_FREESTANDING); no fmt library is installed here",
                 "boolean compile-time arguments are not used, nor escaped braces before a compile-time argument"])


def c27(seed, tier):
    return [Unit(f"look{k}", f"look{k}.cpp", "gc"[k % 2], 20 + 3 * (k // 2 % 2), text=gen.lookups(seed, k, 100), opt="-O0",
                 quick=1, thorough=1, shards=1) for k in range(8 if tier == "quick" else 64)]


SPECS["C27"] = Spec(c27, rule=(
    "a case is one generated chain of environments or one generated type map with every lookup in it; distinct by the generated text"),
    assumptions=["a query is bound once in one make_env or extend_env call; the keys of a type map are distinct",
                 "reverse lookups are made for values that occur once"])


def c28(seed, tier):
    us = [Unit(f"shape{k}", f"shape{k}.cpp", "gc"[k % 2], 20 + 3 * (k // 2 % 2), text=gen.shapes(seed, k, 210), opt="-O0",
               quick=1, thorough=1, shards=1) for k in range(8 if tier == "quick" else 64)]
    return us + both("concepts", "c28_concepts.cpp", 6, 6, shards=1)


SPECS["C28"] = Spec(c28, rule=(
    "a case is one generated signature, type list, set of types or set of values with every question asked about it; distinct by the generated text"),
    assumptions=["generic function objects take independent parameters, by value, const reference or forwarding reference",
                 "classes marked final are not asked whether they are function objects",
                 "spacing in type names is ignored: the two compilers differ"])


def c29(seed, tier):
    return [Unit(f"mac{k}", f"mac{k}.cpp", "gc"[k % 2], 20 + 3 * (k // 2 % 2), text=gen.macros(seed, k, 160), opt="-O0",
                 defs=["STDX_FREESTANDING"], quick=1, thorough=1, shards=1) for k in range(8 if tier == "quick" else 64)]


SPECS["C29"] = Spec(c29, rule=(
    "a case is one generated use of a macro with its whole argument list; distinct by the generated text"),
    assumptions=["no argument begins with three parenthesised groups in a row, which is how the end of the list is marked",
                 "rejection of a false STATIC_ASSERT is not observed: such a program does not run"])


def c26(seed, tier):
    return [Unit(f"c26_{k}{comp}{std}{'o' if o else 'u'}", f"c26_{k}{comp}{std}{'o' if o else 'u'}.cpp", comp, std,
                 "none" if o else "au", "-O2" if o else "-O0", text=gen.constants(seed, k, 2), quick=1, thorough=1, shards=1)
            for k in range(3 if tier == "quick" else 24) for comp in "gc" for std in (20, 23) for o in (0, 1)]


SPECS["C26"] = Spec(
    c26,
    rule="a case is one generated history in one configuration, distinct by the generated text: it (12 to 44 operations on one component, chosen by the seed) is run twice in every "
         "program: by the compiler's constant evaluator, which rejects undefined behaviour, leaks and uses after free, "
         "and at run time (address and undefined-behaviour sanitizers in the unoptimised builds). Every result "
         "observable after every step is digested. A case fails when the two digests differ at a step, when a "
         "compiler rejects the constant evaluation, or when the same history has different digests in two of the eight "
         "configurations {GCC, Clang} x {C++20, C++23} x {-O2, -O0 with sanitizers}.",
    assumptions=["addresses and floating-point values are not digested",
                 "the memory-owning element type is used with Clang only: GCC 13 evaluates implicit copies of arrays "
                 "of such a class wrongly, without the library too"])


def _hostile(cid):
    """Elements and iterators that overload what generic code must not use on them."""
    spec, part = SPECS[cid], int(cid[1:])
    units = spec.units

    def more(seed, tier):
        return units(seed, tier) + both("hostile", "hostile.cpp", 40, 400, defs=[f"PART={part}"], opt="-O0", shards=1)

    spec.units = more


for _id in ("C01", "C02", "C04", "C05", "C06", "C11", "C12", "C13", "C14", "C15", "C17", "C20", "C21", "C22", "C25"):
    _hostile(_id)
