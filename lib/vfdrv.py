"""Driver: builds monitored programs from /repo's working tree, runs them, judges the outcome."""
import array, concurrent.futures as cf, copy, fnmatch, hashlib, json, os, pathlib, re, shutil, signal, struct
import subprocess, sys, threading, time, zlib

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
HARNESS = VERIF / "harness"
BUILD = VERIF / "build"
EVID = VERIF / "evidence"
CORES = os.cpu_count() or 8

COMPILERS = {"g": ["g++-13", "g++"], "c": ["clang++-18", "clang++"]}
SAN = {
    "au": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "t": ["-fsanitize=thread"],
    "none": [],
}
RUN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=98:handle_abort=1:"
                    "detect_stack_use_after_return=1:malloc_context_size=6:detect_odr_violation=0:"
                    "allocator_may_return_null=0:hard_rss_limit_mb=6000",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=98:history_size=4",
}


class CheckError(Exception):
    pass


class Unit:
    """One program to build and run."""

    def __init__(self, name, src, comp="g", std=23, san="au", opt="-O1", defs=(), quick=1000, thorough=20000,
                 shards=2, inc=(), libs=(), compile_violation=True, wd=None, extra_args=(), tier=None, text=None,
                 min_cases=1):
        self.name, self.src, self.comp, self.std, self.san, self.opt = name, src, comp, std, san, opt
        self.defs, self.quick, self.thorough, self.shards = list(defs), quick, thorough, shards
        self.inc, self.libs, self.compile_violation = list(inc), list(libs), compile_violation
        self.extra_args, self.tier, self.text, self.min_cases = list(extra_args), tier, text, min_cases
        self.sub = zlib.crc32(name.encode())  # units of one check see different histories
        self.describe()

    def describe(self):
        self.config = (f"{COMPILERS[self.comp][0]} -std=c++{self.std} {self.opt} san={self.san} "
                       f"{' '.join(self.defs)}").strip()


def compiler(c):
    for cand in COMPILERS[c]:
        p = shutil.which(cand)
        if p:
            return p
    raise CheckError(f"no compiler for {c}")


_tree_hash = None


def tree_hash():
    global _tree_hash
    if _tree_hash is None:
        h = hashlib.sha256()
        for root in (REPO / "include", HARNESS):
            for p in sorted(root.rglob("*")):
                if p.is_file() and p.suffix in (".hpp", ".h", ".inc"):
                    h.update(str(p.relative_to(root)).encode() + b"\0")
                    h.update(p.read_bytes())
        _tree_hash = h.hexdigest()
    return _tree_hash


def unit_flags(unit):
    flags = [f"-std=c++{unit.std}", unit.opt, "-g1", "-w", "-pthread", "-fno-omit-frame-pointer",
             "-D_GLIBCXX_ASSERTIONS", f"-I{REPO}/include", f"-I{HARNESS}"]
    flags += SAN[unit.san]
    flags += [f"-I{i}" for i in unit.inc] + [f"-D{d}" for d in unit.defs]
    if unit.comp == "c":
        flags += ["-fconstexpr-steps=100000000", "-ftemplate-depth=2000"]
    else:
        flags += ["-fconstexpr-ops-limit=1000000000", "-fconstexpr-loop-limit=10000000", "-ftemplate-depth=2000"]
    return flags


# Every program compiles in less than 1 GB; one that takes off must not take the machine with it.
LIMITED = ["sh", "-c", 'ulimit -v 4194304; exec "$@"', "sh"]
EXHAUSTED = re.compile(r"out of memory|virtual memory exhausted|bad_alloc|Cannot allocate memory")


def build(unit, log):
    src = unit.src if os.path.isabs(str(unit.src)) else str(HARNESS / unit.src)
    flags = unit_flags(unit)
    cc = compiler(unit.comp)
    text = unit.text if unit.text is not None else pathlib.Path(src).read_text()
    key = hashlib.sha256("\0".join([cc, *flags, text, tree_hash(), *unit.libs]).encode()).hexdigest()[:24]
    d = BUILD / key
    exe = d / "prog"
    if exe.exists():
        return exe
    d.mkdir(parents=True, exist_ok=True)
    if unit.text is not None:
        src = str(d / (unit.name + ".cpp"))
        pathlib.Path(src).write_text(unit.text)
    tmp = d / f"prog.{os.getpid()}.{threading.get_ident()}"
    cmd = [cc, *flags, src, "-o", str(tmp), *unit.libs]
    t0 = time.time()
    try:
        r = subprocess.run([*LIMITED, *cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800, text=True,
                           errors="replace")
    except subprocess.TimeoutExpired:
        raise CheckError(f"{unit.name}: compiler ran out of time")
    log(f"compiled {unit.name} [{unit.config}] in {time.time() - t0:.1f}s rc={r.returncode}")
    if r.returncode != 0:
        e = CheckError(f"{unit.name}: does not compile\n$ {' '.join(cmd)}\n{r.stdout[:2500]}")
        e.compile_output = r.stdout
        e.cmd = cmd
        raise e
    os.replace(tmp, exe)
    return exe


def headers_compile(unit):
    """Do the library headers of a rejected program compile on their own, with the same flags?"""
    src = unit.src if os.path.isabs(str(unit.src)) else str(HARNESS / unit.src)
    text = unit.text if unit.text is not None else pathlib.Path(src).read_text()
    keep, seen = [], set()

    def directives(text):  # of the program and of the harness's own headers, without any code that uses the library
        more = False
        for line in text.splitlines():
            if more or re.match(r"\s*#", line):
                m = re.match(r'\s*#\s*include\s*"([^"]+)"', line)
                own = HARNESS / m.group(1) if m and not more else None
                if own and own.is_file():
                    if own not in seen:
                        seen.add(own)
                        directives(own.read_text())
                elif not re.match(r"\s*#\s*pragma\s+once", line):
                    keep.append(line)
                    more = line.rstrip().endswith("\\")
                    continue
            more = False

    directives(text)
    probe = "\n".join(keep) + "\nint vf_probe;\n"
    cmd = [compiler(unit.comp), *unit_flags(unit), "-DVF_NO_MAIN", "-fsyntax-only", "-x", "c++", "-"]
    try:
        r = subprocess.run([*LIMITED, *cmd], input=probe, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300, text=True)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 0


def build_somehow(unit, log):
    """Builds a unit as specified or, where the library's headers by themselves are too much for that compiler or language
    mode, as the repository's own tests are built; the unit is changed accordingly."""
    try:
        return build(unit, log)
    except CheckError as e:
        if getattr(e, "compile_output", None) is None or (unit.comp, unit.std) == ("g", 23) or headers_compile(unit):
            raise
        other = copy.copy(unit)
        other.comp, other.std = "g", 23
        other.describe()
        try:
            exe = build(other, log)
        except CheckError as f:
            if headers_compile(other):  # the program is rejected for its own sake
                unit.comp, unit.std = "g", 23
                unit.describe()
                raise f
            raise e
        log(f"{unit.name}: the headers do not compile with {unit.config}")
        unit.comp, unit.std = "g", 23
        unit.describe()
        return exe


def read_progress(p):
    try:
        b = pathlib.Path(p).read_bytes()
        return b[:64].split(b"\0")[0].decode(), struct.unpack("<Q", b[64:72])[0]
    except Exception:
        return "?", 0


def classify(err, rc):
    """Key for an abnormal end, or None when there is no sanitizer/assertion evidence in the output."""
    m = re.search(r"ERROR: AddressSanitizer: hard rss limit exhausted", err)
    if m:
        return "memory-exhausted"
    frame = re.search(r"include/stdx/([\w/]+\.hpp)", err[err.find("#0") if "#0" in err else 0:])
    where = ":" + frame.group(1) if frame else ""
    m = re.search(r"runtime error: (.*)", err)
    if m:
        what = re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1))[:80].strip()
        w = re.search(r"include/stdx/([\w/]+\.hpp):\d+:\d+: runtime error", err)
        return f"ubsan:{what}:{w.group(1) if w else where[1:]}"
    m = re.search(r"Assertion '([^']*)' failed", err)
    if m:
        return f"assert:{m.group(1)[:60]}{where}"
    m = re.search(r"terminate called after throwing an instance of '([^']*)'", err)
    if m:
        return f"terminate:{m.group(1)}"
    m = re.search(r"(AddressSanitizer|ThreadSanitizer|LeakSanitizer): ([\w -]+?)(?: on | \(|\n|:)", err)
    if m:
        return f"san:{m.group(2).strip().replace(' ', '-')}{where}"
    if rc is not None and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE,
                                             signal.SIGABRT, signal.SIGTRAP):
        return f"signal:{signal.Signals(-rc).name}"
    return None


class Result:
    def __init__(self):
        self.cases = self.checks = self.ops = 0
        self.events = {}
        self.digests = {}
        self.case_hashes, self.states = set(), set()
        self.samples, self.violations, self.units = [], [], []
        self.errors = []
        self.lock = threading.Lock()


class Runner:
    def __init__(self, prop, seed, tier, verbose=False):
        self.prop, self.seed, self.tier, self.verbose = prop, seed, tier, verbose
        self.res = Result()
        self.t0 = time.time()
        self.work = BUILD / "run" / f"{prop}-{os.getpid()}"
        shutil.rmtree(self.work, ignore_errors=True)
        self.work.mkdir(parents=True)
        self.wall = 280 if tier == "quick" else 3600
        self.stop = False

    def log(self, *a):
        print(f"[{time.time() - self.t0:6.1f}s]", *a, file=sys.stderr, flush=True)

    def execute(self, unit_sub, exe, args, tag, timeout=None):
        out, prog = self.work / f"{tag}.json", self.work / f"{tag}.progress"
        for p in (out, prog):
            if p.exists():
                p.unlink()
        env = dict(os.environ, **RUN_ENV)
        try:
            r = subprocess.run([str(exe), "--seed", str(self.seed ^ unit_sub), "--out", str(out), "--progress", str(prog), *args],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=self.work,
                               timeout=timeout or self.wall)
            rc, err = r.returncode, r.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired as e:
            rc, err = None, (e.stderr or b"").decode(errors="replace")
        data = None
        if out.exists():
            try:
                data = json.loads(out.read_text())
            except ValueError:
                data = None
        return rc, err, data, read_progress(prog), out

    def absorb(self, unit, data, out):
        r = self.res
        with r.lock:
            r.cases += data["cases"]
            r.checks += data["checks"]
            r.ops += data["ops"]
            for k, v in data["events"].items():
                if k.startswith("="):  # the digest of one history: must be the same in every unit that runs it
                    name, digest = k[1:].split(":")
                    r.digests.setdefault(name, {}).setdefault(digest, []).append(unit)
                else:
                    r.events[k] = r.events.get(k, 0) + v
            for suffix, dst in ((".cases", r.case_hashes), (".states", r.states)):
                p = pathlib.Path(str(out) + suffix)
                if p.exists():
                    a = array.array("Q")
                    a.frombytes(p.read_bytes())
                    dst.update(a)
                    p.unlink()
            if len(r.samples) < 12:
                r.samples += [f"[{unit.name}] {s}" for s in data["samples"][:3]]

    def violation(self, unit, suite, case, key, msg, exe=None, err=""):
        with self.res.lock:
            self.res.violations.append(dict(unit=unit.name, config=unit.config, suite=suite, case=case, key=key,
                                            msg=msg, exe=str(exe) if exe else None, err=err[-8000:],
                                            args=unit.extra_args, sub=unit.sub))

    def error(self, msg):
        with self.res.lock:
            self.res.errors.append(msg)

    def run_shard(self, unit, exe, cases, shard, shards, attempt=0):
        tag = f"{unit.name}.{shard}"
        args = ["--cases", str(cases), "--shard", str(shard), "--shards", str(shards), *unit.extra_args]
        rc, err, data, (suite, case), out = self.execute(unit.sub, exe, args, tag)
        if rc in (0, 3) and data is not None:
            self.absorb(unit, data, out)
            for v in data["violations"]:
                self.violation(unit, v["suite"], v["case"], v["key"], v["msg"], exe)
            return
        if rc == 97:
            one = ["--suite", suite, "--case", str(case), *unit.extra_args]
            rc2, err2, data2, _, _ = self.execute(unit.sub, exe, one, tag + ".h")
            if rc2 == 97:
                self.violation(unit, suite, case, "hang", "case does not terminate (twice, CPU-time watchdog)", exe, err2)
            elif attempt == 0:
                self.run_shard(unit, exe, cases, shard, shards, 1)
            else:
                self.violation(unit, suite, case, "hang", "run does not terminate (twice, CPU-time watchdog)", exe, err)
            return
        if rc is None or rc == -signal.SIGKILL:
            if attempt == 0:
                self.run_shard(unit, exe, cases, shard, shards, 1)
            else:
                self.error(f"{unit.name}: inconclusive, {'wall-clock timeout' if rc is None else 'killed'} twice "
                           f"(suite {suite} case {case})")
            return
        key = classify(err, rc)
        if key is not None:
            self.violation(unit, suite, case, key, "abnormal end: " + key, exe, err)
        elif attempt == 0:
            self.run_shard(unit, exe, cases, shard, shards, 1)
        else:
            self.error(f"{unit.name}: ended with {rc} and no report twice\n{err[-2000:]}")

    def run_units(self, units):
        units = [u for u in units if u.tier is None or u.tier == self.tier]
        scale = float(os.environ.get("VERIF_SCALE", "1"))
        with cf.ThreadPoolExecutor(CORES) as pool:
            builds = {pool.submit(build_somehow, u, self.log): u for u in units}
            runs = []
            for f in cf.as_completed(builds):
                u = builds[f]
                try:
                    exe = f.result()
                except CheckError as e:
                    o = getattr(e, "compile_output", None)
                    if (u.compile_violation and o is not None and EXHAUSTED.search(o) and headers_compile(u)):
                        self.violation(u, "compile", 0, "compiler-exhausted",
                                       "a program that compiles in less than 1 GB takes more than 4 GB", None,
                                       " ".join(e.cmd) + "\n" + o[:4000])
                    elif (u.compile_violation and o is not None and "internal compiler error" not in o
                            and "Killed" not in o and "PLEASE submit a bug report" not in o and "No such file" not in o
                            and headers_compile(u)):
                        first = next((l for l in o.splitlines() if " error: " in l or "error:" in l), "error")
                        self.violation(u, "compile", 0, "rejected-by-compiler",
                                       "a program within the documented interface is rejected: " + first[:300],
                                       None, " ".join(e.cmd) + "\n" + o)
                    else:
                        self.error(str(e))
                    continue
                n = max(1, int((u.quick if self.tier == "quick" else u.thorough) * scale))
                shards = u.shards if self.tier == "quick" else max(u.shards, CORES if u.thorough > 2000 else u.shards)
                with self.res.lock:
                    self.res.units.append(f"{u.name}: {u.config}, {n} cases")
                for s in range(shards):
                    runs.append(pool.submit(self.run_shard, u, exe, n, s, shards))
            for f in cf.as_completed(runs):
                try:
                    f.result()
                except Exception as e:  # harness problem
                    self.error(f"driver: {e!r}")

        for name, by in sorted(self.res.digests.items()):
            self.res.events["histories_compared_across_units"] = self.res.events.get("histories_compared_across_units", 0) + 1
            if len(by) > 1:
                few = min(by.values(), key=len)
                where = "; ".join(f"{d}: " + ", ".join(u.config for u in us) for d, us in by.items())
                self.violation(few[0], name, 0, "configurations-differ", "the same history ends differently: " + where)

    # ---- verdict -------------------------------------------------------------------------------------------------
    def findings(self):
        p = VERIF / "known_findings.txt"
        pats = []
        if p.exists():
            for line in p.read_text().splitlines():
                m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", line)
                if m and m.group(1) == self.prop:
                    pats.append((m.group(2), m.group(3)))
        return pats

    def replay_file(self, v):
        d = EVID / "replay"
        d.mkdir(parents=True, exist_ok=True)
        name = re.sub(r"[^\w.-]+", "_", f"{self.prop}-{v['unit']}-{v['suite']}-{v['case']}-{v['key']}")[:150]
        f = d / (name + ".txt")
        body = [f"property {self.prop}", f"unit {v['unit']} ({v['config']})", f"suite {v['suite']} case {v['case']}",
                f"seed {self.seed} tier {self.tier}", f"key {v['key']}", f"what {v['msg']}",
                f"replay: cd {VERIF} && VERIF_SEED={self.seed} VERIF_TIER={self.tier} bin/check {self.prop} "
                f"--unit {v['unit']} --suite {v['suite']} --case {v['case']} --verbose", ""]
        if v["exe"]:
            rc, err, data, _, _ = self.execute(v["sub"], v["exe"], ["--suite", v["suite"], "--case", str(v["case"]), "--verbose",
                                                          *v["args"]], "replay", 120)
            v["reproduced"] = bool(data and data["violations"]) or rc not in (0, 3)
            body += ["--- trace of the replayed case ---", err[-12000:]]
        if v["err"]:
            body += ["--- report of the original run ---", v["err"]]
        f.write_text("\n".join(body) + "\n")
        return f

    def finish(self, level, rule, assumptions, min_cases=1, min_checks=1, extra=None, exhaustive=None):
        r = self.res
        known = self.findings()
        new, seen = [], {}
        for v in r.violations:
            ident = f"{v['suite']}:{v['key']}"
            hit = next((d for pat, d in known if fnmatch.fnmatch(ident, pat)), None)
            if hit is not None:
                seen[hit] = seen.get(hit, 0) + 1
            else:
                new.append(v)
        for d in seen:
            print(f"KNOWN-FINDING: property={self.prop} {d}")
        status = 0
        if new:
            uniq = {}
            for v in new:
                uniq.setdefault((v["suite"], v["key"]), v)
            for v in list(uniq.values())[:6]:
                f = self.replay_file(v)
                print(f"{v['unit']} {v['suite']}#{v['case']} {v['key']}: {v['msg']}")
                print(f"VIOLATION property={self.prop} replay={f}")
            status = 1
        elif r.errors:
            status = 2
        elif r.cases < min_cases or r.checks < min_checks:
            r.errors.append(f"observed too little: {r.cases} cases, {r.checks} comparisons")
            status = 2
        for e in r.errors:
            print("CHECK-ERROR:", e[:3000], file=sys.stderr)
        cov = {
            "evaluations": r.cases,
            "distinct_nontrivial": len(r.case_hashes),
            "rule": rule,
            "samples": r.samples[:8],
            "operations_observed": r.ops,
            "oracle_comparisons": r.checks,
            "distinct_states_observed": len(r.states),
            "events": r.events,
            "builds": sorted(r.units),
            "errors": [e[:500] for e in r.errors],
        }
        if exhaustive is not None:
            cov["exhaustive"] = exhaustive
        if extra:
            cov.update(extra)
        EVID.mkdir(exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": assumptions, "violations": len(new), "wall_s": round(time.time() - self.t0, 2)}
        tmp = EVID / f".{self.prop}.{os.getpid()}.tmp"
        tmp.write_text(json.dumps(ev, indent=1))
        os.replace(tmp, EVID / f"{self.prop}.json")
        shutil.rmtree(self.work, ignore_errors=True)
        verdict = {0: "held on everything observed", 1: "VIOLATED", 2: "inconclusive / error"}[status]
        print(f"{self.prop} {verdict}: {r.cases} cases ({len(r.case_hashes)} distinct), {r.ops} operations, "
              f"{r.checks} comparisons, {len(r.states)} states, {ev['wall_s']}s, seed {self.seed} {self.tier}")
        return status
