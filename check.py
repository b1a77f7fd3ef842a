#!/usr/bin/env python3
"""Runs the runtime monitors that decide one property.

    python3 check.py C07            tier and seed from VERIF_TIER / VERIF_SEED
    python3 check.py C07 thorough

Exit 0: held on everything observed. Exit 1 (and a VIOLATION line): broken.
Exit 2: no verdict (the build or the harness failed, or too little was seen).
"""
import glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(HERE, "harness")
FUZZ = os.path.join(HERE, "fuzz")
TARGET = os.path.join(HERE, "target")
X86 = "x86_64-unknown-linux-gnu"
WIDTHS = ["u8", "u16", "u32", "u64", "u128", "usize"]

sys.path.insert(0, os.path.join(HERE, "tools"))
from about import ABOUT  # noqa: E402


class Inconclusive(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ---- building -------------------------------------------------------------

def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(HARNESS, "src"), os.path.join(FUZZ, "src")):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as x:
                    h.update(x.read())
    for p in (REPO + "/Cargo.toml", HARNESS + "/Cargo.toml", FUZZ + "/Cargo.toml"):
        with open(p, "rb") as x:
            h.update(x.read())
    return h.hexdigest()


LITERAL = re.compile(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)(?:[ui](?:8|16|32|64|128|size))?\b")
CHAR = re.compile(r"'(?:\\u\{([0-9a-fA-F_]+)\}|([^'\\\n]))'")


def dictionary():
    """The numbers and characters the crate's source mentions, to aim the
    workload at; what is right is never judged by them."""
    nums, chars = set(), set()
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in sorted(fs):
            if not f.endswith(".rs"):
                continue
            text = open(os.path.join(d, f), encoding="utf-8", errors="replace").read()
            for m in LITERAL.finditer(text):
                t = m.group(1).replace("_", "")
                n = int(t, 0) if t[:2] in ("0x", "0b", "0o") else int(t)
                if n < 1 << 128:
                    nums.add(n)
            for m in CHAR.finditer(text):
                chars.add(int(m.group(1).replace("_", ""), 16) if m.group(1) else ord(m.group(2)))
    return "".join(f"n {n}\n" for n in sorted(nums)[:2000]) + "".join(f"c {c}\n" for c in sorted(chars))


class Variant:
    """One way of building the harness together with /repo."""

    def __init__(self, name, alloc=True, nightly=False, rustflags="", target=None, build_std=False, crate=None, program="vh", plain=None):
        self.profile = "plain" if (plain if plain is not None else not alloc) else "release"
        self.crate, self.program = crate or HARNESS, program
        self.name, self.alloc, self.nightly, self.rustflags, self.target, self.build_std = \
            name, alloc, nightly, rustflags, target, build_std
        self.dir = os.path.join(TARGET, name)

    def binary(self):
        parts = [self.dir] + ([self.target] if self.target else []) + [self.profile, self.program]
        return os.path.join(*parts)

    def build(self):
        os.makedirs(self.dir, exist_ok=True)
        stamp, now = os.path.join(self.dir, "tree.sha256"), tree_hash()
        old = open(stamp).read() if os.path.exists(stamp) else ""
        env = dict(os.environ, CARGO_TARGET_DIR=self.dir, CARGO_NET_OFFLINE="true")
        env.pop("RUSTFLAGS", None)
        if self.rustflags:
            env["RUSTFLAGS"] = self.rustflags
        cargo = ["cargo"] + (["+nightly"] if self.nightly else [])
        if old != now:
            # never trust modification times: a patch may be older than a build.
            # Forgetting that these were built leaves what the compiler itself
            # keeps, which goes by content.
            base = os.path.join(*([self.dir] + ([self.target] if self.target else []) + [self.profile]))
            for p in ("nominals", self.program):
                for d in glob.glob(os.path.join(base, ".fingerprint", p + "-*")):
                    shutil.rmtree(d, ignore_errors=True)
        cmd = cargo + ["build", "--offline", "--profile", self.profile]
        if not self.alloc:
            cmd.append("--no-default-features")
        if self.target:
            cmd += ["--target", self.target]
        if self.build_std:
            cmd.append("-Zbuild-std")
        r = subprocess.run(cmd, cwd=self.crate, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise Inconclusive(f"build {self.name} failed:\n{r.stdout[-4000:]}")
        with open(stamp, "w") as f:
            f.write(now)


ALLOC = Variant("alloc")
NOALLOC = Variant("noalloc", alloc=False)
SHIPPED = Variant("alloc-shipped", plain=True)
NOALLOC_CHECKED = Variant("noalloc-checked", alloc=False, plain=False)
MATRIX = (ALLOC, NOALLOC, SHIPPED, NOALLOC_CHECKED)
ASAN = Variant("asan", nightly=True, rustflags="-Zsanitizer=address", target=X86)
ASAN_NO = Variant("asan-noalloc", alloc=False, nightly=True, rustflags="-Zsanitizer=address", target=X86)
COVER = ("--cfg fuzzing -Zsanitizer=address -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=4 "
         "-Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table "
         "-Cllvm-args=-sanitizer-coverage-trace-compares")
FUZZER = Variant("fuzz", nightly=True, rustflags=COVER, target=X86, crate=FUZZ, program="vf")
TSAN = Variant("tsan", nightly=True, rustflags="-Zsanitizer=thread", target=X86, build_std=True)


# ---- running --------------------------------------------------------------

class Result:
    def __init__(self, name):
        self.name, self.data, self.violations, self.note = name, None, [], ""
        self.wall = 0.0
        self.cmd = ""


def read_crumbs(path):
    """The calls that were under way, marked ones first."""
    out = []
    try:
        raw = open(path, "rb").read()
    except OSError:
        return out
    for i in range(0, len(raw) - 255, 256):
        lo, hi, w, n, flag = struct.unpack_from("<QQIII", raw, i)
        if flag == 0:
            continue
        text = raw[i + 32:i + 32 + min(n, 224)].decode("utf-8", "replace")
        if w < 6:
            what = dict(subject=f"{text} as {WIDTHS[w]}", value=str(hi << 64 | lo))
        else:
            what = dict(subject=text, value="0")
        out.append((flag, what))
    return out


SANITIZER = re.compile(r"(ERROR: (Address|Leak|Memory)Sanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|error: Undefined Behavior[^\n]*|"
                       r"error: abnormal termination[^\n]*|== (Invalid (read|write)[^\n]*|Conditional jump or move depends on uninit[^\n]*|"
                       r"Use of uninitialised value[^\n]*|Invalid free[^\n]*|Mismatched free[^\n]*|Syscall param[^\n]*uninit[^\n]*|"
                       r"Source and destination overlap[^\n]*))")
STACK = re.compile(r"has overflowed its stack|stack-overflow|reached the configured maximum")


def run(name, cmd, env=None, timeout=600, out=None, crumbs=None, cwd=HERE, watch=None, tool=None):
    """Runs one monitored process and turns its ending into a verdict."""
    r = Result(name)
    r.cmd = " ".join(cmd)
    for f in (out, crumbs):
        if f and os.path.exists(f):
            os.remove(f)
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Inconclusive(f"{name}: not finished after {timeout} s")
    r.wall = time.time() - t
    text = p.stdout.decode("utf-8", "replace")
    if out and os.path.exists(out):
        try:
            r.data = json.load(open(out))
        except ValueError:
            pass
    rc = p.returncode
    report = SANITIZER.search(text)
    where = [w for f, w in read_crumbs(crumbs) if f in (2, 3)] or [w for _, w in read_crumbs(crumbs)] if crumbs else []
    tail = text[-3000:]
    if report:
        start = max(0, report.start() - 100)
        r.violations.append(dict(kind="sanitizer", subject=name, value="0", observed=report.group(0).strip(),
                                 expected="no report", report=text[start:start + 6000], calls=where[:8]))
    elif rc == 0:
        pass
    elif rc == 96 and crumbs:
        w = where[0] if where else dict(subject=name, value="0")
        r.violations.append(dict(kind="hang", observed="one call still running after 20 s of CPU time", expected="a result", **w))
    elif rc == 97:
        w = where[0] if where else dict(subject=name, value="0")
        r.violations.append(dict(kind="memory", observed="one call asked for more than 1 GiB of memory", expected="a result", **w))
    elif rc == 1 and r.data is not None:
        pass
    elif rc in (70, 71, 77) and "libFuzzer" in text:
        # one input that took two minutes, took memory without bound, or died
        kind = {70: "hang", 71: "memory", 77: "crash"}[rc]
        r.violations.append(dict(kind=kind, subject=name, value="0", observed=tail[-1500:], expected="a result"))
    elif rc in (-signal.SIGKILL, -signal.SIGTERM):
        raise Inconclusive(f"{name}: ended by signal {-rc}")
    elif "memory allocation of" in text:
        raise Inconclusive(f"{name}: out of memory: {tail[-300:]}")
    elif rc < 0 or STACK.search(text):
        w = where[0] if where else dict(subject=name, value="0")
        r.violations.append(dict(kind="crash", observed=f"the process died (signal {-rc}): {tail[-400:]}", expected="a result",
                                 calls=where[:8], **w))
    else:
        raise Inconclusive(f"{name}: exit status {rc}: {tail}")
    if r.data is None and not r.violations:
        raise Inconclusive(f"{name}: no result file: {tail}")
    if r.data:
        for v in r.data.pop("violations", []):
            if v["kind"] == "harness":
                raise Inconclusive(f"{name}: the harness itself failed: {v}")
            r.violations.append(v)
    return r


class Job:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.work = os.path.join(TARGET, "work", f"{pid}-{os.getpid()}")
        os.makedirs(self.work, exist_ok=True)
        self.dir = os.path.join(self.work, "logs")
        os.makedirs(self.dir, exist_ok=True)
        self.n = 0
        self.dict = os.path.join(self.work, "dictionary")
        with open(self.dict, "w") as f:
            f.write(dictionary())

    def args(self, tier, extra, threads=8, seed=None):
        self.n += 1
        out = os.path.join(self.work, f"out{self.n}.json")
        crumbs = os.path.join(self.work, f"crumbs{self.n}")
        a = ["run", self.pid, "--tier", tier, "--seed", str(self.seed if seed is None else seed), "--threads", str(threads), "--out", out,
             "--crumbs", crumbs, "--dir", self.dir, "--dict", self.dict] + extra
        return a, out, crumbs

    def native(self, v, tier=None, extra=(), env=None, timeout=None, name=None, wrap=(), watch="20", seed=None):
        tier = tier or self.tier
        a, out, crumbs = self.args(tier, list(extra) + ["--watch", watch], seed=seed)
        timeout = timeout or (800 if self.tier == "quick" else 7200)
        return run(name or v.name, list(wrap) + [v.binary()] + a, env=env, timeout=timeout, out=out, crumbs=crumbs)

    def fuzz(self, i, seconds, corpus, part=""):
        """libFuzzer chooses the unit, the numbers and the operations; the
        oracles are the same."""
        self.n += 1
        out = os.path.join(self.work, f"out{self.n}.json")
        env = dict(VF_PROPERTY=self.pid, VF_OUT=out, VF_SEED=str(self.seed + i), VF_DICT=self.dict, VF_PART=part,
                   ASAN_OPTIONS="detect_leaks=0:abort_on_error=0")
        cmd = [FUZZER.binary(), corpus, f"-seed={self.seed * 64 + i + 1}", f"-max_total_time={seconds}", "-max_len=600", "-reload=1",
               "-rss_limit_mb=3000", "-timeout=120", "-use_value_profile=" + str(i % 2), f"-artifact_prefix={self.work}/", "-detect_leaks=0"]
        return run(f"coverage-guided search {i}", cmd, env=env, timeout=seconds + 600, out=out)

    def miri(self, target, extra, alloc=True, flags="", deadline=None, name=None):
        a, out, _ = self.args("tiny", list(extra) + (["--deadline", str(deadline)] if deadline else []), threads=1)
        env = dict(CARGO_TARGET_DIR=os.path.join(TARGET, f"miri-{target.split('-')[0]}{'' if alloc else '-noalloc'}"),
                   CARGO_NET_OFFLINE="true",
                   MIRIFLAGS=f"-Zmiri-disable-isolation -Zmiri-ignore-leaks {flags}".strip())
        if target != X86:
            env["XDG_CACHE_HOME"] = os.path.join(TARGET, "xdg")
        cmd = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--target", target]
        if not alloc:
            cmd.append("--no-default-features")
        return run(name or f"miri {target} {'alloc' if alloc else 'no-alloc'} {' '.join(extra)}", cmd + ["--"] + a, env=env,
                   timeout=860 if self.tier == "quick" else 10800, out=out, cwd=HARNESS)


def miri_build(target, alloc=True):
    """Compiles for the interpreter once, before several interpreters start."""
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(TARGET, f"miri-{target.split('-')[0]}{'' if alloc else '-noalloc'}"),
               CARGO_NET_OFFLINE="true", MIRIFLAGS="-Zmiri-disable-isolation")
    env.pop("RUSTFLAGS", None)
    if target != X86:
        env["XDG_CACHE_HOME"] = os.path.join(TARGET, "xdg")
    stamp, now = os.path.join(env["CARGO_TARGET_DIR"], "tree.sha256"), tree_hash()
    os.makedirs(env["CARGO_TARGET_DIR"], exist_ok=True)
    if not (os.path.exists(stamp) and open(stamp).read() == now):
        for p in ("nominals", "vh"):
            subprocess.run(["cargo", "+nightly", "clean", "--offline", "-p", p, "--target", target], cwd=HARNESS, env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    cmd = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--target", target]
    if not alloc:
        cmd.append("--no-default-features")
    # without arguments the harness prints its usage and leaves with status 2
    r = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if "usage: vh" not in r.stdout:
        raise Inconclusive(f"miri build for {target} failed:\n{r.stdout[-4000:]}")
    with open(stamp, "w") as f:
        f.write(now)


def parallel(fs, workers=8):
    with ThreadPoolExecutor(workers) as ex:
        hs = [ex.submit(f) for f in fs]
        out, bad = [], None
        for h in hs:
            try:
                out.append(h.result())
            except Inconclusive as e:
                bad = bad or e
        # a violation seen anywhere outweighs a process that gave no answer
        if bad and not any(r.violations for r in out if isinstance(r, Result)):
            raise bad
        return out


# ---- what runs for each property -------------------------------------------

BUILD = {"alloc": "build with heap support", "noalloc": "build without heap support, as shipped",
         "alloc-shipped": "build with heap support, as shipped (no assertions or overflow checks)",
         "noalloc-checked": "build without heap support, with assertions and overflow checks"}


def build_matrix():
    parallel([lambda v=v: v.build() or Result("") for v in MATRIX], 4)


def natives(j, variants=MATRIX):
    build_matrix()
    out = []
    for i, v in enumerate(variants):
        # each build draws other cases
        r = j.native(v, name=BUILD[v.name], seed=j.seed + i * 1_000_003)
        out.append(r)
        if r.violations:
            break
    return out


def with_search(j, out):
    """Afterwards, in the thorough tier: look for what the workload missed."""
    if j.tier != "thorough" or any(r.violations for r in out):
        return out
    FUZZER.build()
    corpus = os.path.join(j.work, "corpus")
    os.makedirs(corpus, exist_ok=True)
    part = "strings,systems,hostile" if j.pid == "C02" else ""
    seconds = int(os.environ.get("VERIF_SEARCH_S", "90"))
    out += parallel([lambda i=i: j.fuzz(i, seconds, corpus, part) for i in range(8)])
    return out


def c04(j):
    build_matrix()
    out = []
    for i, (rec, cmps) in enumerate(((ALLOC, (NOALLOC, NOALLOC_CHECKED)), (SHIPPED, (NOALLOC,)))):
        seed = j.seed + i * 1_000_003
        out.append(j.native(rec, name="recorded, " + BUILD[rec.name], seed=seed))
        for v in cmps:
            out.append(j.native(v, name="compared, " + BUILD[v.name], seed=seed))
            if out[-1].violations:
                return out
            missing = (out[-1].data or {}).get("counters", {}).get("recordings that could not be used", 0)
            if missing:
                raise Inconclusive(f"{missing} recordings could not be used")
    return out


def c02(j):
    thorough = j.tier == "thorough"
    out = natives(j)
    if any(r.violations for r in out):
        return out
    # AddressSanitizer over the native workload
    builds = [lambda: ASAN.build() or Result(""), lambda: miri_build(X86) or Result(""), lambda: miri_build(X86, False) or Result(""),
              lambda: miri_build("i686-unknown-linux-gnu") or Result("")]
    if thorough:
        builds += [lambda: ASAN_NO.build() or Result("")]
    parallel(builds, 3)
    # shares the directory of its sysroot with the one above, so after it
    miri_build("s390x-unknown-linux-gnu")
    asan = dict(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1")
    out.append(j.native(ASAN, env=asan, name="AddressSanitizer, with heap support"))
    if thorough:
        out.append(j.native(ASAN_NO, env=asan, name="AddressSanitizer, without heap support"))
    vg = ["valgrind", "-q", "--error-exitcode=99", "--leak-check=no", "--max-stackframe=100000000"]
    jobs = []
    for v in (ALLOC, NOALLOC):
        for part in ("strings", "systems", "compare,hostile"):
            jobs.append(lambda v=v, part=part: j.native(v, tier="tiny", extra=["--part", part], wrap=vg, watch="100000",
                        name=f"valgrind memcheck, {v.name}, {part}"))
    i686, s390x = "i686-unknown-linux-gnu", "s390x-unknown-linux-gnu"
    d = 5400 if thorough else 75
    rec = "-Zmiri-recursive-validation"
    if thorough:
        for i in range(8):
            for t, al in ((X86, True), (X86, False), (i686, True), (s390x, True), (s390x, False)):
                if al or t == X86:
                    jobs.append(lambda i=i, t=t, al=al: j.miri(t, ["--part", "strings", "--shard", f"{i}/8"], al, rec if t == X86 else "", d))
                    jobs.append(lambda i=i, t=t, al=al: j.miri(t, ["--part", "systems", "--shard", f"{i}/8"], al, "", d))
        miri_build(s390x, False)
        jobs.append(lambda: j.miri(s390x, ["--part", "strings"], False, "", d))
        jobs.append(lambda: j.miri(X86, ["--part", "compare,hostile"], True, rec, d))
        jobs.append(lambda: j.miri(i686, ["--part", "compare,hostile"], True, "", d))
        jobs.append(lambda: j.miri(X86, ["--part", "strings"], True, "-Zmiri-tree-borrows", d))
        jobs.append(lambda: j.miri(X86, ["--part", "hostile"], False, rec, d))
        jobs.append(lambda: j.miri(s390x, ["--part", "hostile"], True, "", d))
        jobs.append(lambda: j.miri(X86, ["--part", "strings"], True, "-Zmiri-symbolic-alignment-check", d))
    else:
        for i in range(3):
            jobs.append(lambda i=i: j.miri(X86, ["--part", "strings", "--shard", f"{i}/3"], True, rec if i == 0 else "", d))
        for i in range(2):
            jobs.append(lambda i=i: j.miri(X86, ["--part", "strings", "--shard", f"{i}/3"], False, "", d))
        jobs.append(lambda: j.miri(i686, ["--part", "strings", "--shard", "1/4"], True, "", d))
        jobs.append(lambda: j.miri(s390x, ["--part", "strings", "--shard", "2/4"], True, "", d))
        k = j.seed % 8
        jobs.append(lambda: j.miri(X86, ["--part", "systems", "--shard", f"{k}/8"], True, "", d))
        jobs.append(lambda: j.miri(s390x, ["--part", "systems", "--shard", f"{(k + 3) % 8}/8"], True, "", d))
        jobs.append(lambda: j.miri(X86, ["--part", "compare,hostile"], True, "", d))
    out += parallel(jobs, 8)
    return out


def c23(j):
    out = natives(j)
    if any(r.violations for r in out):
        return out
    # usize is 32 bits wide here: same program, same oracle
    t = "i686-unknown-linux-gnu"
    miri_build(t)
    n = 8
    out += parallel([lambda i=i: j.miri(t, ["--shard", f"{i}/{n}"], True, "-Zmiri-disable-stacked-borrows -Zmiri-disable-validation",
                                        3000 if j.tier == "thorough" else 45) for i in range(n)])
    return out


def c26(j):
    thorough = j.tier == "thorough"
    # the fourth has no code of its own where calls could affect each other
    out = natives(j, MATRIX if thorough else MATRIX[:3])
    if any(r.violations for r in out):
        return out
    parallel([lambda: TSAN.build() or Result(""), lambda: miri_build(X86) or Result("")])
    tsan = dict(TSAN_OPTIONS="halt_on_error=1 report_signal_unsafe=0")
    jobs = [lambda: j.native(TSAN, tier="quick", extra=["--part", "small"], env=tsan, name="ThreadSanitizer")]
    seeds = range(48 if thorough else 5)
    for s in seeds:
        often = " -Zmiri-preemption-rate=0.1" if s % 2 else ""
        jobs.append(lambda s=s, often=often: j.miri(X86, ["--part", f"s{s + j.seed}"], True,
                                                    f"-Zmiri-seed={s} -Zmiri-disable-stacked-borrows{often}", None))
    out += parallel(jobs, 8)
    return out


RUN = {"C02": c02, "C04": c04, "C23": c23, "C26": c26}


def known_findings(pid):
    """(kind, subject, value) of each finding on record for this property."""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        if line.startswith("known: "):
            k = json.loads(line[len("known: "):])
            if k["property"] == pid:
                out.append(k)
    return out


def is_known(v, known):
    for k in known:
        if v.get("kind") == k["kind"] and v.get("subject") == k["subject"] and str(v.get("value")) == str(k["value"]):
            return k
    return None


def main():
    pid = sys.argv[1]
    if pid == "setup":
        build_matrix()
        # only saves time later: each check builds what it needs
        for f in (ASAN.build, TSAN.build, lambda: miri_build(X86), lambda: miri_build(X86, False),
                  lambda: miri_build("i686-unknown-linux-gnu"), lambda: miri_build("s390x-unknown-linux-gnu")):
            try:
                f()
            except Exception as e:  # noqa: BLE001
                log(f"setup: left for later: {e}"[:300])
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    j = Job(pid, tier, seed)
    try:
        results = RUN.get(pid, natives)(j)
        if pid not in ("C04", "C26"):
            results = with_search(j, results)
    except Inconclusive as e:
        log(f"NO VERDICT property={pid}: {e}")
        return 2
    finally:
        shutil.rmtree(j.work, ignore_errors=True)

    known = known_findings(pid)
    broken, seen = [], {}
    for r in results:
        for v in r.violations:
            k = is_known(v, known)
            if k:
                seen[k["what"]] = k
            else:
                broken.append(dict(v, run=r.name, cmd=r.cmd))
    for what in seen:
        log(f"KNOWN-FINDING: property={pid} {what}")

    runs = []
    evals = distinct = 0
    samples = []
    for r in results:
        if not r.data:
            continue
        evals += r.data["evaluations"]
        distinct += r.data["distinct"]
        samples += [f"[{r.name}] {s}" for s in r.data.get("samples", [])[:6]]
        runs.append(dict(run=r.name, seconds=round(r.wall, 1), evaluations=r.data["evaluations"], distinct=r.data["distinct"],
                         observed=r.data["counters"], maxima=r.data["maxima"]))
    rule, assumptions = ABOUT[pid]
    if not samples:
        samples = [f"{x['run']}: {x['observed']}" for x in runs[:4]]
    ev = dict(property=pid, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=distinct, rule=rule, samples=samples[:14], runs=runs),
              assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=len(broken))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    if broken:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", f"{pid}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, tier=tier, seed=seed,
                           how_to_replay=f"cd /verif && VERIF_SEED={seed} VERIF_TIER={tier} python3 check.py {pid}",
                           violations=broken[:40]), f, indent=1, ensure_ascii=False)
        for v in broken[:3]:
            log(f"  {v['kind']}: {v['subject'][:300]} value {v['value']}: observed {str(v['observed'])[:300]}; expected {str(v['expected'])[:300]}")
        log(f"VIOLATION property={pid} replay={path}")
        return 1
    if evals < 1000 or distinct < 500:
        log(f"NO VERDICT property={pid}: only {evals} evaluations of {distinct} distinct cases")
        return 2
    log(f"held: property={pid} {evals} evaluations, {distinct} distinct cases, {len(runs)} runs, {ev['wall_s']} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
