#!/usr/bin/env python3
"""Run one property's check.

  check.py ID [--thorough]      exit 0 held, 1 violated (VIOLATION line), else an error of the check
  check.py setup                build everything from the committed files
  check.py replay FILE          re-run a replay file against the current tree
"""
import hashlib, json, os, re, resource, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
REPO = "/repo"
TRIPLE = "x86_64-unknown-linux-gnu"
T0 = time.time()

BUILDS = {
    # name: (target dir, toolchain args, extra cargo args, environment, binary)
    "plain": ("target", [], [], {}, "release/pedcheck"),
    "asan": ("target-asan", ["+nightly"], ["--target", TRIPLE], {"RUSTFLAGS": "-Zsanitizer=address"}, f"{TRIPLE}/release/pedcheck"),
    "msan": ("target-msan", ["+nightly"], ["--target", TRIPLE, "-Zbuild-std"], {"RUSTFLAGS": "-Zsanitizer=memory"}, f"{TRIPLE}/release/pedcheck"),
}
# libFuzzer's part is the archive that comes with clang; rustc puts the coverage in.
FUZZER_LIB = "/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.fuzzer-x86_64.a"
SANCOV = " ".join(["-Cpasses=sancov-module"] + ["-Cllvm-args=-sanitizer-coverage-" + x for x in ("level=3", "inline-8bit-counters", "pc-table", "trace-compares")]
                  + [f"-Clink-arg={FUZZER_LIB}", "-Clink-arg=-lstdc++"])
FUZZ_ARGS = ["--bin", "pedfuzz", "--features", "fuzz", "--target", TRIPLE]
BUILDS["fuzz"] = ("target-fuzz", [], FUZZ_ARGS, {"RUSTFLAGS": SANCOV}, f"{TRIPLE}/release/pedfuzz")
BUILDS["fuzz-asan"] = ("target-fuzz-asan", ["+nightly"], FUZZ_ARGS, {"RUSTFLAGS": SANCOV + " -Zsanitizer=address"}, f"{TRIPLE}/release/pedfuzz")
SAN_EXIT = 86
SAN_ENV = {
    "ASAN_OPTIONS": f"exitcode={SAN_EXIT}:detect_leaks=0:allocator_may_return_null=1",
    "MSAN_OPTIONS": f"exitcode={SAN_EXIT}:allocator_may_return_null=1",
}
MIRIFLAGS = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows"


LITERALS = {}  # environment of the random search: see literals()


class Broken(Exception):
    """The check could not decide."""


def env_with(**kw):
    e = {k: v for k, v in os.environ.items() if not (k.startswith("CARGO_") and k != "CARGO_HOME") and k not in ("PED_ID", "PED_OUT", "PED_LITERALS", "RUSTFLAGS", "RUSTDOCFLAGS", "PED_TINY", "PED_RUNNER", "PED_SHRINK_S", "RUSTC_WRAPPER")}
    e.update(kw)
    return e


def tree_hash():
    """Content of everything the build reads, so that file times cannot hide a change."""
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(HARNESS, "src")]
    files = [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "build.rs"), os.path.join(HARNESS, "Cargo.toml"), os.path.join(HARNESS, "Cargo.lock")]
    for r in roots:
        for d, _, fs in sorted(os.walk(r)):
            files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def freshen(target):
    """Drop cargo's record of the two local crates if their content changed."""
    os.makedirs(target, exist_ok=True)
    mark = os.path.join(target, "content-hash")
    want = tree_hash()
    have = open(mark).read() if os.path.exists(mark) else ""
    if have != want:
        if os.path.exists(mark):
            os.remove(mark)
        for d, dirs, _ in os.walk(target):
            if os.path.basename(d) == ".fingerprint":
                for x in list(dirs):
                    if x.startswith(("perf-event-data-", "pedcheck-")):
                        shutil.rmtree(os.path.join(d, x), ignore_errors=True)
                dirs[:] = []
            elif os.path.basename(d) in ("deps", "build", "incremental"):
                dirs[:] = []
    return mark, want


def build(kind):
    tdir, tc, extra, env, binary = BUILDS[kind]
    target = os.path.join(HARNESS, tdir)
    mark, want = freshen(target)
    cmd = ["cargo", *tc, "build", "--release", "--offline", "--locked", *extra]
    p = subprocess.run(cmd, cwd=HARNESS, env=env_with(CARGO_TARGET_DIR=target, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Broken(f"building the harness ({kind}) failed:\n" + p.stdout[-4000:])
    with open(mark, "w") as f:
        f.write(want)
    return os.path.join(target, binary)


def build_miri(target=None):
    tdir = os.path.join(HARNESS, "target-miri")
    mark, want = freshen(tdir)
    p = subprocess.run(miri_cmd(target) + ["info", "C20"], cwd=HARNESS, env=miri_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if p.returncode != 0:
        raise Broken("building for Miri failed:\n" + p.stdout[-2000:])
    with open(mark, "w") as f:
        f.write(want)


def miri_cmd(target=None):
    return ["cargo", "+nightly", "miri", "run", *(["--target", target] if target else []), "--offline", "--locked", "--quiet", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"), "--"]


def miri_env(**kw):
    return env_with(CARGO_TARGET_DIR=os.path.join(HARNESS, "target-miri"), MIRIFLAGS=MIRIFLAGS, PED_TINY="1", RUSTFLAGS="-Awarnings", **kw)


# Hosts this machine is not: Miri interprets the harness for them. The kernel
# bindings lay the bitfields of big-endian hosts out wrongly, which C10, C16 and
# C19 would report; they are not run there.
BIG, SMALL = "aarch64_be-unknown-linux-gnu", "i686-unknown-linux-gnu"
FOREIGN_QUICK = {"C06": BIG, "C13": SMALL}
FOREIGN_OFFSET = {None: 10**12, BIG: 2 * 10**12, SMALL: 3 * 10**12}


def foreign(pid, tier):
    """[(target, cases)] to run under Miri, besides the host's own."""
    if tier == "quick":
        return [(FOREIGN_QUICK[pid], 280)] if pid in FOREIGN_QUICK else []
    return [(t, 8000) for t in (BIG, SMALL) if t != BIG or pid not in ("C10", "C16", "C19")]


NUM = re.compile(r"(?<!\w)(?<!\w\.)(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:[iu](?:8|16|32|64|128|size))?(?!\w|\.\w)")
STR = re.compile(r'b?"((?:[^"\\]|\\.)*)"', re.S)
ESC = re.compile(r"\\(?:x([0-9a-fA-F]{2})|u\{([0-9a-fA-F_]+)\}|\n\s*|(.))", re.S)


def unescape(t):
    def f(m):
        if m.group(1):
            return bytes([int(m.group(1), 16)])
        if m.group(2):
            return chr(int(m.group(2).replace("_", ""), 16)).encode()
        if m.group(3):
            return {"n": b"\n", "r": b"\r", "t": b"\t", "0": b"\0"}.get(m.group(3), m.group(3).encode())
        return b""
    out, at = b"", 0
    for m in ESC.finditer(t):
        out += t[at:m.start()].encode() + f(m)
        at = m.end()
    return out + t[at:].encode()


def literals(work):
    """Numbers and strings that stand in the sources: values for the generators
    to try. They bias the search and decide nothing."""
    nums, strs = set(), set()
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if not f.endswith(".rs"):
                continue
            try:
                text = open(os.path.join(d, f), errors="replace").read()
                text = re.sub(r"^\s*//.*$", "", text, flags=re.M).split("#[cfg(test)]\nmod ")[0]
                for m in STR.finditer(text):
                    x = unescape(m.group(1))
                    if 0 < len(x) <= 80:
                        strs.add(x)
                for m in NUM.finditer(STR.sub('""', text)):
                    n = int(m.group(1).replace("_", ""), 0) if m.group(1)[:1] == "0" and m.group(1)[1:2] in ("x", "b", "o") else int(m.group(1).replace("_", ""))
                    if 17 < n < 2**64:
                        nums.add(n)
            except (OSError, ValueError):
                continue
    big = {n for n in nums if n > 255}
    nums |= {(x) % 2**64 for n in big for x in (n - 1, n + 1, -n, ~n)}
    # a flood of them would crowd out everything else
    nums, strs = sorted(nums)[:4000], sorted(strs)[:2000]
    path = os.path.join(work, "literals")
    with open(path, "w") as f:
        f.write("".join(f"n {n}\n" for n in nums) + "".join(f"s {x.hex()}\n" for x in strs))
    with open(os.path.join(work, "dict"), "w") as f:
        def entry(b):
            f.write('"' + "".join(f"\\x{c:02x}" for c in b) + '"\n')
        for n in nums:
            for w in (1, 2, 4, 8):
                if n < 2 ** (8 * w):
                    entry(n.to_bytes(w, "little"))
                    break
            if 2**16 <= n < 2**32:
                entry(n.to_bytes(8, "little"))
        for x in strs:
            entry(x)
    LITERALS["PED_LITERALS"] = path


def limit_cpu(seconds):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (seconds, seconds + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def no_core():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def in_flight(out):
    try:
        raw = open(os.path.join(out, "status"), "rb").read()
    except OSError:
        return []
    return sorted(x[0] - 1 for x in struct.iter_unpack("<Q", raw[: len(raw) // 8 * 8]) if x[0])


def how_died(rc):
    if rc < 0:
        try:
            return f"signal {signal.Signals(-rc).name}"
        except ValueError:
            return f"signal {-rc}"
    return f"exit status {rc}"


ALLOC_ABORT = re.compile(r"memory allocation of \d+ bytes failed")


class Outcome:
    def __init__(self):
        self.results = []      # (label, result.json)
        self.violation = None  # (replay path, message)
        self.skipped = 0
        self.notes = []


def load(out):
    with open(os.path.join(out, "result.json")) as f:
        return json.load(f)


def search(pid, exe, seed, start, cases, out, oc, label, env, timeout, memory_only=False, hang_is_violation=False):
    """Run the search in a child process; attribute a dying child to its case."""
    end = start + cases
    restarts = 0
    while start < end:
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        left = timeout - (time.time() - T0)
        if left <= 0:
            raise Broken("time budget used up")
        with open(os.path.join(out, "log"), "w") as log:
            try:
                p = subprocess.run([exe, "run", pid, "--seed", str(seed), "--start", str(start), "--cases", str(end - start), "--threads", str(os.cpu_count() or 8), "--out", out],
                                   stdout=log, stderr=subprocess.STDOUT, env=env_with(**env, **LITERALS), timeout=left, preexec_fn=no_core)
            except subprocess.TimeoutExpired:
                raise Broken("the search did not finish in its time budget")
        rc = p.returncode
        if rc == 0:
            oc.results.append((label, load(out)))
            return
        # also when the process died while it was shrinking the failure it had found
        if os.path.exists(os.path.join(out, "replay.txt")) and os.path.exists(os.path.join(out, "result.json")):
            oc.results.append((label, load(out)))
            oc.violation = (os.path.join(out, "replay.txt"), open(os.path.join(out, "log")).read())
            return
        log = open(os.path.join(out, "log"), errors="replace").read()
        if rc == -signal.SIGKILL:
            raise Broken("the search was killed (out of memory?)")
        # the process died, or a case did not end: find the case
        suspects = in_flight(out)
        hung = rc == 77
        culprit = None
        for i in suspects:
            clog = os.path.join(out, f"choices-{i}")
            c = subprocess.run([exe, "case", pid, str(seed), str(i), clog], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env_with(**env, **LITERALS), preexec_fn=limit_cpu(60))
            text = c.stdout.decode(errors="replace")
            if c.returncode == 0 or c.returncode == 1:
                continue
            culprit = (i, clog, c.returncode, text)
            break
        if culprit is None:
            if hung:
                raise Broken("a case did not end within two minutes, but ends when run alone")
            if memory_only and ALLOC_ABORT.search(log):
                raise Broken("the search died of a refused allocation that no single case reproduces")
            path = os.path.join(out, "replay.txt")
            with open(path, "w") as f:
                f.write(f"property {pid}\norigin seed {seed} cases {start}..{end} ({label})\nmessage the search died ({how_died(rc)}) while these cases ran: {suspects}; none of them dies alone\n")
                f.write("log " + log[-3000:].replace("\n", " | ") + "\n")
            oc.violation = (path, f"the process died ({how_died(rc)})\n{log[-3000:]}")
            return
        i, clog, crc, text = culprit
        if crc in (-signal.SIGXCPU, -signal.SIGKILL):
            if not hang_is_violation:
                raise Broken(f"case {i} does not terminate (60 s of processor time)")
            shutil.copy(clog, os.path.join(out, "choices"))
            path = os.path.join(out, "replay.txt")
            raw = open(clog, "rb").read()
            ch = [str(x[0]) for x in struct.iter_unpack("<Q", raw[: len(raw) // 8 * 8])]
            with open(path, "w") as f:
                f.write(f"property {pid}\norigin seed {seed} case {i}\nmessage the case does not terminate (60 s of processor time; cases normally take microseconds)\ninput \nchoices {' '.join(ch)}\n")
            oc.violation = (path, f"case {i} does not terminate")
            return
        if memory_only and ALLOC_ABORT.search(text):
            # a refused giant allocation is C04's business, not memory unsafety
            oc.skipped += 1
            restarts += 1
            if restarts > 200:
                raise Broken("too many refused allocations")
            start = i + 1
            continue
        path = os.path.join(out, "replay.txt")
        subprocess.run([exe, "crashshrink", pid, clog, path, how_died(crc)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env_with(PED_SHRINK_S="60", **env))
        with open(path, "a") as f:
            f.write(f"detector {label}\n")
        oc.violation = (path, f"case {i}: the process dies ({how_died(crc)})\n{text[-4000:]}")
        return


def run_miri(pid, plain, seed, cases, out, oc, timeout, target=None, only=None):
    """Tiny cases under Miri, in as many processes as there are cores.

    On the host's own target Miri is the oracle (C20); on another, the property's
    own oracle is, and Miri is only the machine.
    """
    label = f"miri:{target}" if target else "miri"
    try:
        build_miri(target)
    except (Broken, OSError, subprocess.TimeoutExpired) as e:
        oc.notes.append(f"{label} not used: " + str(e)[:300])
        return
    n = os.cpu_count() or 8
    per = max(1, cases // n)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    procs = []
    for k in range(n):
        d = os.path.join(out, str(k))
        os.makedirs(d)
        log = open(os.path.join(d, "log"), "w")
        # an index range of its own, so that the cases differ from ASan's
        procs.append((k, d, log, subprocess.Popen(miri_cmd(target) + ["run", pid, "--seed", str(seed), "--start", str(FOREIGN_OFFSET[target] + k * per), "--cases", str(per), "--threads", "1", "--out", d],
                                                  cwd=HARNESS, env=miri_env(), stdout=log, stderr=subprocess.STDOUT)))
    bad = None
    for k, d, log, p in procs:
        try:
            rc = p.wait(timeout=max(1, timeout - (time.time() - T0)))
        except subprocess.TimeoutExpired:
            # fewer cases, not an alarm; what finished still counts
            p.kill()
            p.wait()
            log.close()
            oc.notes.append(f"{label}: process {k} stopped at the time budget")
            continue
        log.close()
        text = open(os.path.join(d, "log"), errors="replace").read()
        if rc == 0:
            oc.results.append((label, load(d)))
        elif bad is None:
            bad = (k, d, rc, text)
    if bad is None:
        return
    k, d, rc, text = bad
    path = os.path.join(d, "replay.txt")
    if os.path.exists(path):
        if target:
            with open(path, "a") as f:
                f.write(f"detector {label}\n")
        oc.violation = (path, text)
        return
    if target:
        # not this property's own oracle: fewer cases, not an alarm
        oc.notes.append(f"{label}: a process ended early: " + text[-300:])
        return
    if only and only not in text:
        oc.notes.append(f"{label}: a process ended early, which is another property's: " + text[-300:])
        return
    if "Undefined Behavior" not in text and "error: abnormal termination" not in text:
        raise Broken("Miri ended with an error of its own:\n" + text[-3000:])
    if ALLOC_ABORT.search(text):
        oc.notes.append("one Miri process stopped at a refused allocation")
        oc.skipped += 1
        return
    path = os.path.join(out, "replay.txt")
    flight = in_flight(d)
    if flight:
        clog = os.path.join(d, "choices")
        subprocess.run([plain, "case", pid, str(seed), str(flight[0]), clog], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env_with(PED_TINY="1"), preexec_fn=limit_cpu(60))
        subprocess.run([plain, "crashshrink", pid, clog, path, "Miri"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=HARNESS,
                       env=miri_env(PED_RUNNER=" ".join(miri_cmd()), PED_SHRINK_S="60"))
    with open(path, "a") as f:
        f.write("detector miri\n" + "log " + text[-3000:].replace("\n", " | ") + "\n")
    oc.violation = (path, text[-4000:])


def fuzz(pid, kind, judge, judge_env, seed, runs, out, oc, seconds, memory_only=False):
    """Coverage-guided search. What it stops at counts if `judge`, without the
    coverage instrumentation, confirms it."""
    label = "libfuzzer" if kind == "fuzz" else "libfuzzer+asan"
    try:
        exe = build(kind)
    except Broken as e:
        oc.notes.append(f"{label} not used: " + str(e)[-300:])
        return
    shutil.rmtree(out, ignore_errors=True)
    start = os.path.join(out, "start")
    os.makedirs(start)
    subprocess.run([judge, "corpus", pid, str(seed), "400", start], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env_with(**judge_env, **LITERALS), timeout=300)
    procs = []
    for k in range(os.cpu_count() or 8):
        d = os.path.join(out, str(k))
        os.makedirs(os.path.join(d, "corpus"))
        log = open(os.path.join(d, "log"), "w")
        given = os.path.join(os.path.dirname(out), "dict")
        cmd = [exe, *([f"-dict={given}"] if os.path.exists(given) else []), f"-runs={runs}", f"-seed={seed * 1000 + k + 1}", f"-max_len={(8192, 1024)[k // 2 % 2]}", "-timeout=100", f"-max_total_time={seconds}", "-rss_limit_mb=3500",
               "-detect_leaks=0", f"-use_value_profile={k % 2}", f"-artifact_prefix={d}/stop-", "-verbosity=0", "-print_final_stats=1", os.path.join(d, "corpus"), start]
        procs.append((k, d, log, subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=env_with(PED_ID=pid, PED_OUT=d, **SAN_ENV), preexec_fn=no_core)))
    stopped = []
    for k, d, log, p in procs:
        try:
            p.wait(timeout=seconds + 240)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            oc.notes.append(f"{label}: process {k} did not stop in time")
        log.close()
        if os.path.exists(os.path.join(d, "result.json")):
            oc.results.append((label, load(d)))
        stopped += [(k, d, os.path.join(d, f)) for f in sorted(os.listdir(d)) if f.startswith("stop-") and not f.startswith("stop-slow-unit")]
    for k, d, f in stopped:
        if oc.violation:
            return
        clog, path = os.path.join(d, "choices"), os.path.join(d, "replay.txt")
        c = subprocess.run([judge, "fuzzcase", pid, f, clog, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env_with(**judge_env), preexec_fn=limit_cpu(120))
        text = c.stdout.decode(errors="replace")
        if c.returncode == 0:
            oc.notes.append(f"{label}: process {k} stopped at {os.path.basename(f)}, which passes without instrumentation")
        elif os.path.exists(path):
            # (with this detector a replay runs in the plain build)
            oc.violation = (path, text)
        elif memory_only and ALLOC_ABORT.search(text):
            oc.skipped += 1
        else:
            # it dies, or does not end
            subprocess.run([judge, "crashshrink", pid, clog, path, how_died(c.returncode)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env_with(PED_SHRINK_S="60", **judge_env), preexec_fn=limit_cpu(300))
            if not os.path.exists(path):
                raw = open(clog, "rb").read()
                with open(path, "w") as fh:
                    fh.write(f"property {pid}\norigin {label}\nmessage the case dies or does not end ({how_died(c.returncode)})\ninput \nchoices " + " ".join(str(x[0]) for x in struct.iter_unpack("<Q", raw[: len(raw) // 8 * 8])) + "\n")
            oc.violation = (path, f"the case dies or does not end ({how_died(c.returncode)})\n{text[-3000:]}")


def known_findings():
    known = set()
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for l in f:
            m = re.match(r"finding: property=(C\d\d) key=(\S+)", l)
            if m:
                known.add((m.group(1), m.group(2)))
    return known


LEVEL = {"C18": "fault_enumeration"}


def check(pid, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = os.path.join(VERIF, "work", pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    literals(work)
    oc = Outcome()
    budget = 840 if tier == "quick" else 6 * 3600
    plain = build("plain")
    quick, thorough = map(int, subprocess.check_output([plain, "info", pid], text=True, env=env_with()).split())
    cases = quick if tier == "quick" else thorough

    # defects of the library that are recorded, not repaired
    known = known_findings()
    new = []
    for l in subprocess.check_output([plain, "probe", pid], text=True, env=env_with()).splitlines():
        m = re.match(r"FINDING (\S+) (.*)", l)
        if m and (pid, m.group(1)) in known:
            print(f"KNOWN-FINDING: property={pid} {m.group(1)}: {m.group(2)}")
        elif m:
            new.append(m.group(0))
    if new:
        path = os.path.join(work, "probe.txt")
        with open(path, "w") as f:
            f.write(f"property {pid}\nprobe\nmessage " + "\n".join(new) + "\n")
        oc.violation = (path, "\n".join(new))

    if oc.violation is None and pid == "C20":
        asan = build("asan")
        search(pid, asan, seed, 0, cases, os.path.join(work, "asan"), oc, "asan", SAN_ENV, budget, memory_only=True)
        if oc.violation is None:
            try:
                msan = build("msan")
            except Broken as e:
                msan = None
                oc.notes.append("MemorySanitizer not used: " + str(e)[:300])
            if msan:
                search(pid, msan, seed, 2 * 10**11, cases * 3 // 5, os.path.join(work, "msan"), oc, "msan", SAN_ENV, budget, memory_only=True)
        if oc.violation is None:
            run_miri(pid, plain, seed, 480 if tier == "quick" else 20000, os.path.join(work, "miri"), oc, budget)
    elif oc.violation is None:
        search(pid, plain, seed, 0, cases, os.path.join(work, "run"), oc, "plain", {}, budget, hang_is_violation=True)
    if oc.violation is None:
        runs, seconds = (100_000, 30) if tier == "quick" else (20_000_000, 1200)
        if pid == "C20":
            fuzz(pid, "fuzz-asan", asan, SAN_ENV, seed, runs, os.path.join(work, "fuzz"), oc, seconds, memory_only=True)
        else:
            fuzz(pid, "fuzz", plain, {}, seed, runs, os.path.join(work, "fuzz"), oc, seconds)
    if oc.violation is None and pid == "C23":
        limit = min(budget, time.time() - T0 + (300 if tier == "quick" else 2400))
        run_miri(pid, plain, seed, 160 if tier == "quick" else 8000, os.path.join(work, "miri"), oc, limit, only="Data race detected")
    for target, n in foreign(pid, tier):
        if oc.violation is None:
            limit = min(budget, time.time() - T0 + (400 if tier == "quick" else 2400))
            run_miri(pid, plain, seed, n, os.path.join(work, target), oc, limit, target)

    write_evidence(pid, tier, seed, oc)
    if oc.violation:
        path, msg = oc.violation
        print(msg.strip()[-6000:])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    tot = sum(r["cases"] for _, r in oc.results)
    nt = sum(r["nontrivial"] for _, r in oc.results)
    print(f"{pid}: held on {tot} generated cases ({nt} non-trivial), seed {seed}, {time.time() - T0:.1f} s")
    return 0


def write_evidence(pid, tier, seed, oc):
    labels, samples, det = {}, [], {}
    for lab, r in oc.results:
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        d = det.setdefault(lab, {"cases": 0, "nontrivial": 0, "distinct_nontrivial": 0, "random_choices": 0, "wall_s": 0.0})
        d["cases"] += r["cases"]
        d["nontrivial"] += r["nontrivial"]
        d["distinct_nontrivial"] += r["distinct"]
        d["random_choices"] += r["choices"]
        d["wall_s"] = round(d["wall_s"] + r["wall"], 3)
        if len(samples) < 8:
            samples += [s[:1500] for s in r["samples"]][:6]
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": LEVEL.get(pid, "exploration"),
        "coverage": {
            "evaluations": sum(d["cases"] for d in det.values()),
            "distinct_nontrivial": sum(d["distinct_nontrivial"] for d in det.values()),
            "nontrivial": sum(d["nontrivial"] for d in det.values()),
            "rule": oc.results[0][1]["rule"] if oc.results else "no case was run: a recorded probe already failed",
            "samples": samples,
            "classes": labels,
            "runs": det,
            "skipped_refused_allocations": oc.skipped,
        },
        "wall_s": round(time.time() - T0, 3),
        "violations": 1 if oc.violation else 0,
        "assumptions": ["distinct_nontrivial stops counting at 3,000,000 per worker and is then a lower bound"] + oc.notes,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)


def replay(path):
    text = open(path).read()
    pid = re.search(r"^property (\S+)", text, re.M).group(1)
    det = re.search(r"^detector (\S+)", text, re.M)
    det = det.group(1) if det else ("asan" if pid == "C20" else "plain")
    path = os.path.abspath(path)
    if re.search(r"^probe$", text, re.M):
        return subprocess.run([build("plain"), "probe", pid]).returncode
    if "(not seen again in a process of its own" in text:
        # what else the process did, or the schedule, is part of it: search around it
        o = re.search(r"^origin seed (\d+) case (\d+)", text, re.M)
        seed, at = (int(o.group(1)), int(o.group(2))) if o else (1, 0)
        out = os.path.join(VERIF, "work", pid, "replayed")
        return subprocess.run([build(det), "run", pid, "--seed", str(seed), "--start", str(max(0, at - 5000)), "--cases", "300000", "--out", out], env=env_with(**LITERALS)).returncode
    if det == "miri" or det.startswith("miri:"):
        target = det[5:] or None
        build_miri(target)
        return subprocess.run(miri_cmd(target) + ["replay", path], env=miri_env(), cwd=HARNESS).returncode
    return subprocess.run([build(det), "replay", path], env=env_with(**SAN_ENV)).returncode


def main(a):
    if a == ["setup"]:
        build("plain")
        for k in ("fuzz", "asan", "msan", "fuzz-asan"):
            try:
                build(k)
            except Broken as e:
                print(e)
        for target in (None, BIG, SMALL):
            try:
                build_miri(target)
            except (Broken, OSError, subprocess.TimeoutExpired) as e:
                print(e)
        return 0
    if len(a) == 2 and a[0] == "replay":
        return replay(a[1])
    if a and re.fullmatch(r"C\d\d", a[0]):
        tier = "thorough" if "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough" else "quick"
        return check(a[0], tier)
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except Broken as e:
        print("CHECK-ERROR:", e)
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
