#!/usr/bin/env python3
"""Mutation campaign (development aid, not a check).

  tools/mutate.py gen OUT.json [FILE...]        list mutants of /repo/src
  tools/mutate.py run IN.json OUT.jsonl [JOBS]  build each in scratch copies, run every check at reduced counts

Survivors are what to look at: equivalent, killed by the repository's tests, or a gap.
"""
import json, os, re, shutil, subprocess, sys, threading, queue, random
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

def code_lines(text):
    """Line numbers that are neither comments, attributes nor test modules."""
    out = []
    for n, l in enumerate(text.split("\n")):
        if re.match(r"\s*#\[cfg\(test\)\]", l) or re.match(r"\s*pub mod doctest", l):
            break
        if re.match(r"\s*(//|#!?\[|use |pub use )", l) or not l.strip():
            continue
        out.append(n)
    return out

SUBS = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
    (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" % ", " / "), (r" << ", " >> "), (r" >> ", " << "),
    (r" \| ", " & "), (r" & ", " | "), (r" && ", " || "), (r" \|\| ", " && "), (r" \+= ", " -= "), (r" -= ", " += "), (r" &= ", " |= "),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
    (r"\bif (?!let)(.*) \{", r"if !(\1) {"), (r"\bu64\b", "u32"), (r"\bu32\b", "u16"), (r"\bu16\b", "u8"), (r"\bu32\b", "u64"), (r"\busize\b", "u16 as usize"),
    (r"\.is_empty\(\)", ".len() == 1"), (r"\.contains\(", ".intersects("), (r"\.intersects\(", ".contains("),
    (r"from_bits_retain", "from_bits_truncate"), (r"from_bits_truncate", "from_bits_retain"),
    (r"ErrorKind::(\w+)", lambda m: "ErrorKind::" + {"Eof": "InvalidRecord", "InvalidRecord": "Eof", "UnsupportedConfig": "InvalidRecord", "External": "Eof"}.get(m.group(1), "Eof")),
    (r"split_last", "split_first"), (r"\.next\(\)", ".next_back()"), (r"\.next_back\(\)", ".next()"), (r"\.rev\(\)", ""),
    (r"checked_sub\((.*?)\)", r"checked_add(\1)"), (r"checked_mul\((.*?)\)", r"checked_add(\1)"), (r"wrapping_", "saturating_"), (r"saturating_", "wrapping_"),
    (r"\.or\(\w+\)", ""), (r"from_be", "from_le"), (r"from_le", "from_be"), (r"from_ne", "from_be"), (r"swap_bytes\(\)", "reverse_bits()"),
    (r"Some\(", "None.or("), (r"\.copied\(\)", ".copied().filter(|x| *x != 0)"), (r"\.truncate\((\w+)\)", r".truncate(\1 + 1)"),
    (r"0\.\.", "1.."), (r"\.\.n", "..n+1"), (r"(?<![\w.])(\d+)(?![\w.])", lambda m: str(int(m.group(1)) + 1)), (r"(?<![\w.])([1-9]\d*)(?![\w.])", lambda m: str(int(m.group(1)) - 1)),
    (r"\bwhile\b", "if"), (r"\bif (?!let)(.*) \{", "if true {"), (r"\bif (?!let)(.*) \{", "if false {"),
    (r"(?<=\()([^()]+) (?:&&|\|\|) ([^()]+)(?=\))", r"\1"), (r"\.len\(\)", ".len().saturating_sub(1)"),
    (r"\bas u32\b", "as u16 as u32"), (r"\bas u64\b", "as u32 as u64"), (r"\bas usize\b", "as u32 as usize"),
    # rare triggers: large sizes, one bit of a value
    (r"(?<=[(\[.])(len|nr|count|size|byte_len|dyn_size)(?=[)\],])", r"\1.min(4096)"), (r"(?<=[(\[.])(len|nr|count|size|byte_len|dyn_size)(?=[)\],])", r"\1.min(40000)"),
    (r"p\.parse\(\)\?", "(p.parse::<u64>()? & !(1 << 63))"), (r"p\.parse\(\)\?", "(p.parse::<u32>()? & !(1 << 31))"), (r"p\.parse\(\)\?", "(p.parse::<u32>()? & 0x7fff_ffff | 1)"),
    (r"p\.parse_(u64|len)\(\)\?", r"(p.parse_\1()? & !(1 << 40))"), (r"p\.parse_(u64|len|u32|u16)\(\)\?", r"(p.parse_\1()? & !(1 << 15))"),
    (r"p\.parse_if\((.*)\)\?", r"p.parse_if::<u64>(\1)?.map(|x| x & !(1 << 63))"), (r"p\.parse_if\((.*)\)\?", r"p.parse_if::<u32>(\1)?.map(|x| x & !(1 << 31))"),
    (r"0x([0-9A-Fa-f]+)", lambda m: hex(int(m.group(1), 16) >> 1)),
]

def gen(files):
    muts = []
    for f in files:
        text = open(os.path.join(REPO, f)).read()
        lines = text.split("\n")
        code = code_lines(text)
        cs = set(code)
        idents = {}
        for n in code:
            for m in re.finditer(r"\b(\w+)::([A-Z][A-Z0-9_]{1,})\b", lines[n]):
                idents.setdefault(m.group(1), [])
                if m.group(2) not in idents[m.group(1)]:
                    idents[m.group(1)].append(m.group(2))
        for n in code:
            l = lines[n]
            body = l.split(" // ")[0]
            def add(new, what):
                if new != l:
                    muts.append({"file": f, "line": n, "old": [l], "new": [new], "what": what})
            for pat, rep in SUBS:
                for m in list(re.finditer(pat, body)):
                    r = m.expand(rep) if isinstance(rep, str) else rep(m)
                    add(l[:m.start()] + r + l[m.end():], f"{m.group(0)} -> {r}")
            # sibling constants
            for m in re.finditer(r"\b(\w+)::([A-Z][A-Z0-9_]{1,})\b", body):
                sib = idents[m.group(1)]
                if len(sib) > 1:
                    s = sib[(sib.index(m.group(2)) + 1) % len(sib)]
                    add(l[:m.start(2)] + s + l[m.end(2):], f"{m.group(0)} -> {s}")
            # delete a statement
            if re.match(r"\s+[\w*&.]+.*;\s*$", l) and not re.match(r"\s*(let|return|const|pub|type|static|unsafe|mod|fn|macro|\$)\b", l):
                add(re.match(r"\s*", l).group(0) + "();" , "statement deleted")
            if re.match(r"\s*\.\w+\(.*\)\s*$", l):
                add("", "call in chain deleted")
            if re.search(r"=> ", l) and re.search(r"^\s*(_|\w+(::\w+)*(\([^)]*\))?) =>.*,$", l):
                add("", "arm deleted")
            # swap with the next line
            if n + 1 in cs and l.strip() and lines[n + 1].strip() and re.match(r"\s*", l).group(0) == re.match(r"\s*", lines[n + 1]).group(0):
                nx = lines[n + 1]
                if (l.rstrip().endswith(",") and nx.rstrip().endswith(",")) or (l.rstrip().endswith(";") and nx.rstrip().endswith(";")):
                    muts.append({"file": f, "line": n, "old": [l, nx], "new": [nx, l], "what": "lines swapped"})
                # swap only the values of `name: value,`
                a, b = re.match(r"(\s*\w+: )(.*,)$", l), re.match(r"(\s*\w+: )(.*,)$", nx)
                if a and b and a.group(2) != b.group(2):
                    muts.append({"file": f, "line": n, "old": [l, nx], "new": [a.group(1) + b.group(2), b.group(1) + a.group(2)], "what": "values swapped"})
    return muts

def worker(k, q, out, lock):
    base = f"/tmp/mut/{k}"
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    subprocess.check_call(["git", "clone", "-q", REPO, base + "/repo"])
    shutil.copy(REPO + "/Cargo.lock", base + "/repo/Cargo.lock")
    shutil.copytree(V + "/harness", base + "/harness", ignore=shutil.ignore_patterns("target*"))
    t = open(base + "/harness/Cargo.toml").read().replace('path = "/repo"', f'path = "{base}/repo"').replace("opt-level = 2", "opt-level = 1")
    open(base + "/harness/Cargo.toml", "w").write(t)
    env = dict(os.environ, CARGO_TARGET_DIR=base + "/target", CARGO_BUILD_JOBS="1", PED_SHRINK_S="0", RUSTFLAGS="-Awarnings")
    exe = base + "/target/release/pedcheck"
    quick = {}
    while True:
        try:
            i, m = q.get_nowait()
        except queue.Empty:
            break
        path = os.path.join(base, "repo", m["file"])
        text = open(path).read()
        lines = text.split("\n")
        assert lines[m["line"]:m["line"] + len(m["old"])] == m["old"]
        lines[m["line"]:m["line"] + len(m["old"])] = m["new"]
        open(path, "w").write("\n".join(lines))
        res = dict(m, i=i)
        try:
            b = subprocess.run(["cargo", "build", "-q", "--release", "--offline"], cwd=base + "/harness", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if b.returncode != 0:
                res["status"] = "nobuild"
            else:
                hits = {}
                for c in [f"C{x:02d}" for x in range(1, 23) if x != 20]:
                    if c not in quick:
                        quick[c] = int(subprocess.check_output([exe, "info", c], text=True).split()[0])
                    try:
                        r = subprocess.run([exe, "run", c, "--seed", "1", "--cases", str(quick[c] // 60), "--threads", "1", "--out", base + "/out"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=90, errors="replace")
                        if r.returncode != 0:
                            hits[c] = (r.stdout.split("\n") or [""])[0][:160]
                    except subprocess.TimeoutExpired:
                        hits[c] = "timeout"
                res["hits"] = hits
                res["status"] = "caught" if hits else "SURVIVED"
                if hits:
                    continue
                t = subprocess.run(["cargo", "test", "-q", "--offline", "--all-features", "--lib", "--tests"], cwd=base + "/repo", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300, errors="replace")
                res["tests"] = t.returncode == 0
        except Exception as e:
            res["status"] = f"error {e}"
        finally:
            open(path, "w").write(text)
            with lock:
                out.write(json.dumps(res) + "\n")
                out.flush()
    shutil.rmtree(base, ignore_errors=True)

a = sys.argv[1:]
if a[0] == "gen":
    files = a[2:] or subprocess.check_output(["git", "-C", REPO, "ls-files", "src"], text=True).split()
    m = gen(files)
    json.dump(m, open(a[1], "w"))
    print(len(m))
else:
    m = json.load(open(a[1]))
    done = set()
    if os.path.exists(a[2]):
        done = {json.loads(l)["i"] for l in open(a[2])}
    q = queue.Queue()
    todo = [(i, x) for i, x in enumerate(m) if i not in done]
    random.Random(1).shuffle(todo)
    for x in todo:
        q.put(x)
    with open(a[2], "a") as out:
        lock = threading.Lock()
        ts = [threading.Thread(target=worker, args=(k, q, out, lock)) for k in range(int(a[3]) if len(a) > 3 else 8)]
        [t.start() for t in ts]
        [t.join() for t in ts]
