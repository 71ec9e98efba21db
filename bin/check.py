#!/usr/bin/env python3
"""Builds one property's monitor from /repo's current tree, runs it and judges what it observed.

    check.py PROPERTY [--tier quick|thorough] [--only CASE]

exit 0: held on everything explored; exit 1: VIOLATION lines; exit 2: no answer (error).
"""
import concurrent.futures
import fnmatch
import glob
import hashlib
import json
import mmap
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HART_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
sys.path.insert(0, HARNESS)
from props import PROPS  # noqa: E402

SAN = "-fsanitize=address,bounds,shift,integer-divide-by-zero,signed-integer-overflow,float-cast-overflow,enum,bool,return,unreachable -fno-sanitize-recover=all".split()
COMMON = "-std=c++17 -g1 -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS -w".split()
HANG_S = 75      # no progress within one case: suspected hang
HANG_RERUN_S = 150
MAX_RESTARTS = 25
NPROC = min(8, os.cpu_count() or 1)


def die(msg):
    print(f"ERROR: {msg}")
    sys.exit(2)


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        for d, dirs, files in os.walk(root):
            dirs.sort()
            dirs[:] = [x for x in dirs if x not in ("__pycache__",)]
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


_tree = None


def compile_one(src, obj, flags, cxx="g++"):
    """Compiles src to obj; the result is cached by the content of everything it may include."""
    global _tree
    if _tree is None:
        _tree = tree_hash(f"{REPO}/include", f"{REPO}/dependencies", f"{REPO}/src", f"{REPO}/tests", HARNESS)
    cmd = [cxx, *flags, "-c", src, "-o", obj]
    key = hashlib.sha256((_tree + "\0".join(cmd)).encode()).hexdigest()
    stamp = obj + ".key"
    if os.path.exists(obj) and os.path.exists(stamp) and open(stamp).read() == key:
        return True, ""
    for attempt in (0, 1):
        r = subprocess.run(cmd, stdin=subprocess.DEVNULL, capture_output=True, text=True, errors="replace")
        if r.returncode == 0:
            with open(stamp, "w") as f:
                f.write(key)
            return True, r.stderr
        if ": error:" in r.stderr or "fatal error:" in r.stderr:
            break
    return False, r.stderr


def includes(real_cli):
    inc = [f"-I{HARNESS}"]
    if not real_cli:
        inc.append(f"-I{HARNESS}/stub")
    return inc + [f"-I{REPO}/include", f"-I{REPO}/dependencies/CLI11", f"-I{REPO}/dependencies/dr_libs"]


def build(pid, cfg, bdir, variant, tier):
    """Returns (binary, error log)."""
    os.makedirs(bdir, exist_ok=True)
    cxx = variant.get("cxx", "g++")
    san = variant.get("san", SAN)
    common = variant.get("common", COMMON + [variant.get("opt") or ("-O2" if tier == "thorough" else "-O0")])
    name = variant.get("name", "main")
    libs = variant.get("libs", [])
    real = cfg.get("real_cli", False)
    srcs = [os.path.join(HARNESS, s) for s in cfg["src"]] + [os.path.join(HARNESS, "drwav_impl.cpp")]
    defs = cfg.get("defs", []) + variant.get("defs", [])
    # the repository's own tests; those that do not compile are left out
    suite = sorted(glob.glob(f"{REPO}/tests/*.cpp")) if variant.get("suite") else []
    suite = [s for s in suite if not re.search(r"\bmain *\(", open(s, errors="replace").read())]

    def attempt(real_cli):
        def one(src):
            obj = os.path.join(bdir, f"{name}-{'r' if real_cli else 's'}-" + os.path.basename(src) + ".o")
            ok, err = compile_one(src, obj, common + san + defs + includes(real_cli), cxx)
            if not ok and src in suite:
                return True, "", None
            return ok, err, obj
        with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(one, srcs + suite))
        bad = [e for ok, e, _ in res if not ok]
        if bad:
            return None, "\n".join(bad)
        binary = os.path.join(bdir, f"{name}.bin")
        r = subprocess.run([cxx, *san, *[o for _, _, o in res if o], "-o", binary, "-lpthread", *libs], capture_output=True, text=True)
        if r.returncode:
            return None, r.stderr
        return binary, ""

    binary, err = attempt(real)
    if binary is None and not real:
        binary, err2 = attempt(True)
        err = err if binary is None else ""
    return binary, err


def baseline_compiles(bdir):
    ok, _ = compile_one(os.path.join(HARNESS, "baseline.cpp"), os.path.join(bdir, "baseline.o"), ["-std=c++11", "-w"] + includes(True))
    return ok


ENV = dict(
    os.environ,
    ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:quarantine_size_mb=32:allocator_may_return_null=1:hard_rss_limit_mb=3500:detect_stack_use_after_return=0:handle_abort=1:symbolize=1:max_allocation_size_mb=6000:malloc_fill_byte=123:max_malloc_fill_size=262144",
    UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1",
)


def crash_key(text, code):
    """A stable name for a crash: the kind of report and the innermost HART function."""
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    v = re.search(r"==\d+== (Conditional jump|Use of uninit|Invalid read|Invalid write|Invalid free|Mismatched free|Syscall param|Source and destination)", text)
    if m and m.group(1) != "ABRT":
        kind = m.group(1)
    elif v:
        kind = "memcheck:" + v.group(1)
    else:
        m = re.search(r"runtime error: ([^\n]*)", text)
        if m:
            kind = "ub:" + re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*|-?nan|-?inf", "N", m.group(1))[:80]
        else:
            m = re.search(r"terminate called after throwing an instance of '([^']+)'", text)
            if m:
                kind = "terminate:" + m.group(1)
            elif "Assertion" in text and "glibcxx" in text.lower() or "Assertion '" in text:
                m = re.search(r"Assertion '([^']*)'", text)
                kind = "assertion:" + (m.group(1)[:60] if m else "")
            elif "hard rss limit" in text:
                kind = "rss-limit"
    if kind is None:
        kind = f"exit:{code}"
    where = ""
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):(\d+)", text):
        if m.group(2).startswith(REPO + "/"):
            fn = re.sub(r"<.*", "", re.sub(r"\(.*", "", m.group(1)))
            where = os.path.basename(m.group(2)) + ":" + fn.split("::")[-1].strip()
            break
    return f"crash:{kind}@{where}"


class Shard:
    def __init__(self, binary, work, i, n, total, seed, tier, wrap):
        self.binary, self.i, self.n, self.total, self.seed, self.tier = binary, i, n, total, seed, tier
        self.work = os.path.join(work, f"shard{i}")
        os.makedirs(self.work, exist_ok=True)
        self.wrap = wrap
        self.viols, self.sums, self.errors = [], [], []

    def argv(self, a, out, cur=None):
        v = [*self.wrap, self.binary, "--seed", str(self.seed), "--tier", self.tier, "--out", out, "--scratch", self.work]
        if cur:
            v += ["--cur", cur]
        return v + a

    def launch(self, a, tag, hang_s):
        """Runs the binary; returns (returncode or 'hang', current case, lines, stderr text)."""
        out, cur, err = (os.path.join(self.work, f"{x}.{tag}") for x in ("out", "cur", "err"))
        for p in (out, cur):
            if os.path.exists(p):
                os.unlink(p)
        with open(err, "wb") as ef:
            p = subprocess.Popen(self.argv(a, out, cur), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=ef,
                                 env=ENV, cwd=self.work, start_new_session=True)
        last, since = None, time.monotonic()
        while True:
            try:
                rc = p.wait(0.2)
                break
            except subprocess.TimeoutExpired:
                pass
            now = self.current(cur)
            if now != last:
                last, since = now, time.monotonic()
            elif time.monotonic() - since > hang_s:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
                rc = "hang"
                break
        lines = []
        if os.path.exists(out):
            with open(out, errors="replace") as f:
                for l in f:
                    try:
                        lines.append(json.loads(l))
                    except ValueError:
                        pass
        with open(err, errors="replace") as f:
            text = f.read()
        return rc, self.current(cur), lines, text

    @staticmethod
    def current(path):
        try:
            with open(path, "rb") as f:
                return struct.unpack("QQ", f.read(16))
        except (OSError, struct.error):
            return None

    def run(self):
        start, restarts = self.i, 0
        while start < self.total:
            rc, cur, lines, text = self.launch(["--from", str(start), "--to", str(self.total), "--step", str(self.n)], f"r{restarts}", HANG_S)
            self.viols += [l for l in lines if l["t"] == "viol"]
            sums = [l for l in lines if l["t"] == "sum"]
            self.sums += sums
            if rc == 0 and sums:
                return self
            if cur is None:
                if rc != "hang" and rc != 0 and not crash_key(text, rc).endswith("@"):
                    # the library itself ended the program, before main() even
                    self.viols.append({"t": "viol", "case": -1, "key": "startup-" + crash_key(text, rc), "msg": text[-3000:]})
                    return self
                self.errors.append(f"shard {self.i}: no case was started (exit {rc}): {text[-500:]}")
                return self
            case = cur[0]
            if rc == 3:
                self.errors.append(f"shard {self.i}: harness failure: {text[-500:]}")
                return self
            if rc == "hang":
                rc2, _, lines2, text2 = self.launch(["--only", str(case)], f"hang{restarts}", HANG_RERUN_S)
                if rc2 == "hang":
                    self.viols.append({"t": "viol", "case": case, "key": "hang", "msg": f"case {case} made no progress for {HANG_RERUN_S} s, twice"})
                    return self
            elif rc != 0:
                if rc in (-9, 137):
                    self.errors.append(f"shard {self.i}: killed in case {case}")
                    return self
                self.viols.append({"t": "viol", "case": case, "key": crash_key(text, rc), "msg": text[-3000:]})
            else:
                self.errors.append(f"shard {self.i}: ended without a summary")
                return self
            restarts += 1
            if restarts > MAX_RESTARTS:
                return self
            start = case + self.n
        return self


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["status"] == "known"]


def is_known(known, v):
    for k in known:
        if fnmatch.fnmatchcase(v["key"], k["key"]):
            return k
    return None


def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--only":
            only = args.pop(0)
        else:
            die(f"bad argument {a}")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[pid]
    t0 = time.monotonic()
    bdir = os.path.join(VERIF, "_build", pid)
    os.makedirs(bdir, exist_ok=True)
    replay_dir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(replay_dir, exist_ok=True)
    for f in os.listdir(replay_dir):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(replay_dir, f))

    variants = cfg.get("variants", [{}])
    if tier == "thorough":
        variants = variants + cfg.get("thorough_variants", [])
    viols, sums, errors, ran, build_s = [], [], [], [], 0.0
    work = tempfile.mkdtemp(prefix=f"hv-{pid}-", dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        for variant in variants:
            vname = variant.get("name", "main")
            binary, err = build(pid, cfg, bdir, variant, tier)
            if binary is None:
                if baseline_compiles(bdir):
                    viols.append({"case": -1, "key": "does-not-compile", "msg": err[-3000:], "variant": vname})
                    continue
                die(f"the harness and the library do not compile: {err[-2000:]}")
            build_s = time.monotonic() - t0
            total = int(cfg["cases"][tier] * variant.get("scale", 1.0))
            if only is not None:
                r = subprocess.run([*variant.get("wrap", []), binary, "--seed", str(seed), "--only", only, "--tier", tier, "--scratch", work, "--verbose"], env=ENV)
                print("exit", r.returncode)
                continue
            if tier == "thorough":
                seeds = [seed + 1000003 * j for j in range(cfg.get("thorough_seeds", 1))]
            else:
                seeds = [seed]
            for s in seeds:
                shards = [Shard(binary, os.path.join(work, vname), i, NPROC, total, s, tier, variant.get("wrap", [])) for i in range(NPROC)]
                with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
                    for sh in ex.map(lambda x: x.run(), shards):
                        for v in sh.viols:
                            v["variant"], v["seed"] = vname, s
                        viols += sh.viols
                        sums += sh.sums
                        errors += sh.errors
            ran.append(vname)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if only is not None:
        return 0

    counters, distinct, samples, cases = {}, set(), [], 0
    for s in sums:
        cases += s["cases"]
        distinct.update(s["distinct"])
        for k, n in s["counters"].items():
            counters[k] = counters.get(k, 0) + n
        for x in s["samples"]:
            if len(samples) < 6:
                samples.append(x)

    known = [k for k in known_findings() if k["property"] == pid]
    by_key = {}
    for v in viols:
        by_key.setdefault(v["key"], []).append(v)
    new, seen_known = [], {}
    for key, vs in by_key.items():
        k = is_known(known, vs[0])
        if k:
            seen_known.setdefault(k["id"], (k, 0))
            seen_known[k["id"]] = (k, seen_known[k["id"]][1] + len(vs))
        else:
            new.append((key, vs))

    for k, n in seen_known.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']} (seen {n} times)")
    if new:
        for n, (key, vs) in enumerate(new[:12]):
            v = vs[0]
            path = os.path.join(replay_dir, f"{pid}-{n}.json")
            with open(path, "w") as f:
                json.dump({
                    "property": pid, "key": key, "occurrences": len(vs), "tier": tier, "seed": v.get("seed", seed), "case": v["case"],
                    "variant": v.get("variant"), "message": v["msg"],
                    "replay": f"cd {VERIF} && VERIF_SEED={v.get('seed', seed)} VERIF_TIER={tier} python3 bin/check.py {pid} --only {v['case']}",
                }, f, indent=1)
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  {key} ({len(vs)}x), e.g. case {v['case']}: " + v["msg"][:600].replace("\n", "\n  "))

    minimum = cfg.get("min", {})
    short = [f"{k}={counters.get(k, 0)} < {n}" for k, n in minimum.items() if counters.get(k, 0) < n]
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": cases, "distinct_nontrivial": len(distinct), "rule": cfg["rule"],
            "samples": samples or ["(none)"], "observed": dict(sorted(counters.items())), "builds": ran,
        },
        "assumptions": cfg.get("assumptions", []) + [
            "the library is observed through its public API on generated workloads; paths the workloads do not drive are not judged",
        ],
        "wall_s": round(time.monotonic() - t0, 2), "violations": sum(len(v) for _, v in new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    print(f"{pid} {tier} seed={seed}: {cases} cases, {len(distinct)} distinct, {sum(counters.values())} observations, "
          f"{len(new)} new violation kinds, {len(seen_known)} known, {evidence['wall_s']} s (build {build_s:.1f} s)")
    if new:
        return 1
    if errors:
        die("; ".join(errors[:3]))
    if short or not cases:
        die("the monitors observed too little: " + ", ".join(short))
    return 0


if __name__ == "__main__":
    sys.exit(main())
