#!/usr/bin/env python3
"""Decide one property of vers by generated-input search.

  check.py setup                 build every harness configuration
  check.py C01 [quick|thorough]  run the check of a property
  check.py replay FILE           run the case of a replay file again

Exit 0: held on everything explored. Exit 1: a VIOLATION line was printed. Exit 2: no answer.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import resource
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
REPLAYS = os.path.join(VERIF, "replays")

# which part of the harness a property needs
GROUP = {
    "C01": "bits", "C02": "bits", "C03": "bits", "C04": "bits", "C05": "rs", "C06": "rs",
    "C07": "rs,ef,wavelet", "C08": "rs", "C09": "ef", "C10": "ef", "C11": "rmq",
    "C12": "bp", "C13": "bp", "C14": "bp", "C15": "bp", "C16": "wavelet", "C17": "wavelet", "C18": "wavelet",
    "C19": "misc", "C20": "misc", "C21": "misc", "C22": "misc",
    "C23": "misc", "C24": "cost", "C25": "mem",
}
# configurations of the quick tier; the thorough tier uses all
QUICK = {"C24": ["steps"], "C25": ["asan"]}
# properties that only make sense in configurations of their own
OWN = {"C24": ["steps"], "C25": ["asan"]}
QUICK_DEFAULT = ["base", "full", "plain"]
# share of the cases that the quick tier runs in a build like users ship it
PLAIN_QUICK = 0.4
ALL = ["base", "full", "plain"]

STALL = 100  # seconds a single case may take before it is looked at alone
CASE_CPU = 60  # CPU seconds after which a single case, run alone, counts as not terminating


def cpu_has(flags):
    try:
        have = set()
        for line in open("/proc/cpuinfo"):
            if line.startswith("flags"):
                have = set(line.split())
                break
        return all(f in have for f in flags)
    except OSError:
        return False


V3 = ["avx2", "bmi1", "bmi2", "fma", "movbe", "abm", "f16c"]
V4 = V3 + ["avx512f", "avx512bw", "avx512cd", "avx512dq", "avx512vl"]

CONFIG = {
    # portable code, everything a debug build checks
    "base": dict(cpu="x86-64", profile="checked", features=[]),
    # intrinsics, SIMD block search, 16 bit lookup table, everything a debug build checks
    "full": dict(cpu="x86-64-v4" if cpu_has(V4) else "x86-64", profile="checked", features=["simd", "u16lookup"]),
    # what users ship: no assertions, wrapping arithmetic
    "plain": dict(cpu="x86-64-v3" if cpu_has(V3) else "x86-64", profile="plain", features=[]),
    # as "plain", on any CPU, and every basic block executed is counted
    "steps": dict(cpu="x86-64", profile="plain", features=["steps"], target="x86_64-unknown-linux-gnu",
                  flags="-C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc"),
    # intrinsics and SIMD, without bounds the debug checks would add, every access checked by AddressSanitizer
    "asan": dict(cpu="x86-64-v4" if cpu_has(V4) else "x86-64", profile="plain", features=["simd", "u16lookup"],
                 target="x86_64-unknown-linux-gnu", toolchain="nightly-x86_64-unknown-linux-gnu", flags="-Zsanitizer=address"),
}


def env_for(cfg):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e["RUSTUP_TOOLCHAIN"] = CONFIG[cfg].get("toolchain", "stable-x86_64-unknown-linux-gnu")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTFLAGS"] = ("-C target-cpu=" + CONFIG[cfg]["cpu"] + " " + CONFIG[cfg].get("flags", "")).strip()
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def tree_hash():
    """Content of everything the build depends on: cargo itself only looks at time stamps."""
    h = hashlib.sha256()
    for root in (REPO, HARNESS):
        for d, dirs, files in sorted(os.walk(root)):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git", "images"))
            for f in sorted(files):
                p = os.path.join(d, f)
                if f.endswith((".rs", ".toml", ".lock", ".md")) and not os.path.islink(p):
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
                    h.update(b"\0")
    return h.hexdigest()


def build(cfg, group, want):
    """Build one configuration; returns the binary's path, or raises."""
    c = CONFIG[cfg]
    td = os.path.join(TARGET, cfg)
    os.makedirs(td, exist_ok=True)
    stamp = os.path.join(td, ".tree")
    env = env_for(cfg)
    have = open(stamp).read() if os.path.exists(stamp) else ""
    # with a target of its own, the flags do not reach the build scripts
    base = ["--target-dir", td] + (["--target", c["target"]] if "target" in c else [])
    bindir = os.path.join(td, c.get("target", ""), c["profile"])
    if have != want:
        if have or os.path.exists(bindir):
            subprocess.run(["cargo", "clean", "--offline", "--profile", c["profile"], "-p", "vers-vecs", "-p", "vvh"] + base,
                           cwd=HARNESS, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if os.path.exists(stamp):
            os.remove(stamp)
    feats = c["features"] + group.split(",")
    r = subprocess.run(["cargo", "build", "--offline", "--profile", c["profile"], "--features", ",".join(feats)] + base,
                       cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError("build of configuration %s failed:\n%s" % (cfg, r.stdout[-4000:]))
    with open(stamp, "w") as f:
        f.write(want)
    return os.path.join(bindir, "vvh")


def build_all(cfgs, group, dest):
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        want = tree_hash()
        out = {}
        with cf.ThreadPoolExecutor(len(cfgs)) as ex:
            fut = {c: ex.submit(build, c, group, want) for c in cfgs}
            for c, f in fut.items():
                p = os.path.join(dest, "vvh-" + c)
                shutil.copy2(f.result(), p)
                out[c] = p
        return out


# an error AddressSanitizer reports ends the process with this code
ASAN_EXIT = 77


def run_env():
    return dict(os.environ, ASAN_OPTIONS="exitcode=%d:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:quarantine_size_mb=64" % ASAN_EXIT)


def limits(cfg, cpu=None):
    def f():
        if cfg != "asan":  # which reserves terabytes of address space
            resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    return f


def journal_cases(path):
    out = []
    try:
        data = open(path, "rb").read()
    except OSError:
        return out
    for i in range(0, len(data), 62):
        t = data[i:i + 61].decode("ascii", "replace").split()
        if len(t) == 2 and t[1].isdigit():
            out.append((t[0], int(t[1])))
    return sorted(set(out))


def run_alone(binary, prop, cfg, seed, sub, idx):
    """Run one case in a process of its own. Returns None if it ends well, else what happened."""
    cmd = [binary, "case", "--prop", prop, "--config", cfg, "--seed", str(seed), "--sub", sub, "--index", str(idx)]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=CASE_CPU * 4, env=run_env(), preexec_fn=limits(cfg, CASE_CPU))
    except subprocess.TimeoutExpired:
        return None  # starved, not shown to be wrong
    if r.returncode == 0:
        return None
    if r.returncode == ASAN_EXIT:
        return "bad memory access: " + "; ".join(l.strip() for l in r.stderr.splitlines() if "ERROR: AddressSanitizer" in l or l.startswith(("READ of", "WRITE of", "SUMMARY")))[:500]
    if r.returncode in (-24, -9):
        return "does not end within %d CPU seconds" % CASE_CPU
    if r.returncode < 0:
        return "the process dies of signal %d: %s" % (-r.returncode, r.stderr.strip()[-300:])
    return (r.stdout.strip().splitlines() or ["fails"])[-1]


def search(binary, prop, cfg, seed, tier, tmp, extra):
    """Run the search in one configuration. Returns (report, failure or None)."""
    out, journal, hashes = (os.path.join(tmp, "%s.%s" % (cfg, x)) for x in ("json", "journal", "hashes"))
    budget = 150 if tier == "quick" else 3000
    cmd = [binary, "run", "--prop", prop, "--config", cfg, "--seed", str(seed), "--tier", tier, "--budget", str(budget),
           "--journal", journal, "--out", out, "--hashes", hashes] + extra
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, env=run_env(), preexec_fn=limits(cfg))
    last, since = None, {}
    stalled = []
    while True:
        try:
            p.wait(timeout=5)
            break
        except subprocess.TimeoutExpired:
            now = time.time()
            cur = journal_cases(journal)
            since = {c: since.get(c, now) for c in cur}
            stalled = [c for c, t in since.items() if now - t > STALL]
            if stalled:
                p.kill()
                p.wait()
                break
    err = p.stderr.read() if p.stderr else ""
    if not stalled and p.returncode in (0, 1) and os.path.exists(out):
        rep = json.load(open(out))
        rep["hash_file"] = hashes
        return rep, (rep["failures"][0] if rep["failures"] else None)
    # the process died or got stuck: find the case
    cases = stalled or journal_cases(journal)
    with cf.ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda c: run_alone(binary, prop, cfg, seed, c[0], c[1]), cases))
    for (sub, idx), what in zip(cases, res):
        if what:
            return None, dict(property=prop, sub=sub, config=cfg, seed=seed, index=idx, message=what, input="", tape=None)
    raise RuntimeError("search of %s in %s ended with %s, and none of its cases %s fails alone: %s" % (prop, cfg, p.returncode, cases, err[-500:]))


def compare_digests(bins, cfgs, prop, seed, tmp):
    """C21: the first case whose observations differ between two configurations."""
    files = {c: open(os.path.join(tmp, c + ".digests")) for c in cfgs}
    n = 0
    for lines in zip(*files.values()):
        n += 1
        if len(set(lines)) > 1:
            sub, idx, _ = lines[0].split()
            return n, shrink_digest(bins, cfgs, prop, seed, sub, int(idx), tmp)
    return n, None


def shrink_digest(bins, cfgs, prop, seed, sub, idx, tmp):
    r = subprocess.run([bins[cfgs[0]], "case", "--prop", prop, "--config", cfgs[0], "--seed", str(seed), "--sub", sub, "--index", str(idx)],
                       stdout=subprocess.PIPE, text=True)
    tape = json.loads([l for l in r.stdout.splitlines() if l.startswith("tape ")][-1][5:])
    f = os.path.join(tmp, "shrink.json")
    start = time.time()

    def differs(t):
        json.dump(dict(property=prop, sub=sub, tape=t), open(f, "w"))
        res = []
        for c in cfgs:
            q = subprocess.run([bins[c], "digest", f], stdout=subprocess.PIPE, text=True, env=run_env(), preexec_fn=limits(c, CASE_CPU))
            res.append(json.loads(q.stdout) if q.returncode == 0 else dict(digest="crash", error="crash", input="", tape=t))
        return (len({(x["digest"], x["error"]) for x in res}) > 1), res

    ok, res = differs(tape)
    k = max(1, len(tape) // 2)
    while ok and time.time() - start < 40:
        i, changed = 0, False
        while i < len(tape) and time.time() - start < 40:
            for cand in (tape[:i] + tape[i + k:], tape[:i] + [0] * len(tape[i:i + k]) + tape[i + k:]):
                if cand != tape:
                    d, r2 = differs(cand)
                    if d:
                        tape, res, changed = cand, r2, True
                        break
            else:
                i += k
        if k == 1 and not changed:
            break
        k = max(1, k // 2)
    msg = "builds disagree: " + ", ".join("%s %s%s" % (c, x["digest"], " (" + x["error"] + ")" if x["error"] else "") for c, x in zip(cfgs, res))
    return dict(property=prop, sub=sub, config=cfgs[0], configs=cfgs, seed=seed, index=idx, message=msg, input=res[0]["input"], tape=tape)


def seed_for(seed, cfg, prop):
    if prop == "C21":
        cfg = "all"
    return int.from_bytes(hashlib.sha256(("%d/%s" % (seed, cfg)).encode()).digest()[:8], "big") >> 1


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfgs = OWN.get(prop, ALL) if tier == "thorough" else QUICK.get(prop, QUICK_DEFAULT)
    tmp = tempfile.mkdtemp(prefix="vvh-")
    try:
        bins = build_all(cfgs, GROUP[prop], tmp)
        t_build = time.time() - t0
        reps, failure = [], None
        for c in cfgs:
            extra = ["--digests", "--digest-out", os.path.join(tmp, c + ".digests")] if prop == "C21" else []
            if tier == "quick" and c == "plain" and prop not in ("C05", "C06", "C21"):
                extra += ["--scale", str(PLAIN_QUICK)]
            rep, failure = search(bins[c], prop, c, seed_for(seed, c, prop), tier, tmp, extra)
            if rep:
                reps.append((c, rep))
            if failure:
                break
        compared = None
        if prop == "C21" and not failure:
            compared, failure = compare_digests(bins, cfgs, prop, seed_for(seed, "all", prop), tmp)
        distinct = 0
        if reps:
            r = subprocess.run([bins[cfgs[0]], "union"] + [x["hash_file"] for _, x in reps], stdout=subprocess.PIPE, text=True, check=True)
            distinct = int(r.stdout)
        labels = {}
        for c, x in reps:
            for k, v in x["labels"].items():
                labels[k] = labels.get(k, 0) + v
        cov = {
            "evaluations": sum(x["evaluations"] for _, x in reps),
            "distinct_nontrivial": distinct,
            "rule": reps[0][1]["rule"] if reps else "the process died before reporting",
            "samples": [s for _, x in reps for s in x["samples"]][:12],
            "configurations": {c: {"cpu": CONFIG[c]["cpu"], "profile": CONFIG[c]["profile"], "features": CONFIG[c]["features"],
                                   "evaluations": x["evaluations"], "sub_checks": x["per_sub"]} for c, x in reps},
            "classes": labels,
        }
        if compared is not None:
            cov["cases_compared_between_builds"] = compared
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
            "assumptions": ["x86-64 Linux, 64 bit usize", "instruction sets of this machine: " + ", ".join("%s=%s" % (c, CONFIG[c]["cpu"]) for c in cfgs)],
            "wall_s": round(time.time() - t0, 2), "violations": 1 if failure else 0,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d cases, %d distinct and non-trivial, %s, build %.0f s, %.0f s in all" % (
            prop, tier, cov["evaluations"], distinct, "+".join(cfgs), t_build, time.time() - t0))
        if failure:
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, "%s-%s-%s.json" % (prop, failure["config"], failure["sub"]))
            with open(path, "w") as f:
                json.dump(failure, f, indent=1)
            print("%s, sub-check %s, case %s: %s" % (failure["config"], failure["sub"], failure["index"], failure["message"][:600]))
            print("input: %s" % failure["input"][:600])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(path):
    v = json.load(open(path))
    cfgs = v.get("configs") or [v["config"]]
    tmp = tempfile.mkdtemp(prefix="vvh-")
    try:
        bins = build_all(cfgs, GROUP[v["property"]], tmp)
        if len(cfgs) > 1:
            out = []
            for c in cfgs:
                r = subprocess.run([bins[c], "digest", path], stdout=subprocess.PIPE, text=True, env=run_env(), preexec_fn=limits(c, CASE_CPU))
                out.append(r.stdout)
                print(c, r.stdout.strip()[-300:])
            return 1 if len(set(out)) > 1 else 0
        r = subprocess.run([bins[cfgs[0]], "replay", path], env=run_env(), preexec_fn=limits(cfgs[0], CASE_CPU))
        return 0 if r.returncode == 0 else 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def setup():
    tmp = tempfile.mkdtemp(prefix="vvh-")
    try:
        for g in sorted(set(GROUP.values())):
            build_all(sorted({c for p in GROUP if GROUP[p] == g for c in OWN.get(p, ALL)}), g, tmp)
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == "setup":
            return setup()
        if len(a) == 2 and a[0] == "replay":
            return replay(a[1])
        if a and a[0] in GROUP:
            tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
            return check(a[0], tier)
    except (RuntimeError, subprocess.SubprocessError, OSError, ValueError) as e:
        print("ERROR %s" % e)
        return 2
    print(__doc__)
    return 2


sys.exit(main())
