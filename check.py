#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property on /repo's current working tree
check.py --replay FILE               run the case of a replay file again
check.py --setup                     compile the harness once, so that the compiler's cache is warm

Exit 0: held on everything explored.  1: a VIOLATION line was printed.  2: the check itself could not be carried out."""
import hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
CRASH_EXITS = (2, 3, 66)
HANG_LIMIT = {"quick": 700, "thorough": 3000}

FUZZ_SECONDS = 600  # of the coverage-guided search of the thorough tier

# cases of one process, and processes, of the quick and thorough tier
DEFAULT = (40000, 6, 400000, 8)
COUNTS = {
    "C04": (20000, 6, 200000, 8),
    "C11": (40000, 6, 400000, 8),
    "C22": (80000, 6, 600000, 8),
    "C23": (15000, 6, 150000, 8),
    "C24": (18000, 6, 180000, 8),
    "C25": (2500, 4, 25000, 4),
}


def environment():
    e = dict(os.environ)
    e.update(GOPROXY="off", GOFLAGS="-mod=mod", GOTOOLCHAIN="local", GOWORK="off", GOSUMDB="off")
    e.setdefault("HOME", "/root")
    e["PATH"] = e.get("PATH", "") + ":/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin"
    for k in ("GOGC", "GOMEMLIMIT", "GODEBUG", "GOEXPERIMENT"):
        e.pop(k, None)
    return e


def lines(path):
    with open(path) as f:
        return f.read().splitlines()


def build(scratch, race, fuzz=False):
    """Compiles the harness against /repo as it is. Committed files stay as they are: module files are copies."""
    mod = os.path.join(scratch, "build.mod")
    shutil.copy(os.path.join(HARNESS, "go.mod"), mod)
    sums = lines(os.path.join(HARNESS, "go.sum"))
    try:
        sums += lines(os.path.join(REPO, "go.sum"))
    except OSError:
        pass
    with open(os.path.join(scratch, "build.sum"), "w") as f:
        f.write("\n".join(sorted(set(s for s in sums if s))) + "\n")
    exe = os.path.join(scratch, "harness.race.test" if race else "harness.fuzz.test" if fuzz else "harness.test")
    cmd = ["go", "test", "-c", "-vet=off", "-modfile", mod, "-o", exe] + (["-race"] if race else []) + (["-fuzz=."] if fuzz else []) + ["."]
    r = subprocess.run(cmd, cwd=HARNESS, env=environment(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        print("check: the harness does not build against /repo\n" + r.stdout)
        sys.exit(2)
    return exe


def seed_of(seed, prop, shard):
    h = hashlib.sha256(("%s/%s/%d" % (seed, prop, shard)).encode()).digest()
    return int.from_bytes(h[:7], "big") or 1


class Results:
    """What a test process has left behind."""
    race, seed = False, 0

    def __init__(self, prop, d):
        self.prop, self.dir = prop, d

    def read(self, name):
        try:
            with open(os.path.join(self.dir, name), errors="replace") as f:
                return f.read()
        except OSError:
            return ""


class Shard(Results):
    def __init__(self, exe, scratch, prop, seed, checks, race, name, dictionary=None):
        self.prop, self.seed, self.checks, self.race, self.exe, self.scratch = prop, seed, checks, race, exe, scratch
        self.dir = os.path.join(scratch, name)
        os.mkdir(self.dir)
        self.log = os.path.join(self.dir, "out.txt")
        env = environment()
        env.update(VERIF_OUT=self.dir, VERIF_REPO=REPO, GORACE="halt_on_error=1 exitcode=66")
        env.pop("VERIF_DICT", None)
        if dictionary:
            env["VERIF_DICT"] = os.path.join(self.dir, "given.json")
            with open(env["VERIF_DICT"], "w") as f:
                json.dump(dictionary, f)
        args = [exe, "-test.run", "^Test%s$" % prop, "-test.timeout=0", "-rapid.checks=%d" % checks, "-rapid.seed=%d" % seed,
                "-rapid.nofailfile", "-rapid.shrinktime=20s"]
        with open(self.log, "wb") as f:
            self.p = subprocess.Popen(args, cwd=self.dir, env=env, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT)

    def output(self):
        with open(self.log, "rb") as f:
            f.seek(0, 2)
            n = f.tell()
            if n <= 400000:
                f.seek(0)
                return f.read().decode("utf-8", "replace")
            f.seek(0)
            a = f.read(200000)
            f.seek(n - 200000)
            return (a + b"\n...\n" + f.read()).decode("utf-8", "replace")


def kill(shards):
    for s in shards:
        if s.p.poll() is None:
            s.p.kill()
            s.p.wait()


def wait(shards, limit):
    """Waits for the shards, until one of them does not end well."""
    end = time.time() + limit
    while time.time() < end:
        bad = [s for s in shards if s.p.poll() not in (None, 0)]
        if bad:
            kill(shards)
            return bad[0]
        if all(s.p.poll() == 0 for s in shards):
            return None
        time.sleep(0.02)
    kill(shards)
    print("check: no answer within %d s" % limit)
    sys.exit(2)


def violation(s, seed, tier, found):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    found.update(property=s.prop, rapid_seed=s.seed, race=s.race, verif_seed=seed, tier=tier)
    if s.read("dict.json"):
        found["dictionary"] = json.loads(s.read("dict.json"))
    path = os.path.join(d, "%s-%s.json" % (s.prop, hashlib.sha256(json.dumps(found, sort_keys=True).encode()).hexdigest()[:12]))
    with open(path, "w") as f:
        json.dump(found, f, indent=1)
    print(found.get("message", "")[:3000])
    print("calls: " + found.get("calls", "")[:3000])
    if found.get("text"):
        print("text: " + found["text"][:3000])
    print("VIOLATION property=%s replay=%s" % (s.prop, path))
    return path


def examine(s, scratch, seed, tier):
    """A shard did not end well: either the property is broken, or the check could not be carried out."""
    out = s.output()
    rc = s.p.returncode
    if rc == 1 and s.read("failure.json"):
        found = json.loads(s.read("failure.json"))
        m = re.findall(r"-rapid\.seed=(\d+)", out)
        first = re.search(r"\[rapid\] (?:failed|panic) after (\d+)", out)
        found["log"] = "\n".join(l for l in out.splitlines() if "[rapid] draw" not in l)[:6000]
        if m:
            s.seed = int(m[-1])
            found["checks"] = 1
        elif first:
            found["checks"] = int(first.group(1)) + 1
        violation(s, seed, tier, found)
        return True
    if rc in CRASH_EXITS:
        # the process ended itself: a fatal error, a data race, a case without end
        again = Shard(s.exe, scratch, s.prop, s.seed, s.checks, s.race, os.path.basename(s.dir) + ".again")
        try:
            again.p.wait(timeout=HANG_LIMIT[tier])
        except subprocess.TimeoutExpired:
            kill([again])
        if s.race and "DATA RACE" in out or again.p.returncode in CRASH_EXITS + (1,):
            what = re.search(r"(WARNING: DATA RACE.*|fatal error: .*|HANG.*|MEMORY.*|panic: .*)", out)
            violation(s, seed, tier, {"message": "the process ended: " + (what.group(1) if what else "exit %d" % rc), "calls": s.read("journal.txt"),
                                      "checks": s.checks, "log": out[:12000]})
            return True
    print("check: the test process ended with %s\n%s" % (rc, out[-3000:]))
    return False


def fuzz_env(d):
    env = environment()
    env.pop("VERIF_DICT", None)
    env.update(VERIF_OUT=d, VERIF_REPO=REPO)
    return env


def run_input(exe, prop, d, content, dictionary=None):
    """Runs one input of the coverage-guided search."""
    t = os.path.join(d, "testdata", "fuzz", "Fuzz" + prop)
    os.makedirs(t, exist_ok=True)
    with open(os.path.join(t, "replay"), "w") as f:
        f.write(content)
    env = fuzz_env(d)
    if dictionary:
        env["VERIF_DICT"] = os.path.join(d, "given.json")
        with open(env["VERIF_DICT"], "w") as f:
            json.dump(dictionary, f)
    return subprocess.run([exe, "-test.run", "^Fuzz%s$/^replay$" % prop, "-test.v"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


def coverage_guided(exe, prop, scratch, seed, tier, stats):
    """Lets the coverage of the code under test lead the search. True: violation, None: not carried out."""
    d = os.path.join(scratch, "fuzz")
    os.mkdir(d)
    fuzzer = build(scratch, False, True)
    env = fuzz_env(d)
    env["VERIF_FUZZ_SEED"] = str(seed_of(seed, prop, 1000) % 10**9)
    with open(os.path.join(d, "out.txt"), "w") as f:
        p = subprocess.Popen([fuzzer, "-test.run", "^$", "-test.fuzz", "^Fuzz%s$" % prop, "-test.fuzzcachedir", os.path.join(d, "cache"), "-test.fuzztime", "%ds" % FUZZ_SECONDS,
                              "-test.fuzzminimizetime", "5x", "-test.parallel", "8"], cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            p.wait(timeout=FUZZ_SECONDS * 3 + 300)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            print("check: the coverage-guided search gave no answer")
            return None
    with open(os.path.join(d, "out.txt"), errors="replace") as f:
        out = f.read()
    n = re.findall(r"execs: (\d+) .*new interesting: (\d+)", out)
    stats["coverage-guided executions"] = int(n[-1][0]) if n else 0
    stats["coverage-guided inputs that reached new code"] = int(n[-1][1]) if n else 0
    if p.returncode == 0:
        return False
    m = re.search(r"Failing input written to (testdata\S+)", out)
    s = Results(prop, d)
    content = s.read(m.group(1) if m else "input.txt")
    if content:
        again = run_input(exe, prop, d, content)
        if again.returncode in (1, 2, 3):
            found = json.loads(s.read("failure.json")) if s.read("failure.json") else {"message": "the process ended", "calls": s.read("journal.txt")}
            found.update(fuzz_input=content, checks=1, log=again.stdout[:6000])
            violation(s, seed, tier, found)
            return True
    print("check: the coverage-guided search ended with %s\n%s" % (p.returncode, out[-3000:]))
    return None


def findings(exe, prop, scratch):
    """Prints the recorded findings of the property that still are."""
    listed = []
    for l in lines(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"KNOWN-FINDING: property=(\S+) \[(\S+)\] (.*)", l)
        if m and m.group(1) == prop:
            listed.append((m.group(2), m.group(3)))
    if not listed:
        return []
    r = subprocess.run([exe, "-test.run", "^TestFindings$", "-test.v"], cwd=scratch, env=environment(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
    there = set(re.findall(r"^FINDING (\S+)$", r.stdout, re.M))
    known = [t for name, t in listed if name in there]
    for t in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, t))
    return known


def decide(prop, tier, seed):
    start = time.time()
    q, qs, t, ts = COUNTS.get(prop, DEFAULT)
    checks, n = (q, qs) if tier == "quick" else (t, ts)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        race = prop == "C25"
        exe = build(scratch, race)
        shards = [Shard(exe, scratch, prop, seed_of(seed, prop, i), checks, race, "s%d" % i) for i in range(n)]
        bad = wait(shards, HANG_LIMIT[tier])
        if bad and not examine(bad, scratch, seed, tier):
            return 2
        fuzzed = {}
        if not bad and tier == "thorough" and not race:
            bad = coverage_guided(exe, prop, scratch, seed, tier, fuzzed)
            if bad is None:
                return 2
        known = findings(exe, prop, scratch)
        evaluations, hashes, samples, stats, rule = 0, set(), [], {}, ""
        for s in shards:
            b = s.read("report.json")
            if not b:
                continue
            r = json.loads(b)
            evaluations += r["evaluations"]
            hashes.update(r["nontrivial"] or [])
            samples += (r["samples"] or [])[-4:]
            rule = r["rule"]
            for k, v in r["stats"].items():
                stats[k] = stats.get(k, 0) + v
        stats.update(fuzzed)
        evaluations += fuzzed.get("coverage-guided executions", 0)
        if not bad and (evaluations < checks * n or not hashes):
            print("check: only %d cases, %d non-trivial" % (evaluations, len(hashes)))
            return 2
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": int(seed), "level": "exploration",
                       "coverage": {"evaluations": evaluations, "distinct_nontrivial": len(hashes), "rule": rule or "none: the run ended with a violation",
                                    "samples": samples[:12] or ["none: the run ended with a violation"], "classes": stats, "processes": n,
                                    "cases_per_process": checks, "known_findings": known},
                       "assumptions": ["the query reader, the specifications and the domain described in DESIGN.md"],
                       "wall_s": round(time.time() - start, 2), "violations": 1 if bad else 0}, f, indent=1)
        if bad:
            return 1
        print("property=%s tier=%s seed=%s: held on %d cases, %d distinct non-trivial, %.1f s" % (prop, tier, seed, evaluations, len(hashes), time.time() - start))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path):
    with open(path) as f:
        found = json.load(f)
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        exe = build(scratch, found["race"])
        if "fuzz_input" in found:
            r = run_input(exe, found["property"], scratch, found["fuzz_input"], found.get("dictionary"))
            print(r.stdout[-6000:])
            if r.returncode:
                print("VIOLATION property=%s replay=%s" % (found["property"], path))
            return 1 if r.returncode else 0
        s = Shard(exe, scratch, found["property"], found["rapid_seed"], found["checks"], found["race"], "s", found.get("dictionary"))
        s.p.wait()
        print(s.output()[-6000:])
        if s.p.returncode:
            print("VIOLATION property=%s replay=%s" % (found["property"], path))
        return 1 if s.p.returncode else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main(a):
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if len(a) == 2 and a[0] == "--replay":
        return replay(a[1])
    if a == ["--setup"]:
        scratch = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            build(scratch, False)
            build(scratch, True)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        return 0
    if not a or not re.match(r"C\d\d$", a[0]):
        print(__doc__)
        return 2
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    return decide(a[0], "thorough" if tier == "thorough" else "quick", seed if re.match(r"-?\d+$", seed) else "1")


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
