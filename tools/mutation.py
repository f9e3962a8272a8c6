#!/usr/bin/env python3
"""mutation.py MUTANTS.jsonl OUT.jsonl [limit]: runs the harness against each mutant that tools/mutate lists, in scratch copies
under /tmp/w; survivors are run longer, and against the repository's own tests. Resumes where it stopped."""
import json, os, random, shutil, subprocess, sys, threading, queue
W = "/tmp/w/mt"
muts = [json.loads(l) for l in open(sys.argv[1])]
for i, m in enumerate(muts):
    m["id"] = "%s:%d:%d:%s" % (m["file"], m["From"], m["To"], m["new"])
done = set()
if os.path.exists(sys.argv[2]):
    done = {json.loads(l)["id"] for l in open(sys.argv[2])}
todo = [m for m in muts if m["id"] not in done]
random.Random(5).shuffle(todo)
if len(sys.argv) > 3:
    todo = todo[:int(sys.argv[3])]
shutil.rmtree(W, ignore_errors=True)
os.makedirs(W)
subprocess.run(["cp", "-a", "/verif/harness", W + "/harness"], check=True)
subprocess.run(["cp", "-a", "/repo", W + "/repo"], check=True)
mod = open(W + "/harness/go.mod").read().replace("=> /repo", "=> %s/repo" % W)
open(W + "/harness/go.mod", "w").write(mod)
env0 = dict(os.environ, GOPROXY="off", GOFLAGS="-mod=mod", GOTOOLCHAIN="local", GOMAXPROCS="2")
base = W + "/cache"
subprocess.run(["go", "test", "-c", "-vet=off", "-gcflags=all=-N -l", "-ldflags=-s -w", "-o", W + "/base.test", "."], cwd=W + "/harness", env=dict(env0, GOCACHE=base), check=True)
import re
def failing(o):
    return set(re.findall(r"--- FAIL: (\S+)", o))
fails = failing(subprocess.run(["go", "test", "-vet=off", "-gcflags=all=-N -l", "-count=1", "./..."], cwd=W + "/repo", env=dict(env0, GOCACHE=base), stdout=subprocess.PIPE, text=True, errors="replace").stdout)
q = queue.Queue()
for m in todo:
    q.put(m)
lock = threading.Lock()
out = open(sys.argv[2], "a")
counts = {}


def run(cmd, cwd, env, t):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True, errors="replace")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return -9, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else "timeout"


def work(k):
    d = "%s/%d" % (W, k)
    os.makedirs(d)
    cache = d + "/cache"
    shutil.copytree(base, cache)
    n = 0
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            return
        n += 1
        if n % 150 == 0:
            shutil.rmtree(cache, ignore_errors=True)
            shutil.copytree(base, cache)
        src = open("%s/repo/%s" % (W, m["file"]), "rb").read()
        open(d + "/m.go", "wb").write(src[:m["From"]] + m["new"].encode() + src[m["To"]:])
        json.dump({"Replace": {"%s/repo/%s" % (W, m["file"]): d + "/m.go"}}, open(d + "/o.json", "w"))
        env = dict(env0, GOCACHE=cache, VERIF_OUT=d + "/out")
        os.makedirs(d + "/out", exist_ok=True)
        rc, o = run(["go", "test", "-c", "-vet=off", "-gcflags=all=-N -l", "-ldflags=-s -w", "-overlay", d + "/o.json", "-o", d + "/h.test", "."], W + "/harness", env, 300)
        res = ""
        if rc:
            res = "no build"
        else:
            for cases, name in ((60, "killed"), (500, "killed late")):
                rc, o = run([d + "/h.test", "-test.failfast", "-rapid.nofailfile", "-rapid.shrinktime=0s", "-rapid.checks=%d" % cases, "-rapid.seed=%d" % (n + 1), "-test.run", "^TestC"], d + "/out", env, 240)
                if rc:
                    t = re.search(r"--- FAIL: Test(C\d\d)", o)
                    res = name + " " + (t.group(1) if t else "crash %d" % rc)
                    break
            if not rc:
                rc, o = run(["go", "test", "-vet=off", "-gcflags=all=-N -l", "-count=1", "-overlay", d + "/o.json", "./..."], W + "/repo", env, 120)
                res = "SURVIVED" if "--- FAIL" in o and failing(o) <= fails or not rc else "survived, tests fail"
        m["result"] = res
        with lock:
            out.write(json.dumps(m) + "\n")
            out.flush()
            counts[res.split(" C")[0]] = counts.get(res.split(" C")[0], 0) + 1
            s = sum(counts.values())
            if s % 50 == 0:
                print(s, "of", len(todo), counts, flush=True)


ts = [threading.Thread(target=work, args=(k,)) for k in range(8)]
[t.start() for t in ts]
[t.join() for t in ts]
print(counts)
shutil.rmtree(W, ignore_errors=True)
