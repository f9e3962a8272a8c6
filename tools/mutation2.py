#!/usr/bin/env python3
"""mutation2.py RESULTS.jsonl OUT.jsonl: runs the harness longer against the mutants that survived tools/mutation.py."""
import json, os, re, shutil, subprocess, sys, threading, queue
W = "/tmp/w/mt2"
done = {json.loads(l)["id"] for l in open(sys.argv[2])} if os.path.exists(sys.argv[2]) else set()
todo = [m for m in map(json.loads, open(sys.argv[1])) if m["result"].lower().startswith("surv") and m["id"] not in done]
shutil.rmtree(W, ignore_errors=True)
os.makedirs(W)
subprocess.run(["cp", "-a", "/verif/harness", W + "/harness"], check=True)
subprocess.run(["cp", "-a", "/repo", W + "/repo"], check=True)
mod = open(W + "/harness/go.mod").read().replace("=> /repo", "=> %s/repo" % W)
open(W + "/harness/go.mod", "w").write(mod)
env0 = dict(os.environ, GOPROXY="off", GOFLAGS="-mod=mod", GOTOOLCHAIN="local", GOMAXPROCS="2")
q = queue.Queue()
for m in todo:
    q.put(m)
lock = threading.Lock()
out = open(sys.argv[2], "a")


def work(k):
    d = "%s/%d" % (W, k)
    os.makedirs(d + "/out")
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            return
        src = open("%s/repo/%s" % (W, m["file"]), "rb").read()
        open(d + "/m.go", "wb").write(src[:m["From"]] + m["new"].encode() + src[m["To"]:])
        json.dump({"Replace": {"%s/repo/%s" % (W, m["file"]): d + "/m.go"}}, open(d + "/o.json", "w"))
        env = dict(env0, VERIF_OUT=d + "/out")
        res = "SURVIVED"
        if subprocess.run(["go", "test", "-c", "-vet=off", "-overlay", d + "/o.json", "-o", d + "/h.test", "."], cwd=W + "/harness", env=env).returncode:
            res = "no build"
        else:
            for n, which in ((40000, "C22"), (5000, "C(0|1|21|23|24|26).*")):
                r = subprocess.run([d + "/h.test", "-test.failfast", "-rapid.nofailfile", "-rapid.shrinktime=0s", "-rapid.checks=%d" % n, "-rapid.seed=77", "-test.run", "^Test%s$" % which], cwd=d + "/out", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                if r.returncode:
                    t = re.search(r"--- FAIL: Test(C\d\d)", r.stdout)
                    res = "killed " + (t.group(1) if t else "crash")
                    break
        m["result"] = res
        with lock:
            out.write(json.dumps(m) + "\n")
            out.flush()


ts = [threading.Thread(target=work, args=(k,)) for k in range(7)]
[t.start() for t in ts]
[t.join() for t in ts]
shutil.rmtree(W, ignore_errors=True)
