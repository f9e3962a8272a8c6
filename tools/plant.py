#!/usr/bin/env python3
"""plant.py FILE...: makes seeded bugs from python files that define BUG = dict(id, property, needs, breaks, edits, demo).

edits: (file, old, new) or (file, old, new, count). demo: body of func main of a Go program with
want(label, got, expected), render(statement, err) and refuse(label, statement, err)."""
import os, re, shutil, subprocess, sys, json
V = "/verif"
W = "/tmp/w/bug"
MAIN = '''package main

import (
	"fmt"
	"os"
%(imports)s
	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

var failed = false

func want(label, got, expected string) {
	if got != expected {
		fmt.Printf("%%s\\n got      %%s\\n expected %%s\\n", label, got, expected)
		failed = true
	}
}

func refuse(label string, s cypher.Statement, err error) {
	if text := render(s, err); len(text) < 6 || text[:6] != "error:" {
		fmt.Printf("%%s: not refused: %%s\\n", label, text)
		failed = true
	}
}

func render(s cypher.Statement, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	text, err := cypher.NewRenderer().Render(s)
	if err != nil {
		return "error: " + err.Error()
	}
	return text
}

func main() {
%(body)s
	if failed {
		os.Exit(1)
	}
}
'''
DEMO = '''#!/bin/bash
# Runs main.go against the library in the current directory.
export GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local HOME="${HOME:-/root}" PATH="$PATH:/usr/local/go/bin:/usr/local/bin"
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cp "$here/main.go" "$work/main.go"
cp "$repo/go.sum" "$work/go.sum"
printf 'module demo\\n\\ngo 1.14\\n\\nrequire github.com/manhcuongbk56/cypher-go-dsl v0.0.0\\n\\nreplace github.com/manhcuongbk56/cypher-go-dsl => %s\\n' "$repo" > "$work/go.mod"
cd "$work" || exit 2
timeout 250 go run . 
'''
ENV = dict(os.environ, GOPROXY="off", GOFLAGS="-mod=mod", GOTOOLCHAIN="local")


def sh(cmd, cwd=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


def stable(repo):
    log = sh("go test -exec 'env GOGC=off GOMEMLIMIT=2GiB' -json -vet=off -count=1 ./... > /tmp/w/plant/log.json; python3 /opt/vp/results.py /tmp/w/plant/o.json gojson:/tmp/w/plant/log.json", repo)
    b = json.load(open("/opt/vp/BASELINE.json"))
    o = json.load(open("/tmp/w/plant/o.json"))
    want = set(b.get("stable", b.get("passing", [])))
    return sorted(want - set(o.get("passed", []))), log.stdout


def plant(path):
    ns = {}
    exec(open(path).read(), ns)
    r = []
    for b in ns["BUGS"]:
        r.append((b["id"], one(b)))
    return r


def one(b):
    shutil.rmtree("/tmp/w/bug", ignore_errors=True)
    shutil.copytree("/repo", "/tmp/w/bug", symlinks=True)
    d = os.path.join(V, "seeded", b["id"])
    for e in b["edits"]:
        f = os.path.join(W, e[0])
        s = open(f).read()
        n = e[3] if len(e) > 3 else 1
        if s.count(e[1]) != n:
            return "edit does not apply (%d): %s" % (s.count(e[1]), e[1][:60])
        open(f, "w").write(s.replace(e[1], e[2]))
    r = sh("gofmt -l %s; go build ./..." % " ".join(e[0] for e in b["edits"]), W)
    if r.returncode:
        return "build: " + r.stdout
    missing, _ = stable(W)
    if missing:
        return "tests fail: %s" % missing[:5]
    os.makedirs(d, exist_ok=True)
    body = "\n".join(("\t" + l if l else "") for l in b["demo"].strip("\n").split("\n"))
    open(os.path.join(d, "main.go"), "w").write(MAIN % {"imports": "".join('\t"%s"\n' % i for i in b.get("imports", [])), "body": body})
    sh("gofmt -w main.go", d)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    diff = sh("git diff -- .", W).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    bad = None
    r = sh("bash %s/demo.sh" % d, "/repo")
    if r.returncode:
        bad = "demo fails on the unchanged tree: " + r.stdout[:1500]
    r = sh("bash %s/demo.sh" % d, W)
    if not r.returncode:
        bad = (bad or "") + " demo passes with the patch"
    elif r.returncode != 1 or "exit status 2" in r.stdout:
        print(r.stdout[:300])
    if bad:
        shutil.rmtree(d)
        return bad
    # original lines
    orig = 0
    for f in re.findall(r"^--- a/(.*)$", diff, re.M):
        base = sh("git show b749828:%s" % f, "/repo").stdout.splitlines()
        orig += sum(1 for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:] in base)
    return "ok, %d original lines changed" % orig


if __name__ == "__main__":
    os.makedirs("/tmp/w/plant", exist_ok=True)
    for f in sys.argv[1:]:
        for i, r in plant(f):
            print(i, ":", r)
    shutil.rmtree("/tmp/w/bug", ignore_errors=True)
