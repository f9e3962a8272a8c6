#!/usr/bin/env python3
# rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json
import glob, json, os, re, collections
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = collections.defaultdict(list)
for m in sorted(glob.glob(root + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows[d["property"]].append("**%s** %s" % (os.path.basename(os.path.dirname(m)), d["needs"].rstrip(".").replace("|", "\\|")))
t = "| check | catches |\n|-|-|\n" + "".join("| %s | %s |\n" % (p, "; ".join(rows[p])) for p in sorted(rows))
f = root + "/DESIGN.md"
s = open(f).read()
s = re.sub(r"\| check \| catches \|\n(\|.*\n)+", lambda _: t, s)
open(f, "w").write(s)
