#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE: reads from stdin sections '<<<<' old '====' new '>>>>' (repeatable) and 'NEEDS ...',
'BREAKS ...', 'DEMO' (rest: the demo's Python program); writes seeded/ID"""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, prop, fn = sys.argv[1:4]
t = sys.stdin.read()
head, demo = t.split("\nDEMO\n", 1)
needs = re.search(r"^NEEDS (.*)$", head, re.M).group(1)
breaks = re.search(r"^BREAKS (.*)$", head, re.M).group(1)
w = tempfile.mkdtemp(prefix="seed-")
subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
p = os.path.join(w, "r", fn)
s = open(p, newline="").read()
crlf = "\r\n" in s
s = s.replace("\r\n", "\n")
for old, new in re.findall(r"^<<<<\n(.*?)^====\n(.*?)^>>>>$", head, re.M | re.S):
    assert s.count(old) == 1, (s.count(old), old)
    s = s.replace(old, new)
open(p, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)
d = os.path.join(V, "seeded", i)
os.makedirs(d, exist_ok=True)
diff = subprocess.check_output(["git", "-C", w + "/r", "diff"])
open(d + "/patch.diff", "wb").write(diff)
open(d + "/demo.py", "w").write(demo)
open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: the property holds in this scenario; anything else: it is broken\n'
                                'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
shutil.rmtree(w)
print(diff)
