#!/usr/bin/env python3
"""plant.py ID...: for each planted bug seeded/ID: the patch applies to a copy of /repo, the copy builds and passes the
stable tests, demo.sh exits 0 on the unchanged tree and non-zero with the patch, and which checks report it.
Options: --notests, --nochecks, --checks C01,C02 (default: the property of meta.json)."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def ns(copy, cmd, timeout=1500):
    r = subprocess.run(["unshare", "-Urmn", "bash", "-c",
                        "ip link set lo up; mount --bind %s /repo; cd /repo; %s" % (copy, cmd)],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode(errors="replace")


def one(i, args):
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    out = []
    w = tempfile.mkdtemp(prefix="plant-")
    try:
        clean, bad, demo = os.path.join(w, "clean"), os.path.join(w, "bad"), os.path.join(w, "demo")
        for x in (clean, bad):
            shutil.copytree("/repo", x, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        r = subprocess.run(["git", "-C", bad, "apply", os.path.join(d, "patch.diff")], stderr=subprocess.PIPE)
        if r.returncode:
            return i, "patch does not apply: " + r.stderr.decode()
        for x, want in ((clean, 0), (bad, 1)):
            rc, o = ns(x, "bash /opt/vp/build.sh >/dev/null 2>&1 || exit 99; bash %s/demo.sh" % demo, 400)
            good = (rc == 0) == (want == 0) and rc != 99
            out.append("demo %s: rc=%d%s" % ("clean" if want == 0 else "patched", rc,
                                            "" if good else "  WRONG\n" + o[-1500:]))
        if "--notests" not in args:
            rc, o = ns(bad, "bash /opt/vp/test.sh %s/out.json" % w)
            st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            miss = sorted(st - set(json.load(open(w + "/out.json"))["passed"]))
            out.append("stable tests: " + ("ok" if not miss else "BROKEN %s" % miss[:5]))
        if "--nochecks" not in args:
            ps = [a[9:] for a in args if a.startswith("--checks=")]
            for p in (ps[0].split(",") if ps else [meta["property"]]):
                vcopy = os.path.join(w, "verif")
                if not os.path.exists(vcopy):
                    shutil.copytree(V, vcopy, ignore=shutil.ignore_patterns("seeded", ".git", "evidence", "replay", "__pycache__"))
                r = subprocess.run(["python3-vt", "check.py", p], cwd=vcopy, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   env=dict(os.environ, VERIF_REPO=bad, VERIF_JOBS="4"))
                o = r.stdout.decode(errors="replace")
                out.append("check %s: rc=%d %s" % (p, r.returncode, "CAUGHT" if r.returncode == 1 and
                                                   "VIOLATION property=" + p in o else "MISSED\n" + o[-800:]))
        return i, "\n   ".join(out)
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if a.startswith("-")]
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(V, "seeded")))
    with ThreadPoolExecutor(3) as ex:
        for i, r in ex.map(lambda i: one(i, args), ids):
            print(i + ":\n   " + r)
            sys.stdout.flush()


main()
