#!/usr/bin/env python3
"""Makes the planted bugs of /verif/seeded from bugs.py: mk.py [id...] ; with -t also tests them."""
import json, os, re, shutil, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__))
S = "/verif/seeded"
R = "/repo"
sys.path.insert(0, H)
from bugs import BUGS  # noqa: E402


def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def clean():
    subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    test = "-t" in sys.argv or "-c" in sys.argv
    chk = "-c" in sys.argv
    assert not sh("git -C /repo status --short").stdout.strip(), "repo dirty"
    helper = open(H + "/helper.go.txt").read()
    for b in BUGS:
        if args and not any(b["id"].startswith(a) for a in args):
            continue
        d = os.path.join(S, b["id"])
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(R, f)
                s = open(p).read()
                assert s.count(old) == 1, (b["id"], f, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            diff = sh("git -C /repo diff").stdout
            gf = sh("cd /repo && /opt/veriftools/go1.23.12/bin/gofmt -l pkg").stdout
            open(d + "/patch.diff", "w").write(diff)
            # original lines changed?
            own = sh("git -C /repo diff -U0 | grep '^-' | grep -v '^---'").stdout.splitlines()
            base = {f: sh("git -C /repo show adbae43:" + f).stdout for f, _, _ in b["edits"]}
            n = sum(1 for l in own if any(l[1:] in x.splitlines() for x in base.values()))
            if not n:
                print(b["id"], "changes no original line")
            open(d + "/demo_test.go.txt", "w").write(helper + "\n" + b["demo"].strip() + "\n")
            shutil.copy(H + "/demo.sh.txt", d + "/demo.sh")
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            if test:
                r = sh("bash /opt/vp/build.sh")
                t = sh("bash /opt/vp/test.sh /tmp/o.json")
                bad = sh("cd /repo && " + d + "/demo.sh")
                res = ["build " + ("ok" if r.returncode == 0 else "FAILED " + r.stdout[-300:]), t.stdout.strip().split("\n")[-1],
                       "demo with bug rc=%d" % bad.returncode]
                if bad.returncode == 0 or "FAIL" not in bad.stdout or "build failed" in bad.stdout:
                    print(bad.stdout[-1500:])
                else:
                    m = re.findall(r"demo_test.go.*", bad.stdout)
                    res.append(" | ".join(m[:2])[:300])
                if chk:
                    c = sh("./check %s quick" % b["property"], cwd="/verif")
                    v = [l for l in c.stdout.splitlines() if "VIOLATION" in l]
                    res.append("CHECK rc=%d %s" % (c.returncode, "CAUGHT" if c.returncode == 1 and v else "MISSED"))
                    res.append("\n     ".join(l[:260] for l in c.stdout.splitlines()[:6]))
                clean()
                good = sh("cd /repo && " + d + "/demo.sh")
                res.append("demo without rc=%d" % good.returncode)
                if good.returncode:
                    print(good.stdout[-1500:])
                print(b["id"], ";  ".join(res), flush=True)
        finally:
            clean()


main()
