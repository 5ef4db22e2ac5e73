#!/usr/bin/env python3
"""plant.py SPEC.py [ID ...]   Makes seeded/ID from a spec, confirms it, and runs the property's check against it.
SPEC.py holds BUGS = [dict(id, prop, file, edits=[(old, new)], needs, breaks, demo)]: demo is the text of a C++ program.
Every candidate lives in a copy of /repo, shown at /repo in a mount namespace of its own.
Only used while developing (no check reads seeded/)."""
import concurrent.futures, json, os, shutil, subprocess, sys, runpy

SC, OUT = "/tmp/sc", "/verif/seeded"
DEMO = '''#!/bin/bash
# cwd is /repo, built.  Exit 0 when the property holds.
here="$(cd "$(dirname "$0")" && pwd)"
exe="$(mktemp -d)/demo"
g++ -std=c++17 -O1 -fopenmp -w -I"$PWD/src" "$here/demo.cpp" -o "$exe" || exit 3
%stimeout 120 "$exe"
rc=$?
rm -f "$exe"; rmdir "$(dirname "$exe")"
exit $rc
'''

def ns(copy, cmd, **kw):
    return subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (copy, cmd)],
                          capture_output=True, text=True, **kw)

def one(b, suite=True, check=True):
    i = b["id"]
    d, c = os.path.join(OUT, i), os.path.join(SC, i)
    log = [i + " " + b["prop"]]
    try:
        shutil.rmtree(c, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", c], check=True)
        files = b["files"] if "files" in b else {b["file"]: b["edits"]}
        for f, edits in files.items():
            p = os.path.join(c, f)
            s = open(p, newline="").read()
            crlf = "\r\n" in s
            for old, new in edits:
                if crlf:
                    old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                n = s.count(old)
                if n != 1:
                    return "%s: %d matches of %r in %s" % (i, n, old[:60], f)
                s = s.replace(old, new)
            open(p, "w", newline="").write(s)
        patch = subprocess.run(["git", "-C", c, "diff", "--binary"], capture_output=True).stdout
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "wb").write(patch)
        if "demo" in b:
            open(os.path.join(d, "demo.cpp"), "w").write(b["demo"].lstrip("\n"))
            open(os.path.join(d, "demo.sh"), "w").write(DEMO % b.get("env", ""))
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        r0 = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
        r1 = ns(c, "bash %s/demo.sh" % d)
        log.append("demo %d -> %d" % (r0.returncode, r1.returncode))
        if r0.returncode or not r1.returncode or r1.returncode == 3:
            log.append("BAD DEMO\n" + (r0.stdout + r0.stderr)[-600:] + "\n--\n" + (r1.stdout + r1.stderr)[-600:])
            return "; ".join(log)
        if suite:
            ns(c, "bash /opt/vp/test.sh %s/_o.json" % c, timeout=1500)
            bad = "no result"
            if os.path.exists(c + "/_o.json"):
                o = json.load(open(c + "/_o.json"))
                bad = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in o["passed"]]
            log.append("suite OK" if not bad else "SUITE FAILS %s" % bad)
        if check:
            v = SC + "/verif_" + i
            shutil.rmtree(v, ignore_errors=True)
            os.makedirs(v)
            subprocess.run("cp -a /verif/harness /verif/tools /verif/check.py /verif/known_findings.txt %s/" % v, shell=True)
            r = ns(c, "VERIF_SEED=1 %s/check.py %s quick" % (v, b["prop"]), timeout=2000)
            lines = [l for l in r.stdout.splitlines() if "VIOLATION" in l or l.startswith(b["prop"]) or "law" in l.lower()]
            log.append(("CAUGHT" if r.returncode == 1 and "VIOLATION" in r.stdout else "MISSED rc=%d" % r.returncode) + "\n    " + "\n    ".join(lines[:4]) + (r.stderr[-300:] if r.returncode > 1 else ""))
            shutil.rmtree(v, ignore_errors=True)
    finally:
        shutil.rmtree(c, ignore_errors=True)
    return "; ".join(log)

if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    spec = runpy.run_path(args[0])["BUGS"]
    if len(args) > 1:
        spec = [b for b in spec if b["id"] in args[1:]]
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda b: one(b, "--nosuite" not in sys.argv, "--nocheck" not in sys.argv), spec):
            print(r, flush=True)
