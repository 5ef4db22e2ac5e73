#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] [--replay FILE] [--law LAW]

Builds the harness of PROPERTY from /repo's current tree (a plain -O2 build and an address/undefined-behaviour
sanitizer build), runs both on generated cases, writes evidence/PROPERTY.json.
Exit 0: the property held on everything explored.  Exit 1: a VIOLATION line was printed.  Exit 2: the check itself
could not run (for instance the harness does not compile against the tree)."""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
from registry import HARNESS, ASSUMPTIONS  # noqa: E402

BUILDS = {
    "plain": ["-O2"],
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"],
}


def compile_(prop, tag, out):
    h = HARNESS[prop]
    cmd = ["g++", "-std=c++17", "-w", "-fopenmp", "-DREPO_SRC", "-I", os.path.join(REPO, "src"),
           "-I", os.path.join(HERE, "harness")] + BUILDS[tag] + h.get("flags", []) + \
          [os.path.join(HERE, "harness", h["file"]), "-o", out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    return r


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(args) > 1 and args[1] in ("quick", "thorough"):
        tier = args[1]
    args = [a if i == 0 or args[i - 1] != "--replay" else os.path.abspath(a) for i, a in enumerate(args)]
    opt = {args[i]: args[i + 1] for i in range(1, len(args) - 1) if args[i].startswith("--")}
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    h = HARNESS[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="pansfem_" + prop + "_")
    env = dict(os.environ)
    env.update(LC_ALL="C", OMP_NUM_THREADS="1", OMP_DYNAMIC="false", OMP_WAIT_POLICY="passive",
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:handle_abort=0",
               UBSAN_OPTIONS="print_stacktrace=0:exitcode=77")
    if "case_cpu" in h:
        env.setdefault("PBT_CASE_CPU", str(h["case_cpu"]))    # seconds of CPU time after which one case counts as endless
    try:
        tags = h.get("builds", ["plain", "asan"])
        if "--replay" in opt:
            for line in open(opt["--replay"]):
                if line.startswith("build "):
                    tags = [line.split()[1]]
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            res = list(ex.map(lambda t: compile_(prop, t, os.path.join(work, t)), tags))
        for t, r in zip(tags, res):
            if r.returncode:
                sys.stderr.write(r.stderr[-4000:])
                print("ERROR: the %s harness of %s does not build against %s" % (t, prop, REPO))
                return 2
        tbuild = time.time() - t0
        if "--replay" in opt:
            return subprocess.run([os.path.join(work, tags[0]), "--replay", opt["--replay"], "--scratch", work + "/s"], env=env, cwd=work).returncode
        rc = 0
        stats = []
        for t in tags:
            if rc:
                break    # the plain build has failed already
            share = 1.0 if t == "plain" else h.get("asan_share", 0.25)
            cmd = [os.path.join(work, t), "--property", prop, "--tier", tier, "--seed", str(seed), "--share", str(share),
                   "--tag", t, "--scratch", os.path.join(work, "s_" + t), "--stats", os.path.join(work, t + ".json"),
                   "--replaydir", os.path.join(HERE, "evidence", "replays"), "--known", os.path.join(HERE, "known_findings.txt"),
                   "--budget", str(h.get("budget", {}).get(tier, 200 if tier == "quick" else 3000))]
            if "jobs" in h:
                cmd += ["--jobs", str(h["jobs"])]
            if "--law" in opt:
                cmd += ["--law", opt["--law"]]
            os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
            r = subprocess.run(cmd, env=env, cwd=work)
            if r.returncode not in (0, 1):
                print("ERROR: the %s harness of %s ended with %d" % (t, prop, r.returncode))
                return 2
            rc = max(rc, r.returncode)
            stats.append(json.load(open(os.path.join(work, t + ".json"))))
        write_evidence(prop, tier, seed, stats, time.time() - t0, tbuild)
        ev = sum(l["evaluations"] for s in stats for l in s["laws"])
        nt = sum(l["distinct_nontrivial"] for s in stats for l in s["laws"])
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violation(s), build %.1fs, total %.1fs" %
              (prop, tier, seed, ev, nt, sum(s["violations"] for s in stats), tbuild, time.time() - t0))
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)


def write_evidence(prop, tier, seed, stats, wall, tbuild):
    laws = {}
    samples = []
    for s in stats:
        for l in s["laws"]:
            e = laws.setdefault(l["law"], {"rule": l["about"], "evaluations": 0, "rejected": 0, "distinct_nontrivial": 0})
            for k in ("evaluations", "rejected", "distinct_nontrivial"):
                e[k] += l[k]
            for x in l["samples"][:1]:
                if s["tag"] == "plain" or len(samples) < 4:
                    samples.append({"law": l["law"], "build": s["tag"], "case": x.strip()})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(l["evaluations"] for l in laws.values()),
            "distinct_nontrivial": sum(l["distinct_nontrivial"] for l in laws.values()),
            "rule": "Each case is a choice stream drawn from a PRNG seeded with (VERIF_SEED, law, build, index) and decoded by the law's "
                    "generator; it is non-trivial by the rule given per law below, and distinct when its choice stream differs "
                    "from every other one of the same law and build. " +
                    " ".join("%s: %s." % (k, v["rule"].rstrip(".")) for k, v in laws.items()),
            "samples": samples,
            "laws": laws,
            "labels": {s["tag"]: s["labels"] for s in stats},
            "builds": [s["tag"] for s in stats],
            "time_budget_expired": any(s["expired"] for s in stats),
            "unreproducible_failures": [n for s in stats for n in s["notes"]],
            "build_s": round(tbuild, 1),
        },
        "assumptions": ASSUMPTIONS.get(prop, []) + ["The C++ compiler, its sanitizers and IEEE double arithmetic are trusted.",
                                                    "Absence of a counterexample among the generated cases is not a proof."],
        "wall_s": round(wall, 2),
        "violations": sum(s["violations"] for s in stats),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))


if __name__ == "__main__":
    sys.exit(main())
