#!/usr/bin/env python3
"""Builds the harness from /repo's working tree and decides one property.

  check.py build               build only (setup_cmd)
  check.py <ID> quick|thorough  run one check (VERIF_SEED, default 1)
  check.py replay <FILE>        re-run one stored case in both builds

Exit 0: held on everything explored; 1: violation (with a VIOLATION line);
2: the check could not be carried out.
"""
import fcntl, glob, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(HERE, "target")
PROFILES = ["checked", "release"]
TECH = "exploration"


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.setdefault("RUSTUP_TOOLCHAIN", "stable")
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"):
        e.pop(k, None)
    return e


def build():
    os.makedirs(TARGET, exist_ok=True)
    lock = open(os.path.join(TARGET, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    for p in PROFILES:
        # the library is always rebuilt: a change must not be missed because
        # a file's time stamp did not move
        for d in glob.glob(os.path.join(TARGET, p, ".fingerprint", "rasp*")):
            shutil.rmtree(d, ignore_errors=True)
    procs = []
    for p in PROFILES:
        # one target folder per profile would build in parallel as well, but
        # cargo locks per folder and profile, so this does too
        cmd = ["cargo", "build", "--offline", "--locked", "--quiet", "--profile", p, "--target-dir", TARGET]
        procs.append((p, subprocess.Popen(cmd, cwd=os.path.join(HERE, "harness"), env=env(),
                                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    ok = True
    for p, pr in procs:
        out, _ = pr.communicate()
        if pr.returncode != 0:
            ok = False
            sys.stderr.write("build (%s) failed:\n%s\n" % (p, out[-4000:]))
    if not ok:
        sys.exit(2)
    bins = {}
    for p in PROFILES:
        bins[p] = os.path.join(TARGET, p, "rasp-verif")
    return lock, bins


def run(pid, tier):
    t0 = time.time()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    lock, bins = build()
    replays = os.path.join(HERE, "replays")
    evid = os.path.join(HERE, "evidence")
    os.makedirs(replays, exist_ok=True)
    os.makedirs(evid, exist_ok=True)
    parts, violations = {}, []
    for i, p in enumerate(PROFILES):
        out = os.path.join(replays, ".%s-%s.part" % (pid, p))
        if os.path.exists(out):
            os.remove(out)
        # the two builds explore different cases
        s = (2 * seed + i) & 0xFFFFFFFFFFFFFFFF
        r = subprocess.run([bins[p], "check", pid, "--tier", tier, "--seed", str(s), "--out", out,
                            "--replays", replays, "--regressions", os.path.join(HERE, "regressions")],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env())
        lines = [l for l in r.stdout.splitlines() if l.strip()]
        part = {}
        if os.path.exists(out):
            part = json.load(open(out))
            os.remove(out)
        parts[p] = part
        if r.returncode == 0 and part:
            continue
        if r.returncode == 1 and any(l.startswith("VIOLATION property=%s " % pid) for l in lines):
            violations.append((p, lines))
            break
        if r.returncode in (-6, -11, -4, -8):
            # the code under test brought the process down (abort, stack
            # overflow); the same seed and build reproduce it
            path = os.path.join(replays, "%s-crash-%s-%d.json" % (pid, p, s))
            json.dump({"property": pid, "crash": True, "signal": -r.returncode, "profile": p,
                       "tier": tier, "seed": s, "stderr": r.stderr[-2000:]}, open(path, "w"), indent=1)
            violations.append((p, ["the process died on signal %d" % -r.returncode,
                                   "VIOLATION property=%s replay=%s" % (pid, path)]))
            break
        sys.stderr.write("%s (%s): exit %s\n%s\n%s\n" % (pid, p, r.returncode, r.stdout[-2000:], r.stderr[-2000:]))
        sys.exit(2)
    subs, rules, samples = {}, [], []
    for p, part in parts.items():
        for r in part.get("rules", []):
            if r not in rules:
                rules.append(r)
        samples += part.get("samples", [])[:6]
        for k, v in part.get("sub_checks", {}).items():
            subs.setdefault(k, {})[p] = v
    # cases of the two builds are not compared with each other, so distinct
    # ones are counted within one build
    distinct = sum(max(v["distinct_nontrivial"] for v in d.values()) for d in subs.values())
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": TECH,
        "coverage": {
            "evaluations": sum(p.get("evaluations", 0) for p in parts.values()),
            "distinct_nontrivial": distinct,
            "rule": " ".join(rules) + " Cases are run against two builds of the library (release, and with debug"
                    " assertions and overflow checks) with different seeds; distinct_nontrivial counts distinct"
                    " non-trivial cases within the build that had more of them, per sub-check.",
            "samples": samples,
            "sub_checks": subs,
            "regressions_replayed": sum(p.get("regressions_replayed", 0) for p in parts.values()),
        },
        "assumptions": ["Search over generated inputs: absence of violations is not proved.",
                        "The reference computations of the harness and the compiler are trusted."],
        "wall_s": round(time.time() - t0, 3),
        "violations": len(violations),
    }
    tmp = os.path.join(evid, pid + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(evid, pid + ".json"))
    if violations:
        for p, lines in violations:
            print("build: " + p)
            for l in lines:
                print(l)
        return 1
    print("%s %s: held on %d generated cases (%d distinct non-trivial), %.1f s"
          % (pid, tier, ev["coverage"]["evaluations"], distinct, ev["wall_s"]))
    return 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["build"]:
        build()
        print("built")
        return 0
    if a[:1] == ["replay"] and len(a) == 2:
        case = json.load(open(a[1]))
        lock, bins = build()
        rc = 0
        if case.get("crash"):
            cmds = [[bins[case["profile"]], "check", case["property"], "--tier", case["tier"],
                     "--seed", str(case["seed"]), "--out", "/dev/null"]]
        else:
            cmds = [[bins[p], "replay", a[1]] for p in PROFILES]
        for c in cmds:
            rc = max(rc, 0 if subprocess.run(c).returncode == 0 else 1)
        return rc
    if len(a) == 2 and a[1] in ("quick", "thorough"):
        return run(a[0], a[1])
    sys.stderr.write(__doc__)
    return 2


sys.exit(main())
