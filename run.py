#!/usr/bin/env python3
"""Runs the check of one property.

  python3 run.py C01                  quick tier (or VERIF_TIER)
  python3 run.py C01 --tier thorough
  python3 run.py C01 --replay replays/C01-0.json
  python3 run.py --build              only build

Exit 0: the property held on everything explored. Exit 1 with lines
"VIOLATION property=<id> replay=<path>": it is broken. Exit 2: the check
itself could not run.
"""
import fnmatch
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import time

sys.dont_write_bytecode = True
import features  # noqa: E402

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.path.normpath(os.path.join(HERE, "..", "repo"))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HERE, "target")
PROFILES = ["release", "checked"]
# Other builds than those two: in "sched" the code has a scheduling point in
# every basic block.
BUILDS = {"C07": PROFILES + ["sched"], "C21": ["sched"], "C23": ["release"],
          "C24": ["release"], "C25": ["features"], "C27": ["sched"]}
# The check that uses the scheduling points for counting only.
COUNTING = ("C27",)
# Checks whose cases run in processes of their own.
PROC = ("C24",)


def target_of(prof):
    return os.path.join(TARGET, "s") if prof == "sched" else TARGET


def exe_of(prof, name="mc"):
    return os.path.join(target_of(prof), prof, name)


LEVELS = {"C11": "fault_enumeration"}
# A profile that would add nothing: complete sweeps over 2^32 values.
CASE_WALL = {"quick": 240.0, "thorough": 5400.0}
RUN_WALL = {"quick": 400.0, "thorough": 20000.0}


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTFLAGS"] = "-Awarnings"
    for k in ("CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def tree_hash():
    h = hashlib.sha256()
    roots = [REPO] + [os.path.join(HERE, x)
                      for x in ("harness", "shims", "combo")]
    for root in roots:
        files = []
        for d, dirs, fs in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
            for f in fs:
                if f.endswith((".rs", ".toml")) or f == "Cargo.lock":
                    files.append(os.path.join(d, f))
        for f in sorted(files):
            h.update(os.path.relpath(f, HERE).encode() + b"\0")
            try:
                h.update(open(f, "rb").read())
            except OSError:
                pass
            h.update(b"\0")
    return h.hexdigest()


def build(profiles):
    """Builds these profiles from the current trees."""
    want = tree_hash()
    for prof in profiles:
        if prof == "features":
            continue
        target = target_of(prof)
        os.makedirs(target, exist_ok=True)
        stamp = os.path.join(target, "tree-%s.sha256" % prof)
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have != want:
            # Cargo goes by modification times; contents decide here.
            for crate in ("keyword-pir-lwe", "xorf", "pi-rs-cli-utils", "mc",
                          "getrandom"):
                for p in glob.glob(os.path.join(
                        target, prof, ".fingerprint", crate + "-*")):
                    shutil.rmtree(p, ignore_errors=True)
        cmd = ["cargo", "build", "--offline", "--profile", prof,
               "--target-dir", target]
        e = env()
        if prof == "sched":
            e["RUSTC_WRAPPER"] = os.path.join(HARNESS, "sancov.sh")
            cmd += ["--bin", "mc"]
        r = subprocess.run(cmd, cwd=HARNESS, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stdout[-6000:])
            sys.stderr.write("\nERROR: build failed\n")
            return False
        with open(stamp, "w") as f:
            f.write(want)
    return True


def limits():
    # Runaway allocations end this run rather than something else's.
    lim = 24 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def mc(prof, prop, tier, seed, out, extra=(), wall=None):
    """One engine run. Returns (code or -signal or 'timeout', result)."""
    if prof == "features":
        return features.run(REPO, env(), tree_hash(), tier,
                            os.path.dirname(out))
    exe = exe_of(prof)
    if os.path.exists(out):
        os.unlink(out)
    cmd = [exe, prop, "--tier", tier, "--seed", str(seed), "--out", out,
           "--case-wall", str(CASE_WALL[tier])] + list(extra)
    if prof == "sched" and prop not in COUNTING:
        cmd += ["--mode", "sched"]
    elif prop in PROC:
        cmd += ["--mode", "proc"]
    e = env()
    e["MC_CLIPROBE"] = exe_of(prof, "cliprobe")
    err = open(out + ".err", "w")
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, env=e,
                         cwd=HERE, preexec_fn=limits, start_new_session=True)
    try:
        code = p.wait(timeout=wall or RUN_WALL[tier])
    except subprocess.TimeoutExpired:
        code = "timeout"
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            res = None
    return code, res


def known_findings(prop):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if not os.path.exists(path):
        return out
    for line in open(path):
        m = re.match(r"known: property=(\S+) case=\"([^\"]*)\" "
                     r"message=\"([^\"]*)\" (.*)", line.strip())
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3), m.group(4)))
    return out


def confirm(prof, prop, tier, seed, tmp, case):
    """Re-runs one case alone: is a death or a hang reproducible?"""
    code, res = mc(prof, prop, tier, seed, tmp, ["--case", case])
    if code == 3 or code == "timeout":
        return "does not terminate within %d s" % CASE_WALL[tier]
    if isinstance(code, int) and code < 0:
        return "the process is killed by signal %d" % -code
    if code == 1 and res:
        return res["violations"][0]["message"]
    return None


def main(argv):
    t0 = time.time()
    if argv and argv[0] == "--build":
        ok = build(PROFILES + ["sched"])
        features.build(REPO, env(), tree_hash())
        return 0 if ok else 2
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    i = 1
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
        elif argv[i] == "--replay":
            replay = argv[i + 1]
        else:
            print("unknown option", argv[i])
            return 2
        i += 2
    if tier not in CASE_WALL:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    profiles = BUILDS.get(prop, PROFILES)
    if not build(profiles):
        return 2
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    tmpdir = os.path.join(TARGET, "runs")
    os.makedirs(tmpdir, exist_ok=True)

    if replay:
        r = json.load(open(replay))
        extra = ["--case", r["case"]]
        if r.get("choices") is not None:
            extra += ["--choices", ",".join(map(str, r["choices"]))]
        code, res = mc(r["profile"], prop, r["tier"], r["seed"],
                       os.path.join(tmpdir, "replay.json"), extra)
        if res and res["violations"]:
            v = res["violations"][0]
            print("case %s choices %s\n%s" % (v["case"], v["choices"],
                                              v["message"]))
        if code == 0:
            print("the recorded execution no longer violates", prop)
            return 0
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1

    results, viols, broken = {}, [], []
    for prof in profiles:
        out = os.path.join(tmpdir, "%s-%s.json" % (prop, prof))
        journal = out + ".journal"
        if os.path.exists(journal):
            os.unlink(journal)
        code, res = mc(prof, prop, tier, seed, out, ["--journal", journal])
        if res:
            results[prof] = res
            for v in res["violations"]:
                viols.append((prof, v["case"], v["choices"], v["message"]))
        if code in (0, 1) and res:
            continue
        # Timed out or died: find out whether one case does so by itself.
        cands = list(res["timeouts"]) if res else []
        if not cands and os.path.exists(journal):
            cands = [x for x in open(journal).read().split("\n") if x]
        err = ""
        if os.path.exists(out + ".err"):
            err = open(out + ".err").read()[-1500:]
        if any(v[0] == prof for v in viols):
            continue
        found = False
        # Last started first: the likeliest culprit of a death.
        for case in cands[:3]:
            why = confirm(prof, prop, tier, seed,
                          os.path.join(tmpdir, "confirm.json"), case)
            if why:
                viols.append((prof, case, None, why))
                found = True
                break
        if not found:
            broken.append("%s: engine ended with %s\n%s" % (prof, code, err))
        break

    if not viols and not broken:
        for prof in profiles:
            if results[prof]["skipped_cases"]:
                broken.append("%s: cases skipped" % prof)

    known = known_findings(prop)
    shown, new = set(), []
    for v in viols:
        hit = None
        for pat, msg, text in known:
            if fnmatch.fnmatchcase(v[1], pat) and re.search(msg, v[3]):
                hit = text
                break
        if hit:
            if hit not in shown:
                print("KNOWN-FINDING: property=%s %s" % (prop, hit))
                shown.add(hit)
        else:
            new.append(v)

    for old in glob.glob(os.path.join(HERE, "replays", prop + "-*.json")):
        os.unlink(old)
    for n, (prof, case, choices, message) in enumerate(new[:10]):
        rp = os.path.join(HERE, "replays", "%s-%d.json" % (prop, n))
        json.dump({"property": prop, "profile": prof, "tier": tier,
                   "seed": seed, "case": case, "choices": choices,
                   "message": message}, open(rp, "w"), indent=1)
        print("[%s] %s %s: %s" % (prof, case, choices or "", message[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))

    tot = lambda k: sum(r[k] for r in results.values())
    level = LEVELS.get(prop, "model_checking")
    samples = []
    for r in results.values():
        for s in r["samples"][:6]:
            if s not in samples:
                samples.append(s)
    for v in new[:3]:
        samples.append("VIOLATION %s: %s" % (v[1], v[3][:300]))
    any_r = next(iter(results.values()), None)
    cov = {
        "states": tot("states"),
        "transitions": tot("transitions"),
        "traces_validated_against_impl": tot("traces"),
        "samples": samples,
        "executions": tot("executions"),
        "distinct_outcomes": tot("distinct_outcomes"),
        "cases": tot("cases"),
        "exhaustive": bool(results) and not broken and not viols and all(
            r["exhaustive"] for r in results.values()),
        "bounds": [b for r in results.values() for b in r["bounds"]],
        "builds": {p: {"cases": r["cases"], "states": r["states"],
                       "transitions": r["transitions"],
                       "wall_s": r["wall_s"], "slowest": r["slowest"]}
                   for p, r in results.items()},
        "explanation": "Every enumerated execution runs the real code of "
                       "/repo (no model in between) and is compared with a "
                       "reference; 'states' are distinct canonical "
                       "observations, 'exhaustive' is within the bounds "
                       "listed.",
    }
    if level == "fault_enumeration":
        cov["evaluations"] = tot("executions")
        cov["distinct_nontrivial"] = tot("states")
        cov["rule"] = ("one execution per (object, file, fault offset or "
                       "truncation length); distinct by canonical hash of "
                       "object, fault and observed result")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": cov,
        "assumptions": any_r["assumptions"] if any_r else [],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        return 1
    if broken:
        for b in broken:
            sys.stderr.write("ERROR: " + b + "\n")
        return 2
    print("%s: held on %d executions, %d states, %d transitions (%.1f s)" %
          (prop, cov["executions"], cov["states"], cov["transitions"],
           time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
