"""C25: the filter crate in every combination of its features.

Builds combo/ once per combination, runs each build over its enumerated key
sets, compares what all builds have to observe alike, and lets every build with
serde look up in the filters that every other one wrote.
"""
import concurrent.futures
import glob
import itertools
import json
import os
import re
import shutil
import subprocess
import time

HERE = os.path.dirname(os.path.abspath(__file__))
CRATE = os.path.join(HERE, "combo")
TARGET = os.path.join(HERE, "target", "f")
LANES = 4


def names(repo):
    """The features that the crate declares, without "default"."""
    out, inside = {}, False
    for line in open(os.path.join(repo, "bff-modp", "Cargo.toml")):
        line = line.strip()
        if line.startswith("["):
            inside = line == "[features]"
        elif inside and "=" in line:
            k, v = line.split("=", 1)
            out[k.strip()] = v
    return [k for k in ("uniform-random", "binary-fuse", "binary-fuse-modp")
            if k in out] + ["serde"]


def combos(repo):
    fs = names(repo)
    return [tuple(f for f, b in zip(fs, bits) if b)
            for bits in itertools.product((0, 1), repeat=len(fs))]


def lane_build(lane, mine, env, want):
    """Builds the combinations of one lane. Returns {combo: error or None}."""
    target = os.path.join(TARGET, "lane%d" % lane)
    bins = os.path.join(TARGET, "bin")
    os.makedirs(bins, exist_ok=True)
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "tree.sha256")
    have = open(stamp).read() if os.path.exists(stamp) else ""
    if have != want:
        for p in glob.glob(os.path.join(target, "release", ".fingerprint",
                                        "xorf-*")) + \
                glob.glob(os.path.join(target, "release", ".fingerprint",
                                       "combo-*")):
            shutil.rmtree(p, ignore_errors=True)
    res = {}
    for c in mine:
        exe = os.path.join(bins, "+".join(c) or "none")
        mark = exe + ".sha256"
        if os.path.exists(exe) and os.path.exists(mark) and \
                open(mark).read() == want:
            res[c] = None
            continue
        r = subprocess.run(
            ["cargo", "build", "--offline", "--release", "--target-dir",
             target, "--no-default-features", "--features", ",".join(c)],
            cwd=CRATE, env=env, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            res[c] = r.stdout
            continue
        shutil.copy(os.path.join(target, "release", "combo"), exe + ".new")
        os.replace(exe + ".new", exe)
        with open(mark, "w") as f:
            f.write(want)
        res[c] = None
    with open(stamp, "w") as f:
        f.write(want)
    return res


def build(repo, env, want):
    cs = combos(repo)
    out = {}
    with concurrent.futures.ThreadPoolExecutor(LANES) as ex:
        for r in ex.map(lambda n: lane_build(n, cs[n::LANES], env, want),
                        range(LANES)):
            out.update(r)
    return out


def compile_error(text):
    """Whether rustc refused /repo's crate, and how."""
    m = re.search(r"^error(?:\[E\d+\])?: .*", text, re.M)
    if m and re.search(r"could not compile `xorf`", text):
        return m.group(0)
    return None


def run(repo, env, want, tier, tmp):
    """Like run.mc: (code, result)."""
    t0 = time.time()
    viols, broken = [], []
    built = build(repo, env, want)
    ok = []
    for c, err in built.items():
        name = "+".join(c) or "none"
        if err is None:
            ok.append(c)
            continue
        e = compile_error(err)
        if e:
            viols.append((name, "the combination [%s] does not compile: %s"
                          % (", ".join(c), e)))
        else:
            broken.append(err[-3000:])
    data = os.path.join(tmp, "features")
    shutil.rmtree(data, ignore_errors=True)
    os.makedirs(data)
    exe = lambda c: os.path.join(TARGET, "bin", "+".join(c) or "none")
    dir_ = lambda c: os.path.join(data, "+".join(c) or "none")

    def one(c, args, limit):
        out = dir_(c) + "." + args[0] + ".json"
        cmd = [exe(c), args[0]] + [out if a == "OUT" else a for a in args[1:]]
        try:
            r = subprocess.run(cmd, timeout=limit, stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE, text=True)
        except subprocess.TimeoutExpired:
            return c, None, "does not end within %d s" % limit
        if r.returncode != 0 or not os.path.exists(out):
            return c, None, "ended with %d: %s" % (r.returncode,
                                                   r.stderr[-300:])
        return c, json.load(open(out)), None

    limit = 240 if tier == "quick" else 3600
    states = trans = execs = 0
    seen, samples = {}, []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        runs = list(ex.map(lambda c: one(c, ["run", tier, "OUT", dir_(c)],
                                         limit), ok))
        ser = [c for c in ok if "serde" in c and os.path.isdir(dir_(c))]
        loads = list(ex.map(
            lambda c: one(c, ["load", "OUT"] + [dir_(o) for o in ser], limit),
            ser))
    for c, r, err in runs + loads:
        name = "+".join(c) or "none"
        if err:
            viols.append((name, "the build with [%s] %s" % (", ".join(c),
                                                            err)))
            continue
        states += r["states"]
        trans += r["transitions"]
        execs += r["executions"]
        for b in r["bad"]:
            viols.append((name, "built with [%s]: %s" % (", ".join(c), b)))
        for k, v in r["obs"].items():
            seen.setdefault(k, {}).setdefault(v, []).append(name)
    for k, by in seen.items():
        if len(by) > 1:
            viols.append((k, "%s differ between builds: %s" % (
                k, " / ".join(", ".join(x[:3]) for x in by.values()))))
        else:
            samples.append("%s: alike in %d builds" % (
                k, len(next(iter(by.values())))))
    shutil.rmtree(data, ignore_errors=True)
    if broken and not viols:
        import sys
        sys.stderr.write("ERROR: build failed\n" + broken[0] + "\n")
        return 2, None
    res = {
        "violations": [{"case": n, "choices": None, "message": m}
                       for n, m in viols],
        "states": states, "transitions": trans, "traces": execs,
        "executions": execs, "distinct_outcomes": len(seen),
        "cases": len(built) + len(loads), "exhaustive": not viols,
        "skipped_cases": 0, "timeouts": [], "samples": samples,
        "wall_s": round(time.time() - t0, 2), "slowest": [],
        "bounds": ["all %d combinations of the features %s; in each all 1024 "
                   "subsets of 10 keys and 606 sizes (thorough 4006) for "
                   "every membership filter, all 128 subsets of 7 keys and "
                   "62 sizes (thorough 402) for 5 moduli and 3 labels for "
                   "the mod-p filter; filters of 8 sizes written by each "
                   "build with serde and read by each"
                   % (len(built), ", ".join(names(repo)))],
        "assumptions": ["one target platform and one compiler"],
    }
    return (1 if viols else 0), res
