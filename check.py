#!/usr/bin/env python3
"""Builds the harness from /repo's current tree, runs the monitor of one property, judges what it observed.

  check.py <property> [--tier quick|thorough]      exit 0 held, 1 violation, 2 no answer
  check.py --replay <file>                          runs one recorded case again
  check.py --build                                  only builds
"""
import array, fcntl, json, os, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(VERIF, "target")
MON = os.path.join(TARGET, "release", "mon")
REPO = "/repo"

sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS  # noqa: E402


def env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTC_WRAPPER="",
             CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=TARGET, CLICOLOR_FORCE="1",
             CARGO_INCREMENTAL="0")
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin"
    for k in ("RUSTFLAGS", "NO_COLOR", "MALLOC_PERTURB_"):
        e.pop(k, None)
    return e


def build(bins):
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock-check"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        cmds = [["cargo", "build", "--release", "--offline", "--quiet", "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml")]]
        if bins:
            # The real programs, from /repo's own manifest.
            cmds.append(["cargo", "build", "--offline", "--quiet", "--bins", "--manifest-path", os.path.join(REPO, "Cargo.toml")])
            cmds.append(["gcc", "-shared", "-fPIC", "-O1", "-o", os.path.join(TARGET, "shim.so"), os.path.join(VERIF, "shim", "shim.c"), "-ldl"])
        for c in cmds:
            e = env()
            if c[-1].startswith(REPO):
                e["CARGO_TARGET_DIR"] = os.path.join(TARGET, "repo")
            r = subprocess.run(c, env=e, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                print("BUILD FAILED\n" + r.stdout[-4000:])
                return False
    return True


def mon(prop, args):
    return [MON, prop] + [str(a) for a in args]


def run_shards(prop, cfg, tier, seed, work):
    """Runs the shards; returns (stats lines, violations, notes on abnormal ends)."""
    count, secs = cfg[tier]
    shards = cfg.get("shards", 8)
    procs = {}
    notes = []
    viols = []
    restarts = {i: 0 for i in range(shards)}

    def start(i, first, secs):
        log = open(os.path.join(work, "log-%d" % i), "ab")
        p = subprocess.Popen(mon(prop, ["--dir", work, "--seed", seed, "--shard", i, "--shards", shards, "--start", first,
                                        "--count", count, "--secs", secs, "--tier", tier]),
                             env=env(), cwd=work, stdout=log, stderr=log, start_new_session=True)
        procs[i] = (p, time.time())

    t0 = time.time()
    for i in range(shards):
        start(i, 0, secs)
    hard = secs + cfg.get("grace", 150)
    while procs:
        time.sleep(0.05)
        for i in list(procs):
            p, since = procs[i]
            rc = p.poll()
            if rc is None:
                if time.time() - t0 > hard:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    notes.append("shard %d stopped after %d s" % (i, hard))
                    del procs[i]
                continue
            del procs[i]
            try:  # whatever the shard left running
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            if rc in (0, 1):
                continue
            try:
                at = int(open(os.path.join(work, "cur-%d" % i)).read().split()[0])
            except Exception:
                notes.append("shard %d ended with %s before its first case" % (i, rc))
                continue
            tail = open(os.path.join(work, "log-%d" % i), "rb").read()[-600:].decode("utf-8", "replace")
            if rc == 77:
                viols.append(dict(index=at, sig="memory", detail="the case held more live memory than its budget"))
            elif rc == 78:
                pass  # recorded by the watchdog
            elif rc == 79:
                notes.append("case %d gave no result within the wall-clock limit" % at)
            elif rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE):
                viols.append(dict(index=at, sig="crash", detail="the process died with signal %d (%s)" % (-rc, tail.strip())))
            else:
                notes.append("shard %d ended with %s at case %d: %s" % (i, rc, at, tail.strip()))
                continue
            restarts[i] += 1
            left = secs - (time.time() - t0)
            if restarts[i] <= 3 and left > 1:
                start(i, at + shards - i, max(1, int(left)))
    stats = []
    for i in range(shards):
        f = os.path.join(work, "stats-%d.jsonl" % i)
        if os.path.exists(f):
            stats += [json.loads(l) for l in open(f)]
        f = os.path.join(work, "viol-%d.jsonl" % i)
        if os.path.exists(f):
            for l in open(f, errors="replace"):
                try:
                    viols.append(json.loads(l))
                except ValueError:
                    pass
    return stats, viols, notes


def known_findings(prop):
    """Signatures listed as known (unrepaired) findings of this property."""
    out = {}
    for l in open(os.path.join(VERIF, "known_findings.txt")):
        if l.startswith("KNOWN-FINDING: property=%s " % prop) and " sig=" in l:
            sig, _, what = l.split(" sig=", 1)[1].strip().partition(" :: ")
            out[sig] = what
    return out


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = CHECKS[prop]
    if not build(cfg.get("bins", False)):
        return 2
    t_build = time.time() - t0
    work = os.path.join(VERIF, "work", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.chmod(work, 0o777)
    try:
        stats, viols, notes = run_shards(prop, cfg, tier, seed, work)
        distinct = set()
        for i in range(cfg.get("shards", 8)):
            f = os.path.join(work, "distinct-%d.bin" % i)
            if os.path.exists(f):
                a = array.array("Q")
                a.frombytes(open(f, "rb").read())
                distinct.update(a)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    counts, maxes, samples, inconclusive, incs = {}, {}, [], 0, []
    evaluations = 0
    seen_kinds = set()
    for s in stats:
        evaluations += s["evaluations"]
        inconclusive += s["inconclusive"]
        incs += s["inconclusive_samples"]
        for k, v in s["counts"].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in s["maxes"].items():
            maxes[k] = max(maxes.get(k, 0), v)
        for x in s["samples"]:
            if x["kind"] not in seen_kinds:
                seen_kinds.add(x["kind"])
                samples.append(x)
    inconclusive += len(notes)

    known = known_findings(prop)
    new, hits = {}, {}
    for v in viols:
        (hits if v["sig"] in known else new).setdefault(v["sig"], []).append(v)
    for sig in known:
        if sig in hits:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[sig]))

    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for sig, vs in sorted(new.items()):
        v = vs[0]
        path = os.path.join(VERIF, "replays", "%s-%d-%s.json" % (prop, seed, v["index"]))
        json.dump(dict(property=prop, seed=seed, tier=tier, index=v["index"], signature=sig, detail=v["detail"],
                       repeats=len(vs), command="python3 check.py --replay " + path), open(path, "w"), indent=1)
        print("%s: %s (case %s)\n  %s" % (prop, sig, v["index"], v["detail"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))

    ev = dict(property=prop, tier=tier, seed=seed, level=cfg.get("level", "exploration"),
              coverage=dict(evaluations=evaluations, distinct_nontrivial=len(distinct), rule=cfg["rule"],
                            samples=samples[:12], observed=counts, maxima=maxes, inconclusive=inconclusive,
                            inconclusive_samples=(incs + notes)[:8], build_s=round(t_build, 1)),
              assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viols))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)

    if new:
        return 1
    missing = [k for k in cfg.get("must_see", []) if counts.get(k, 0) == 0]
    if evaluations == 0 or not distinct:
        print("NO ANSWER: nothing was observed; %s" % "; ".join(notes + incs)[:1500])
        return 2
    if missing:
        print("NO ANSWER: never observed: %s %s" % (missing, "; ".join(notes + incs)[:1000]))
        return 2
    if inconclusive > max(3, evaluations // 50):
        print("NO ANSWER: %d of %d cases inconclusive; %s" % (inconclusive, evaluations, "; ".join(notes + incs)[:3000]))
        return 2
    print("%s held on %d executions, %d distinct (%s tier, seed %d, %.0f s)%s" % (
        prop, evaluations, len(distinct), tier, seed, time.time() - t0,
        "; %d inconclusive: %s" % (inconclusive, "; ".join(notes + incs)[:600]) if inconclusive else ""))
    return 0


def replay(path):
    r = json.load(open(path))
    cfg = CHECKS[r["property"]]
    if not build(cfg.get("bins", False)):
        return 2
    work = os.path.join(VERIF, "work", "replay-%d" % os.getpid())
    os.makedirs(work)
    os.chmod(work, 0o777)
    try:
        p = subprocess.run(mon(r["property"], ["--dir", work, "--seed", r["seed"], "--replay", r["index"], "--secs", 600, "--tier", r["tier"]]),
                           env=env(), cwd=work)
        f = os.path.join(work, "viol-0.jsonl")
        if os.path.exists(f):
            for l in open(f):
                v = json.loads(l)
                print("%s: %s\n%s" % (r["property"], v["sig"], v["detail"]))
        f = os.path.join(work, "stats-0.jsonl")
        if os.path.exists(f):
            print(open(f).read()[:3000])
        print("exit status %d" % p.returncode)
        return 1 if p.returncode not in (0, 2, 79) else p.returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        sys.exit(replay(a[1]))
    if a and a[0] == "--build":
        sys.exit(0 if build(True) else 2)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    sys.exit(main(a[0], tier))
