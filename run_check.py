#!/usr/bin/env python3
"""Build the harness of one property from /repo's working tree and run it.

  run_check.py C01 [--thorough] [--replay FILE] [--keep]

exit 0: the property held on everything explored; exit 1 with a VIOLATION line: it is broken.
"""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS   # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(prop, bdir):
    """Writes a ninja file for the library variant + harness and builds it. Returns the executable."""
    spec = CHECKS[prop]
    inc = f"-I{HERE}/mc -I{REPO}/include -I/usr/include/eigen3"
    if spec.get("inc"):
        inc += " " + " ".join(i.format(here=HERE, repo=REPO) for i in spec["inc"])
    base = "-std=c++17 -O1 -g1 -w -pthread -ftrivial-auto-var-init=pattern -D_GLIBCXX_ASSERTIONS"
    libflags = base + " " + spec.get("libflags", "")
    hflags = base + " " + spec.get("hflags", "")
    srcs = []
    for sub in spec.get("libdirs", ["src"]):
        for d, _, fs in os.walk(os.path.join(REPO, sub)):
            srcs += [os.path.join(d, f) for f in sorted(fs) if f.endswith(".cpp")]
    srcs += [s.format(here=HERE, repo=REPO) for s in spec.get("extra_lib", [])]
    hsrcs = [os.path.join(HERE, "harness", h) for h in spec["harness"]]
    hsrcs += [s.format(here=HERE, repo=REPO) for s in spec.get("extra", [])]
    n = ["ninja_required_version = 1.5",
         "rule lib", f"  command = g++ {libflags} {inc} -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule har", f"  command = g++ {hflags} {inc} -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule link", f"  command = g++ {spec.get('ldflags_pre','')} -pthread -o $out $in -lyaml-cpp {spec.get('ldflags','')} -ldl"]
    n += ["rule raw", f"  command = g++ {base} -O2 {inc} -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc"]
    objs = []
    for s in spec.get("raw", []):
        s = s.format(here=HERE, repo=REPO)
        o = f"r/{os.path.basename(s)}.o"
        n.append(f"build {o}: raw {s}")
        objs.append(o)
    # big translation units first so that they do not end up last in the schedule
    order = sorted(srcs, key=lambda s: ("robots" in s, os.path.basename(s) not in ("imu_propagation.cpp",)))
    for s in hsrcs:
        o = f"h/{os.path.basename(s)}.o"
        n.append(f"build {o}: har {s}")
        objs.append(o)
    for s in order:
        o = "l/" + os.path.relpath(s, "/").replace("/", "_") + ".o"
        n.append(f"build {o}: lib {s}")
        objs.append(o)
    exe = f"{prop}.exe"
    n.append(f"build {exe}: link " + " ".join(objs))
    n.append(f"default {exe}")
    os.makedirs(bdir, exist_ok=True)
    with open(os.path.join(bdir, "build.ninja"), "w") as f:
        f.write("\n".join(n) + "\n")
    r = sh(["ninja", "-C", bdir, "-j", os.environ.get("VERIF_JOBS", "8")])
    if r.returncode != 0:
        sys.stdout.write("\n".join(l for l in r.stdout.splitlines() if not l.startswith("["))[:6000] + "\n")
        print(f"error: building the harness of {prop} failed")
        sys.exit(3)
    return os.path.join(bdir, exe)


def known_findings(prop):
    path = os.path.join(HERE, "known_findings.txt")
    res = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            # known: property=C01 key=<key> <what fails>
            if line.startswith("known:"):
                parts = line.split(None, 3)
                kv = dict(p.split("=", 1) for p in parts[1:3])
                if kv["property"] == prop:
                    res[kv["key"]] = parts[3] if len(parts) > 3 else ""
    return res


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    if os.environ.get("VERIF_TIER") == "quick" and "--thorough" not in sys.argv:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = CHECKS[prop]
    variant = spec.get("variant", "plain")
    bdir = os.path.join(os.environ.get("VERIF_BUILD", os.path.join(HERE, "build")), variant)
    exe = build(prop, bdir)
    tb = time.time()
    scratch = tempfile.mkdtemp(prefix=f"mc_{prop}_")
    env = dict(os.environ, MC_SCRATCH=scratch, VERIF_SEED=str(seed))
    cwd = os.path.join(scratch, "cwd")
    os.makedirs(cwd)
    known = known_findings(prop)
    try:
        if "--replay" in sys.argv:
            seq = None
            for line in open(sys.argv[sys.argv.index("--replay") + 1]):
                if line.startswith("seq: "):
                    seq = line[5:].strip()
            cmd = [exe, "--out", scratch, "--seq", seq] + (["--thorough"] if tier == "thorough" else [])
            r = subprocess.run(cmd, env=env, cwd=cwd)
            sys.exit(r.returncode)
        cmd = [exe, "--out", scratch, "--workers", os.environ.get("VERIF_JOBS", "8")]
        for k in known:
            cmd += ["--known", k]
        if tier == "thorough":
            cmd.append("--thorough")
        limit = 5 * 3600 if tier == "thorough" else 800
        rj = os.path.join(scratch, "result.json")
        for attempt in range(2):
            try:
                r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit - (time.time() - tb))
            except subprocess.TimeoutExpired:
                print(f"error: {prop}: the exploration did not finish within {limit} s")
                sys.exit(4)
            if not os.path.exists(rj):
                print(r.stdout[-3000:])
                print(f"error: {prop}: no result (exit {r.returncode})")
                sys.exit(5)
            res = json.load(open(rj))
            # a worker that ended for an outside reason (memory) is no verdict: explore again
            if not res.get("unconfirmed") or time.time() - tb > 0.45 * limit:
                break
    finally:
        if "--keep" not in sys.argv:
            shutil.rmtree(scratch, ignore_errors=True)
    cov = dict(states=res["states"], transitions=res["steps"],
               traces_validated_against_impl=res["traces"],
               exhaustive=not res["violation"],
               bounds=res["bounds"], one_execution_is=res["what"], samples=res["samples"])
    if res.get("counters"):
        cov["counters"] = res["counters"]
    if not spec.get("schedules"):
        cov["executions"] = res["execs"]
    else:
        cov["schedules"] = res["execs"]
        cov["preemption_bound"] = spec["preemptions"][1 if tier == "thorough" else 0]
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 1),
              violations=1 if res["violation"] else 0)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, nhits in res.get("known", {}).items():
        print(f"KNOWN-FINDING: property={prop} {k}: {known.get(k, '')} ({nhits} occurrences)")
    print(f"{prop} [{tier}] executions={res['execs']} transitions={res['steps']} states={res['states']} "
          f"validated={res['traces']} build={tb - t0:.1f}s total={time.time() - t0:.1f}s {res.get('counters', '')}")
    if res.get("unconfirmed"):
        print(f"error: {prop}: a failing execution could not be reproduced: {res.get('bad_msg')} (choices {res['seq']})")
        sys.exit(6)
    if res["violation"]:
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        h = hashlib.sha1((res["key"] + res["seq"]).encode()).hexdigest()[:10]
        path = os.path.join(rdir, f"{prop}-{h}.txt")
        with open(path, "w") as f:
            f.write(f"property: {prop}\ntier: {tier}\nkey: {res['key']}\nmessage: {res['msg']}\nseq: {res['seq']}\n"
                    f"replay with: python3 run_check.py {prop} --replay {path}{' --thorough' if tier == 'thorough' else ''}\n\n{res['trace']}\n")
        print(res["trace"][-3000:])
        print(f"{res['key']}: {res['msg'][:2000]}")
        print(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
