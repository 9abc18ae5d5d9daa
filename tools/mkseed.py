#!/usr/bin/env python3
"""Generate and confirm planted bugs: mkseed.py [ID ...]. Sources in tools/seedsrc/<ID>.py (+ .cpp / .sh)."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
SRC = HERE + "/seedsrc"
OUT = os.path.dirname(HERE) + "/seeded"
W = "/tmp/seedrepo"

def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def build():
    """A scratch build equal to /opt/vp/build.sh but of the copy."""
    r = sh(f"cmake -S {W} -B {W}/_build -G Ninja -DCMAKE_BUILD_TYPE= -DBUILD_TESTS=ON -DBUILD_DOC=OFF -DCMAKE_CXX_FLAGS=-Wno-error "
           f"-DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest && ninja -C {W}/_build -j8")
    return r.returncode == 0, r.stdout[-3000:]

def tests():
    # one run of every test binary from its own directory, as ctest does
    r = sh("for t in $(find _build -name 'TEST_*' -type f -executable); do (cd _build && ../$t --gtest_brief=1 2>&1 | grep -E '^\\[  FAILED  \\] [A-Za-z]+\\.[A-Za-z0-9]+' ); done", cwd=W)
    bad = set()
    for l in r.stdout.splitlines():
        bad.add(l.split("]")[1].split("(")[0].strip())
    return sorted(bad - {"ContactMeasurementTest.Ctor", "JointStateMeasurementTest.Ctor"})

def main():
    ids = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(SRC) if f.endswith(".py"))
    shutil.rmtree(W, ignore_errors=True)
    sh(f"git -C /repo worktree prune; mkdir -p {W}; cd /repo && git archive HEAD | tar x -C {W}; cd {W} && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x")
    ok, log = build()
    assert ok, log
    for i in ids:
        spec = {}
        exec(open(f"{SRC}/{i}.py").read(), spec)
        d = f"{OUT}/{i}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        sh("git checkout -q -- .", cwd=W)
        for f, old, new in spec["edits"]:
            s = open(f"{W}/{f}", newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(f"{W}/{f}", "w", newline="").write(s.replace(old, new))
        open(f"{d}/patch.diff", "w").write(subprocess.run(["git", "diff"], cwd=W, stdout=subprocess.PIPE).stdout.decode())
        json.dump({"property": spec["prop"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        shutil.copy(f"{SRC}/{i}.sh" if os.path.exists(f"{SRC}/{i}.sh") else f"{SRC}/demo.sh", f"{d}/demo.sh")
        os.chmod(f"{d}/demo.sh", 0o755)
        if os.path.exists(f"{SRC}/{i}.cpp"):
            shutil.copy(f"{SRC}/demo.hpp", d); shutil.copy(f"{SRC}/{i}.cpp", f"{d}/demo.cpp")
        for x in spec.get("files", []):
            (shutil.copytree if os.path.isdir(f"{SRC}/{x}") else shutil.copy)(f"{SRC}/{x}", f"{d}/{x}")
        ok, log = build()
        res = [("build", ok)]
        if ok:
            res.append(("tests_failing", tests()))
            r = sh(f"bash {d}/demo.sh", cwd=W); res.append(("demo_patched", r.returncode, r.stdout[-300:]))
        else:
            res.append(log)
        sh("git checkout -q -- .", cwd=W)
        build()
        r = sh(f"bash {d}/demo.sh", cwd=W); res.append(("demo_clean", r.returncode, r.stdout[-300:]))
        good = ok and not res[1][1] and res[2][1] != 0 and res[2][1] != 2 and r.returncode == 0
        print(i, "OK" if good else "BAD", res, flush=True)
        if not good and "--keep" not in sys.argv: shutil.rmtree(d)
    shutil.rmtree(W, ignore_errors=True)
main()
