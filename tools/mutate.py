#!/usr/bin/env python3
"""Try changes to the code: does a check see them, and do the existing tests?

mutate.py MUTANTS.py [--tests | --only-tests] [ID ...]
MUTANTS.py defines M = [(id, "C01 C33", file, old, new), ...]; old must occur exactly once (or be
(old, n): the n-th occurrence). Each change is made in /repo, the named checks are run, and the
tree is restored. With --tests the stable tests run in a scratch copy under /tmp/scr.
"""
import json, os, subprocess, sys, time

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def mutate(root, file, old, new):
    p = f"{root}/{file}"
    s = open(p).read()
    n = 1
    if isinstance(old, tuple):
        old, n = old
    elif s.count(old) != 1:
        raise SystemExit(f"{file}: {s.count(old)} occurrences of {old!r}")
    at = -1
    for _ in range(n):
        at = s.index(old, at + 1)
    open(p, "w").write(s[:at] + new + s[at + len(old):])

def scratch():
    if not os.path.isdir("/tmp/scr/repo"):
        os.makedirs("/tmp/scr", exist_ok=True)
        sh("cp -a /repo /tmp/scr/repo")
        for f in ("env", "test", "build"):
            s = open(f"/opt/vp/{f}.sh").read().replace("/repo", "/tmp/scr/repo").replace("/opt/vp/env.sh", "/tmp/scr/env.sh")
            open(f"/tmp/scr/{f}.sh", "w").write(s)
    sh("git -C /tmp/scr/repo checkout -q -- . && git -C /tmp/scr/repo fetch -q /repo && git -C /tmp/scr/repo reset -q --hard FETCH_HEAD")

def tests():
    t = time.time()
    r = sh("bash /tmp/scr/build.sh", timeout=1500)
    if r.returncode:
        return "BUILD FAILED " + r.stderr[-600:]
    sh("bash /tmp/scr/test.sh /tmp/scr/out.json", timeout=1500)
    o = json.load(open("/tmp/scr/out.json"))
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    p = set(o["passed"])
    bad = [x for x in stable if x not in p]
    return f"{len(bad)} stable tests fail {bad[:3]} ({time.time()-t:.0f}s)"

def main():
    args = sys.argv[1:]
    only_tests = "--only-tests" in args
    with_tests = only_tests or "--tests" in args
    args = [a for a in args if a not in ("--tests", "--only-tests")]
    ns = {}
    exec(open(args[0]).read(), ns)
    for mid, props, file, old, new in ns["M"]:
        if args[1:] and mid not in args[1:]:
            continue
        res = []
        try:
            if only_tests:
                props = ""
            elif sh("git -C /repo status --porcelain").stdout.strip():
                raise SystemExit("/repo is not clean")
            if props:
                mutate("/repo", file, old, new)
            for p in props.split():
                t = time.time()
                r = sh(f"VERIF_SEED={os.environ.get('VERIF_SEED', '1')} bash /verif/check.sh {p}", cwd="/verif")
                v = {0: "MISSED", 1: "caught"}.get(r.returncode, f"ERROR {r.returncode} {r.stderr[-400:]}")
                line = r.stdout.splitlines()[0][:160] if r.stdout else ""
                res.append(f"{p} {v} {time.time()-t:.0f}s [{line}]")
        finally:
            if props:
                sh("git -C /repo checkout -- .")
        if with_tests:
            scratch()
            mutate("/tmp/scr/repo", file, old, new)
            res.append(tests())
            sh("git -C /tmp/scr/repo checkout -q -- .")
        print(mid, "|", " | ".join(res), flush=True)

main()
