#!/usr/bin/env python3
"""Records and tries out a planted bug.

  seed.py new ID PROPERTY FILE < TEXT     TEXT: old, a line ====, new, a line
                                          #### needs, what_it_breaks, a line
                                          #### and the C text of the demo;
                                          several edits are separated by a line
                                          ++++ (optionally followed by a file)
  seed.py try ID [all|PROPERTY...]        build, tests, demo and check with it
"""
import json
import os
import subprocess
import sys

REPO = "/repo"
SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
DEMO = """#!/bin/bash
# exits 0 if the library behaves, non-zero if not
h=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
gcc -g -O1 -w -o "$d/demo" "$h/demo.c" -Iinclude _build/bin/libhev-task-system.a -lpthread || exit 99
cd "$d" && ulimit -c 0 && timeout -k 2 %d ./demo
"""


def run(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def clean():
    if run("git -C /repo status --porcelain --untracked-files=no").stdout.strip():
        sys.exit("/repo is not clean")


def new(i, prop, path, text, limit=20):
    clean()
    head, needs, demo = text.split("\n####\n", 2)
    needs, what = needs.strip().split("\n", 1)
    f = path
    for k, e in enumerate(head.split("\n++++")):
        if k:
            h, e = e.split("\n", 1)
            f = h.strip() or f
        old, neu = e.split("\n====\n") if "\n====\n" in e else (e.split("\n====")[0], "")
        p = os.path.join(REPO, f)
        s = open(p).read()
        if s.count(old) != 1:
            run("git -C /repo checkout -- .")
            sys.exit("%s: text found %d times:\n%s" % (f, s.count(old), old))
        open(p, "w").write(s.replace(old, neu))
    d = os.path.join(SEEDED, i)
    os.makedirs(d, exist_ok=True)
    diff = run("git -C /repo diff").stdout
    run("git -C /repo checkout -- .")
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.c"), "w").write(demo.lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % limit)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs.strip(), "what_it_breaks": " ".join(what.split())},
              open(os.path.join(d, "meta.json"), "w"), indent=1)


def attempt(i, props):
    clean()
    d = os.path.join(SEEDED, i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    sh = os.path.join(d, "demo.sh")
    if run("bash /opt/vp/build.sh").returncode:
        sys.exit("build of the unchanged tree failed")
    r = run(["bash", sh], cwd=REPO)
    print("%s demo unchanged: %d%s" % (i, r.returncode, "" if r.returncode == 0 else "  BAD\n" + r.stdout))
    try:
        r = run(["git", "-C", REPO, "apply", os.path.join(d, "patch.diff")])
        if r.returncode:
            sys.exit("patch does not apply: " + r.stdout)
        r = run("bash /opt/vp/build.sh")
        if r.returncode:
            print("does not build  BAD", r.stdout[-1500:])
            return
        run("bash /opt/vp/test.sh /tmp/seed-tests.json")
        failed = set(json.load(open("/tmp/seed-tests.json"))["failed"]) - {"task-dns"}
        print("%s tests failed: %s" % (i, sorted(failed) or "none"))
        run("bash /opt/vp/build.sh")
        r = run(["bash", sh], cwd=REPO)
        print("%s demo with bug: %d%s" % (i, r.returncode, "  BAD" if r.returncode in (0, 99) else ""))
        for p in props or [meta["property"]]:
            r = run("timeout 900 python3 check.py " + p, cwd=os.path.dirname(SEEDED))
            print("%s check %s: %d %s" % (i, p, r.returncode, r.stdout[-330:].replace("\n", " | ")))
    finally:
        run("git -C /repo checkout -- .")
        run("bash /opt/vp/build.sh")


if __name__ == "__main__":
    if sys.argv[1] == "new":
        new(sys.argv[2], sys.argv[3], sys.argv[4], sys.stdin.read())
    else:
        attempt(sys.argv[2], sys.argv[3:])
