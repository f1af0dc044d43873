#!/usr/bin/env python3
"""seed.py SPEC.py [ID ...]: makes /verif/seeded/<id>/ from a spec and confirms it in a scratch copy.

SPEC.py defines SEEDS, a list of dicts: id, property, needs, what, edits [(file, old, new)], pkg, test (Go test
file text with functions TestDemo...), race (optional)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "aef9343"
DEMO = '''#!/bin/bash
# cwd: the repository. Runs the demonstration beside this file against the real package.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
s=$(mktemp -d)
trap 'rm -rf -- "$s"' EXIT
printf '{"Replace": {"%%s/%(pkg)s/zz_demo_test.go": "%%s/demo_test.go"}}' "$PWD" "$here" > "$s/overlay.json"
TMPDIR=$s TZ=UTC timeout 240 go test -overlay "$s/overlay.json" -vet=off -count=1 %(race)s-run '^TestDemo' ./%(pkg)s
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, errors="replace", **k)
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    tmp = tempfile.mkdtemp(prefix="seed-")
    w = os.path.join(tmp, "repo")
    sh("cp -a /repo %s" % w)
    pre = ". /opt/vp/env.sh; cd %s; " % w
    bad = 0
    for s in ns["SEEDS"]:
        if want and s["id"] not in want:
            continue
        d = os.path.join(V, "seeded", s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, "demo_test.go"), "w").write(s["test"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % dict(pkg=s["pkg"], race="-race " if s.get("race") else ""))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["what"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        sh("cd %s && git checkout -q -- . && git clean -fdq" % w)
        r0 = sh(pre + "bash %s/demo.sh" % d)
        for f, o, n in s["edits"]:
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(o) != 1:
                print(s["id"], "edit text found", t.count(o), "times in", f); bad = 1
            open(p, "w").write(t.replace(o, n, 1))
        diff = sh("cd %s && git diff" % w).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        # removed or changed lines that are original
        orig = 0
        for f, _, _ in s["edits"]:
            bl = sh("cd %s && git blame -s HEAD -- %s" % (w, f)).stdout.splitlines()
            basel = set(l.strip() for l in sh("cd %s && git show %s:%s" % (w, BASE, f)).stdout.splitlines())
            for l in diff.splitlines():
                if l.startswith("-") and not l.startswith("---") and l[1:].strip() in basel and len(l[1:].strip()) > 2:
                    orig += 1
        b = sh(pre + "go build ./... && go vet ./%s >/dev/null 2>&1; go build ./..." % s["pkg"])
        t = sh(pre + "go test -vet=off -count=1 $(go list ./... | grep -vE 'pkg/(bencode|tracker)$')")
        r1 = sh(pre + "bash %s/demo.sh" % d)
        ok = b.returncode == 0 and t.returncode == 0 and r0.returncode == 0 and r1.returncode != 0 and orig > 0
        if r1.returncode != 0 and ("[build failed]" in r1.stdout + r1.stderr): ok = False
        print(s["id"], "OK" if ok else "BAD", "build", b.returncode, "tests", t.returncode, "demo clean", r0.returncode, "demo patched", r1.returncode, "original lines", orig)
        if not ok:
            bad = 1
            print(b.stderr[-800:], t.stdout[-800:] if t.returncode else "", r0.stdout[-1500:] + r0.stderr[-500:] if r0.returncode else "", r1.stdout[-600:] + r1.stderr[-600:])
    shutil.rmtree(tmp)
    return bad
sys.exit(main())
