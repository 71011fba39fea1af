#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a definition file (python: prop, needs, breaks, edits=[(file, old, new)],
demo=go source or demo_sh=...), after confirming in a scratch copy that the change builds, passes the stable
tests, and that the demonstration fails with it and passes without it.   seed.py DEF.py ..."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# Exits 0 if the code behaves, nonzero if it does not. Run in the repository.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/zz_demo/main.go":"%s/demo.go"}}' "$PWD" "$d" > "$t/overlay.json"
export GOFLAGS="-mod=readonly -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local
go build -overlay "$t/overlay.json" -o "$t/demo" ./zz_demo || exit 9
'''
SHCLI = 'go build -o "$t/diskii" . || exit 9\n'
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if False else None

def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, shell=isinstance(cmd, str), **k)

for d in sys.argv[1:]:
    ns = {"__file__": d}
    exec(open(d).read(), ns)
    sid = os.path.splitext(os.path.basename(d))[0]
    wt = "/tmp/seedwt"
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", wt])
    subprocess.check_call(["git", "-C", wt, "checkout", "-q", "--", "."])
    for f, a, b in ns["edits"]:
        p = os.path.join(wt, f)
        s = open(p).read()
        if s.count(a) != 1:
            sys.exit("%s: %d matches in %s for %r" % (sid, s.count(a), f, a))
        open(p, "w").write(s.replace(a, b))
    diff = run(["git", "diff"], wt).stdout
    out = os.path.join(V, "seeded", sid)
    os.makedirs(out, exist_ok=True)
    sh = SH
    if ns.get("cli"):
        sh += SHCLI + '"$t/demo" "$t/diskii"\n'
    else:
        sh += '"$t/demo"\n'
    open(os.path.join(out, "demo.sh"), "w").write(sh)
    open(os.path.join(out, "demo.go"), "w").write(ns["demo"])
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    e = dict(os.environ, GOFLAGS="-mod=readonly -buildvcs=false", GOPROXY="off")
    r = run("go build ./... && go vet $(go list ./... | grep -v diskii$) 2>&1 | head -5", wt, env=e)
    if r.returncode:
        sys.exit("%s does not build: %s" % (sid, r.stderr))
    t = run("go test -vet=off -count=1 $(go list ./... | grep -v 'diskii$')", wt, env=e)
    good = run(["bash", os.path.join(out, "demo.sh")], "/repo")
    badr = run(["bash", os.path.join(out, "demo.sh")], wt)
    print(sid, "tests", "pass" if t.returncode == 0 else "FAIL\n" + t.stdout[-1500:], "| clean", good.returncode, good.stdout[-200:], good.stderr[-300:], "| patched", badr.returncode, (badr.stdout + badr.stderr)[-200:].strip())
    if t.returncode or good.returncode or badr.returncode in (0, 9):
        print("   NOT CONFIRMED")
    shutil.rmtree(wt, ignore_errors=True)
