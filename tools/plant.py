#!/usr/bin/env python3
"""plant.py SPEC.py [--only ID]: makes seeded bugs from specs and confirms each in a scratch copy of /repo.
A spec file defines BUGS = [dict(id, property, edits=[(file, old, new)], pkg, test (Go source), needs, breaks, extra={name: text})]."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# Runs the demonstration test against the tree in the current directory.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GOENV=off HOME=${HOME:-/root}
T=$(mktemp -d) || exit 2
python3 - "$D" "$R" > "$T/overlay.json" <<'P'
import glob, json, os, sys
d, r = sys.argv[1:]
pkg = open(d + "/pkg").read().strip()
rep = {r + "/" + pkg + "/zz_" + os.path.basename(f)[:-3].replace("_test", "") + "_test.go": f for f in glob.glob(d + "/*.go")}
print(json.dumps({"Replace": rep}))
P
go test -overlay "$T/overlay.json" -vet=off -count=1 -timeout 240s -run '^TestZZ' "./$(cat "$D/pkg")"
rc=$?
rm -rf "$T"
exit $rc
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for b in g["BUGS"]:
        if only and b["id"] != only:
            continue
        w = tempfile.mkdtemp(prefix="plant", dir="/tmp")
        try:
            d = os.path.join(V, "seeded", b["id"])
            if os.path.isdir(d):
                shutil.rmtree(d)
            os.makedirs(d)
            repo = w + "/repo"
            subprocess.run(["cp", "-a", "/repo", repo], check=True)
            open(d + "/demo.sh", "w").write(DEMO)
            os.chmod(d + "/demo.sh", 0o755)
            open(d + "/pkg", "w").write(b["pkg"] + "\n")
            open(d + "/demo.go", "w").write(b["test"])
            for n, t in b.get("extra", {}).items():
                open(d + "/" + n, "w").write(t)
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
            r = sh("bash %s/demo.sh" % d, repo)
            if r.returncode != 0:
                print(b["id"], "DEMO FAILS UNPATCHED", r.stdout[-3000:])
                continue
            bad = False
            for f, old, new in b["edits"]:
                s = open(repo + "/" + f).read()
                if s.count(old) != 1:
                    print(b["id"], "edit matches", s.count(old), "times:", f, old)
                    bad = True
                    break
                open(repo + "/" + f, "w").write(s.replace(old, new))
            if bad:
                continue
            diff = sh("git diff", repo).stdout
            open(d + "/patch.diff", "w").write(diff)
            r = sh("bash %s/demo.sh" % d, repo)
            if r.returncode == 0:
                print(b["id"], "DEMO PASSES PATCHED")
                continue
            tail = [l for l in r.stdout.splitlines() if "zz_" in l or "panic" in l][:3]
            r = sh("""export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GOENV=off
                   rm -f gem/device_test.go.off
                   P=$(go list -e ./... | grep -v '/secs4go/verification$')
                   go build $P || exit 3
                   python3 - > ../ov.json <<'X'
import glob, json, re, os
print(json.dumps({"Replace": {os.getcwd()+"/"+f: "" for f in glob.glob("gem/*_test.go") if re.search(r"^package gem_test\\b", open(f).read(), re.M)}}))
X
                   go test -json -overlay ../ov.json -vet=off -count=1 -timeout 10m $P > ../test.json; true""", repo)
            if r.returncode == 3:
                print(b["id"], "DOES NOT BUILD", r.stdout[-1500:])
                continue
            passed = set()
            for l in open(w + "/test.json"):
                try:
                    e = json.loads(l)
                except ValueError:
                    continue
                if e.get("Action") == "pass" and e.get("Test"):
                    passed.add(e["Package"] + "/" + e["Test"])
            missing = [t for t in base if t not in passed]
            print(b["id"], "OK" if not missing else "TESTS FAIL %s" % missing[:5], "|", tail)
        finally:
            shutil.rmtree(w)


main()
