#!/usr/bin/env python3
"""Builds seeded/<id> from a definition file: python3 tools/mkseed.py DEF.py
DEF.py sets ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (Go test source with TestDemo)
and optionally PEER=True when the demonstration uses the reference peer."""
import os, subprocess, sys, json, shutil
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
out = os.path.join(root, "seeded", ns["ID"])
work = "/tmp/vfseed"
shutil.rmtree(work, ignore_errors=True)
subprocess.check_call(["git", "clone", "-q", "/repo", work])
for f, old, new in ns["EDITS"]:
    p = os.path.join(work, f)
    s = open(p).read()
    assert s.count(old) == 1, (f, old, s.count(old))
    open(p, "w").write(s.replace(old, new))
diff = subprocess.check_output(["git", "-C", work, "diff"], text=True)
os.makedirs(out, exist_ok=True)
open(out + "/patch.diff", "w").write(diff)
open(out + "/demo_test.go", "w").write(ns["DEMO"].lstrip())
if ns.get("PEER"):
    for f in "api", "ref", "world":
        shutil.copy(f"{root}/harness/{f}.go", f"{out}/peer_{f}.go")
open(out + "/demo.sh", "w").write('''#!/bin/bash
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
sep=
printf '{"Replace":{' > "$d/overlay.json"
for f in "$here"/*.go; do
  n=zz_$(basename "$f" .go)_test.go
  cp "$f" "$d/$n"
  printf '%s"%s/%s":"%s/%s"' "$sep" "$PWD" "$n" "$d" "$n" >> "$d/overlay.json"
  sep=,
done
printf '}}' >> "$d/overlay.json"
go test -vet=off -overlay "$d/overlay.json" -run '^TestDemo$' -count=1 -timeout 120s .
''')
json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
env = ". /opt/vp/env.sh; cd " + work + "; "
def sh(c):
    r = subprocess.run(["bash", "-c", env + c], capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr)[-1500:]
ok = True
rc, o = sh("go build ./... && go test -vet=off -count=1 ./...")
print(ns["ID"], "existing tests with patch:", "pass" if rc == 0 else "FAIL\n" + o); ok &= rc == 0
rc, o = sh(f"bash {out}/demo.sh")
print(ns["ID"], "demo with patch:", "fails as wanted" if rc else "PASSES (bad)"); ok &= rc != 0
if rc: print("   ", o.strip().split("\n")[1][:150] if "\n" in o else o)
if "build failed" in o: print(o); ok = False
rc, o = sh(f"git checkout -q . && bash {out}/demo.sh")
print(ns["ID"], "demo without patch:", "passes" if rc == 0 else "FAILS (bad)\n" + o); ok &= rc == 0
shutil.rmtree(work)
sys.exit(0 if ok else 1)
