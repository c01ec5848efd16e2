#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from an edit, and confirms it: plant.py SPEC.py (not used by any check).

A spec sets id, property, edits [(file, old, new)...], append_to (file of the view the demo test is appended to),
demo (Rust test module), needs, breaks."""
import json, os, subprocess, sys, textwrap
DEMO = '''#!/bin/bash
# Adds a test to a copy of the part of /repo that builds here, and runs it. Everything happens in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cp -r /opt/vp/view "$work/view" && cp -a /opt/vp/target "$work/target" || exit 2
cat "$here/demo.rs" >> "$work/view/{file}"
cd "$work/view" && CARGO_TARGET_DIR="$work/target" {wrap}timeout 250 cargo test --lib --offline --quiet verif_demo 2>&1 | tail -n 30
exit ${{PIPESTATUS[0]}}
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
spec = {}
exec(open(sys.argv[1]).read(), spec)
d = f"/verif/seeded/{spec['id']}"
assert not sh("git -C /repo status --porcelain").stdout.strip()
os.makedirs(d, exist_ok=True)
for f, old, new in spec["edits"]:
    s = open("/repo/" + f).read()
    assert s.count(old) == 1, (f, old, s.count(old))
    open("/repo/" + f, "w").write(s.replace(old, new))
try:
    open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    if "demo_sh" in spec:
        open(d + "/demo.sh", "w").write(spec["demo_sh"])
        for n, c in spec.get("demo_files", {}).items(): open(f"{d}/{n}", "w").write(c)
    else:
        open(d + "/demo.sh", "w").write(DEMO.format(file=spec["append_to"], wrap=spec.get("wrap", "")))
        open(d + "/demo.rs", "w").write(spec["demo"])
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=spec["property"], needs=spec["needs"], what_it_breaks=spec["breaks"]), open(d + "/meta.json", "w"), indent=1)
    b = sh("bash /opt/vp/build.sh", timeout=900)
    print("build with patch:", b.returncode, b.stderr[-800:] if b.returncode else "")
    t = sh("bash /opt/vp/test.sh /tmp/plant-test.json")
    r = json.load(open("/tmp/plant-test.json"))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    print("stable tests failing:", stable - set(r.get("passed", [])) )
    x = sh(f"bash {d}/demo.sh", cwd="/repo")
    print("demo with patch:", x.returncode, x.stdout[-500:])
    if "-c" in sys.argv:
        c = sh(f"cd /verif && python3 check.py {spec['property']} quick")
        print("check:", c.returncode, c.stdout[-900:], c.stderr[-500:])
finally:
    sh("git -C /repo checkout -- .")
sh("bash /opt/vp/build.sh", timeout=900)
x = sh(f"bash {d}/demo.sh", cwd="/repo")
print("demo without patch:", x.returncode, x.stdout[-500:] if x.returncode else "")
