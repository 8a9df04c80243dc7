#!/usr/bin/env python3
"""usage: mkseed.py SPEC.py [ID...] : writes seeded/<id>/ for the specs of a file (a list SEEDS of dicts)."""
import json, os, runpy, shutil, subprocess, sys, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
helper = open(os.path.join(root, "tools/seeds/helper_test.go.txt")).read()
DEMO = '''#!/bin/bash
# exit 0: the property holds in this case, otherwise it does not
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:$PATH GOTOOLCHAIN=local GOPROXY=off
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export SEED_SCRATCH=$tmp
cat > "$tmp/overlay.json" <<END
{"Replace": {"$PWD/@DIR@zz_seed_test.go": "$here/demo_test.go", "$PWD/@DIR@zz_seedhelper_test.go": "$here/helper_test.go"}}
END
go test -count=1 -vet=off @FLAGS@ -timeout 120s -overlay "$tmp/overlay.json" -run '^TestSeed$' ./@DIR@
'''
spec = runpy.run_path(sys.argv[1])["SEEDS"]
for s in spec:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
        continue
    d = os.path.join(root, "seeded", s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    tmp = tempfile.mkdtemp()
    subprocess.run(["git", "clone", "-q", "/repo", tmp + "/r"], check=True)
    for f, old, new in s["edits"]:
        p = os.path.join(tmp, "r", f)
        t = open(p).read()
        if t.count(old) != 1:
            raise SystemExit("%s: %d times in %s: %s" % (s["id"], t.count(old), f, old))
        open(p, "w").write(t.replace(old, new))
        subprocess.run(["gofmt", "-l", p])
    diff = subprocess.run(["git", "-C", tmp + "/r", "diff"], capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    shutil.rmtree(tmp)
    pkgdir = s.get("pkg", "")
    name = (os.path.basename(pkgdir) if pkgdir else "goslice") + "_test"
    name = name.replace("gcode/renderer", "renderer")
    open(d + "/helper_test.go", "w").write(helper.replace("PKG", name, 1))
    imports = "".join('\t"%s"\n' % i for i in ["testing"] + s.get("imports", []))
    open(d + "/demo_test.go", "w").write("package %s\n\nimport (\n%s)\n\n%s" % (name, imports, s["demo"].lstrip("\n")))
    subprocess.run(["gofmt", "-w", d + "/demo_test.go", d + "/helper_test.go"], check=True)
    demo = DEMO.replace("@DIR@", pkgdir + "/" if pkgdir else "").replace("@FLAGS@", s.get("flags", ""))
    open(d + "/demo.sh", "w").write(demo)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
