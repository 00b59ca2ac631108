#!/usr/bin/env python3
"""mkseed.py ID PROP PKG NEEDS BREAKS FILE <<< 'OLD\n=====>\nNEW' [\n#####FILE2\nOLD\n=====>\nNEW...]
Writes seeded/ID/{patch.diff,meta.json,demo.sh}; demo_test.go is written separately."""
import sys, subprocess, json, os
sid, prop, pkg, needs, breaks, f = sys.argv[1:7]
txt = sys.stdin.read()
parts = txt.split("\n#####")
d = f"/verif/seeded/{sid}"
os.makedirs(d, exist_ok=True)
assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"])
try:
    for i, p in enumerate(parts):
        fn = f
        if i:
            fn, p = p.split("\n", 1)
            fn = fn.strip() or f
        old, new = p.split("\n=====>\n")
        new = new.rstrip("\n"); old = old.rstrip("\n")
        s = open("/repo/" + fn).read()
        assert s.count(old) == 1, (fn, s.count(old), old)
        open("/repo/" + fn, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", "/repo", "diff"])
    open(d + "/patch.diff", "wb").write(diff)
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
open(d + "/demo.sh", "w").write(f"""#!/bin/bash
# exit 0: the property holds on the demonstrated case; nonzero: broken
. /opt/vp/env.sh
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
printf '{{"Replace": {{"%s": "%s"}}}}' "$PWD/{pkg}/zz_demo_test.go" "$D/demo_test.go" > "$T/overlay.json"
go test -vet=off -count=1 -timeout 200s -overlay "$T/overlay.json" -run '^TestZZDemo$' ./{pkg}
""")
os.chmod(d + "/demo.sh", 0o755)
