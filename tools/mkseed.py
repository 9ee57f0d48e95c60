#!/usr/bin/env python3
"""mkseed.py DEF.py...: plants bugs. DEF.py sets id, prop, needs, breaks, edits
[(file, old, new)], demo (the Go source of a main package). Verifies each and
writes seeded/<id>."""
import sys, os, re, subprocess, shutil, json, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Runs demo.go.txt against the packages of the current directory.
. /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cp "$d/demo.go.txt" "$t/main.go"
echo "{\\"Replace\\": {\\"$PWD/zzdemo/main.go\\": \\"$t/main.go\\"}}" > "$t/overlay.json"
go build -overlay "$t/overlay.json" -o "$t/demo" ./zzdemo || exit 3
timeout 60 "$t/demo"
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def one(f):
    g = {}
    exec(open(f).read(), g)
    id = g["id"]
    d = os.path.join(here, "seeded", id)
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.go.txt", "w").write(g["demo"])
    json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    t = tempfile.mkdtemp(prefix="seed")
    try:
        sh(f"git -C /repo worktree prune; cp -a /repo {t}/repo")
        r = t + "/repo"
        for file, old, new in g["edits"]:
            s = open(f"{r}/{file}").read()
            if s.count(old) != 1:  # comments and empty lines in between do not matter
                m = re.findall(r"\n(?:[ \t]*(?://.*)?\n)*".join(re.escape(l) for l in old.split("\n") if l.strip()), s)
                assert len(m) == 1, (id, file, old, len(m))
                old, new = m[0], new.rstrip("\n")
            open(f"{r}/{file}", "w").write(s.replace(old, new))
        p = sh(f"git -C {r} diff").stdout
        open(d + "/patch.diff", "w").write(p)
        e = f". /opt/vp/env.sh; cd {r}; "
        b = sh(e + "go build ./... && go vet ./... 2>/dev/null; go test ./... 2>&1 | grep -v '^ok\\|no test files'", executable="/bin/bash")
        bad = b.stdout.strip()
        d1 = sh(f"cd {r} && {d}/demo.sh")
        d0 = sh(f"cd /repo && {d}/demo.sh")
        ok = not bad and d1.returncode not in (0, 3) and d0.returncode == 0
        chk = sh(f"VERIF_REPO={r} /tmp/sa -repo {r} {g['prop']}")
        print("OK " if ok else "BAD", id, "demo", d0.returncode, d1.returncode, "caught" if chk.returncode == 1 and "VIOLATION property=" + g["prop"] in chk.stdout else "MISSED")
        ls = [l for l in chk.stdout.split("\n") if "VIOLATION" in l or "UNDECIDED" in l]
        for l in ls[:3] + [l for l in ls[3:] if "VIOLATION" in l][:2]: print("     ", l[:250])
        if not ok: print(bad[:600], d0.stdout[-300:], d0.stderr[-300:], d1.stdout[-300:], d1.stderr[-500:])
    finally:
        shutil.rmtree(t)
for f in sys.argv[1:]: one(f)
