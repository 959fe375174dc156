#!/usr/bin/env python3
"""Plant-a-bug helper (development only; no check uses it).
  seedtool.py new SPEC.py     SPEC defines id, prop, edits=[(file, old, new)], pkg, demo (Go test source), needs, breaks
  seedtool.py test ID [-t]    scratch copy: demo passes clean, fails patched; -t also runs the stable tests; then the check
"""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.abspath(__file__))
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, 1 when it is broken; run with cwd = the repository
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$w"' EXIT
PKG=@PKG@
cp "$here/demo_test.go.txt" "$w/zz_demo_test.go"
python3 - "$PWD" "$PKG" "$w" <<'P'
import sys, os, json
repo, pkg, w = sys.argv[1:]
d = os.path.join(repo, pkg)
r = {os.path.join(d, f): "" for f in os.listdir(d) if f.endswith("_test.go")}
r[os.path.join(d, "zz_demo_test.go")] = os.path.join(w, "zz_demo_test.go")
json.dump({"Replace": r}, open(os.path.join(w, "o.json"), "w"))
P
@PG@cd "$PWD" && go test -vet=off -count=1 -timeout 120s -overlay "$w/o.json" -run '^TestDemo$' "./$PKG"@RACE@
'''
PG = '''PGBIN=$(ls -d /usr/lib/postgresql/*/bin | tail -1)
chmod 755 "$w"; mkdir "$w/pg"; chown postgres: "$w/pg"
aspg() { (cd / && exec setpriv --reuid=postgres --regid=postgres --init-groups "$@"); }
trap 'aspg "$PGBIN/pg_ctl" -D "$w/pg/data" -m immediate -w stop >/dev/null 2>&1; rm -rf "$w"' EXIT
aspg "$PGBIN/initdb" -D "$w/pg/data" -U postgres -A trust -E UTF8 --locale=C.UTF-8 --no-sync >/dev/null 2>&1
aspg "$PGBIN/pg_ctl" -D "$w/pg/data" -l "$w/pg/server.log" -w -t 60 -o "-k $w/pg -c listen_addresses= -c fsync=off" start >/dev/null 2>&1
"$PGBIN/createdb" -h "$w/pg" -U postgres syncv3
export POSTGRES_HOST="$w/pg" POSTGRES_USER=postgres POSTGRES_DB=syncv3 PGHOST="$w/pg" PGUSER=postgres
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def new(spec):
    g = {}
    exec(open(spec).read(), g)
    d = f"{V}/seeded/{g['id']}"; os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seed.", dir="/tmp"); sh(f"cp -a /repo/. {t}/")
    for f, o, n in g["edits"]:
        p = f"{t}/{f}"; s = open(p).read()
        assert s.count(o) == 1, (f, s.count(o), o)
        open(p, "w").write(s.replace(o, n))
    diff = sh(f"git -C {t} diff").stdout
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo_test.go.txt", "w").write(g["demo"].lstrip("\n"))
    open(f"{d}/demo.sh", "w").write(DEMO.replace("@PKG@", g["pkg"]).replace("@PG@", PG if g.get("pg") else "").replace("@RACE@", " -race" if g.get("race") else ""))
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    shutil.rmtree(t)
def test(id, full):
    d = f"{V}/seeded/{id}"
    prop = json.load(open(f"{d}/meta.json"))["property"]
    t = tempfile.mkdtemp(prefix="seed.", dir="/tmp"); sh(f"cp -a /repo/. {t}/")
    try:
        r = sh(f"bash {d}/demo.sh", cwd=t); print("demo clean rc", r.returncode, "" if r.returncode == 0 else (r.stdout + r.stderr)[-800:])
        a = sh(f"git -C {t} apply {d}/patch.diff"); assert a.returncode == 0, a.stderr
        b = sh(f". /opt/vp/env.sh; go build ./...", cwd=t, executable="/bin/bash"); print("build rc", b.returncode, b.stderr[-500:])
        r = sh(f"bash {d}/demo.sh", cwd=t); print("demo patched rc", r.returncode, (r.stdout + r.stderr)[:300])
        if full:
            s = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {t}")
            open(f"{t}.sh", "w").write(s); sh(f"bash {t}.sh {t}.json")
            res = json.load(open(f"{t}.json")); base = json.load(open("/opt/vp/BASELINE.json"))
            stable = base.get("passed") or base.get("stable") or base
            print("stable tests failing:", [x for x in stable if x not in set(res["passed"])][:5])
            os.remove(f"{t}.sh"); os.remove(f"{t}.json")
        r = sh(f"VERIF_REPO={t} ./check.sh {prop}", cwd=V); print("check rc", r.returncode); print("\n".join([l for l in r.stdout.split("\n") if "VIOLATION" in l or "FAILED" in l or "failed" in l or "VERIF-FAIL" in l][:6]))
    finally:
        shutil.rmtree(t, ignore_errors=True)
if sys.argv[1] == "new": new(sys.argv[2])
else: test(sys.argv[2], "-t" in sys.argv)
