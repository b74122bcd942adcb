"""mkseed.py SPEC.py...: build and confirm planted changes. A spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source).
Confirms in a scratch copy: applies, stable tests pass, demo exits 0 on the unchanged tree and nonzero with the patch."""
import sys, os, json, subprocess, shutil, runpy, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '#!/bin/bash\nexport JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'
def run(c, **k): return subprocess.run(c, capture_output=True, text=True, **k)
for f in sys.argv[1:]:
    s = runpy.run_path(f); sid = s["ID"]; out = os.path.join(HERE, "seeded", sid)
    w = tempfile.mkdtemp(prefix="seed_"); r = os.path.join(w, "repo")
    try:
        run(["cp", "-a", "/repo", r])
        run(["git", "-C", r, "checkout", "--", "."])
        os.makedirs(out, exist_ok=True)
        open(out + "/demo.py", "w").write(s["DEMO"].lstrip()); open(out + "/demo.sh", "w").write(SH); os.chmod(out + "/demo.sh", 0o755)
        a = run(["bash", out + "/demo.sh"], cwd=r)
        for fn, old, new in s["EDITS"]:
            t = open(os.path.join(r, fn)).read()
            assert t.count(old) >= 1, (sid, fn, "old text missing")
            assert t.count(old) == 1, (sid, fn, "old text not unique", t.count(old))
            open(os.path.join(r, fn), "w").write(t.replace(old, new))
        d = run(["git", "-C", r, "diff"]).stdout
        open(out + "/patch.diff", "w").write(d)
        b = run(["bash", out + "/demo.sh"], cwd=r)
        tst = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"] + ["/".join(x.split("::")[0].split(".")) + ".py::" + x.split("::")[1] for x in json.load(open("/opt/vp/BASELINE.json"))["stable"]], cwd=r, env=dict(os.environ, PYTHONPATH=r, JAX_PLATFORMS="cpu"))
        json.dump(dict(property=s["PROPERTY"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(out + "/meta.json", "w"), indent=1)
        ok = a.returncode == 0 and b.returncode != 0
        print(sid, "OK" if ok else "BAD", "clean rc", a.returncode, "patched rc", b.returncode, "tests", tst.returncode, tst.stdout.strip().splitlines()[-1:])
        if not ok: print(a.stdout[-500:], a.stderr[-800:], b.stdout[-500:], b.stderr[-800:])
        else: print("   ", (b.stderr.strip().splitlines() or [""])[-1][:150])
    finally:
        shutil.rmtree(w)
