"""Plant a bug: build patch.diff from edits, confirm the demonstration, keep it in /verif/seeded/<id>.

usage: plant.py FILE.py     FILE defines ID, PROP, EDITS=[(file, old, new)], DEMO (python source), NEEDS, BREAKS, LIB (bool)
The scratch copy is /tmp/mut (created from /repo with cp -a when missing)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MUT = "/tmp/mut"


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def main(path):
    d = {}
    exec(open(path).read(), d)
    if not os.path.isdir(MUT):
        sh("cp", "-a", "/repo", MUT)
    sh("git", "-C", MUT, "fetch", "-q", "/repo", "HEAD")
    sh("git", "-C", MUT, "reset", "-q", "--hard", "FETCH_HEAD")
    out = os.path.join(V, "seeded", d["ID"])
    os.makedirs(out, exist_ok=True)
    for f, old, new in d["EDITS"]:
        p = os.path.join(MUT, "src", f)
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit(f"{d['ID']}: {f}: {s.count(old)} matches for {old[:60]!r}")
        open(p, "w").write(s.replace(old, new))
    diff = sh("git", "-C", MUT, "diff").stdout
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    open(os.path.join(out, "demo.py"), "w").write(d["DEMO"])
    if "from lib import" in d["DEMO"]:
        shutil.copy(os.path.join(V, "tools", "plantlib", "lib.py"), out)
    open(os.path.join(out, "demo.sh"), "w").write(
        '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump({"property": d["PROP"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    env = dict(os.environ, PYTHONPATH=MUT + "/src")
    bad = sh("bash", out + "/demo.sh", cwd=MUT, env=env)
    sh("git", "-C", MUT, "checkout", "--", ".")
    good = sh("bash", out + "/demo.sh", cwd=MUT, env=env)
    ok = good.returncode == 0 and bad.returncode != 0
    print(d["ID"], "demo", "ok" if ok else f"WRONG clean={good.returncode} mutated={bad.returncode}")
    if not ok:
        print((good.stdout + good.stderr)[-1500:] if good.returncode else "", (bad.stdout + bad.stderr)[-500:])
    shutil.rmtree(os.path.join(out, "__pycache__"), ignore_errors=True)
    return ok


if __name__ == "__main__":
    for p in sys.argv[1:]:
        main(p)
