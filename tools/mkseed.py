"""Plant one bug: python3 tools/mkseed.py SPEC.py

SPEC.py defines ID, PROPERTY, EDITS [(file, old, new)], DEMO (python source),
NEEDS, BREAKS.  The change is applied to /repo, the stable tests, the
demonstration and the check are run, and the tree is restored.
"""
import json
import os
import runpy
import subprocess
import sys

REPO = "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True,
                          **kw)


def main(path, run_check=True):
    g = runpy.run_path(path)
    d = f"/verif/seeded/{g['ID']}"
    os.makedirs(d, exist_ok=True)
    with open(f"{d}/demo.py", "w") as f:
        f.write(g["DEMO"].lstrip())
    with open(f"{d}/demo.sh", "w") as f:
        f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\n'
                'export PATH=/opt/venv/bin:$PATH\n'
                'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump(dict(property=g["PROPERTY"], needs=g["NEEDS"],
                   what_it_breaks=g["BREAKS"]),
              open(f"{d}/meta.json", "w"), indent=1)
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    ok = sh(f"bash {d}/demo.sh", cwd=REPO)
    print("demo on clean tree:", ok.returncode, ok.stderr[-300:])
    try:
        for f, old, new in g["EDITS"]:
            p = f"{REPO}/src/oemof/solph/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        open(f"{d}/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        bad = sh(f"bash {d}/demo.sh", cwd=REPO)
        print("demo with bug:", bad.returncode, bad.stderr[-200:])
        t = sh("bash /opt/vp/test.sh /tmp/seed.json")
        print("tests:", t.stdout.strip().splitlines()[-1])
        if run_check:
            c = sh(f"./check {g['PROPERTY']}", cwd="/verif")
            print("check:", c.returncode, c.stdout[-700:])
    finally:
        sh("git -C /repo checkout -- .")
    return ok.returncode, bad.returncode


if __name__ == "__main__":
    for p in sys.argv[1:]:
        print("==", p)
        main(p)
