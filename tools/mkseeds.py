#!/usr/bin/env python3
"""Build /verif/seeded/<id>/ from tools/seeds_def.py, keeping only changes confirmed in a scratch copy of /repo:
applies, imports, stable tests pass, demo passes before and fails after.   usage: mkseeds.py [id ...]
   --run: also run the quick check of the property against the scratch copy (VERIF_REPO_SRC)"""
from concurrent.futures import ThreadPoolExecutor
import json, os, shutil, subprocess, sys, tempfile, threading
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds_def import SEEDS
run = "--run" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
BASE = json.load(open("/opt/vp/BASELINE.json"))
DEMO = '#!/bin/bash\n# cwd: the repository\nexport PYTHONPATH="$PWD/src" MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ, MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


LOCK = threading.Lock()


def one(s):
    if ids and s["id"] not in ids:
        return
    d = os.path.join(VERIF, "seeded", s["id"])
    work = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        sh(f"git -C /repo archive HEAD | tar -x -C {work}", "/")
        sh("git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm base", work)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "demo.py"), "w") as f:
            f.write(s["demo"].lstrip("\n"))
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        pre = sh(f"bash {d}/demo.sh", work)
        for fn, old, new in s["edits"]:
            p = os.path.join(work, "src/barotropic", fn)
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], fn, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff", work).stdout
        with open(os.path.join(d, "patch.diff"), "w") as f:
            f.write(diff)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        post = sh(f"bash {d}/demo.sh", work)
        t = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -3", work, env={"PYTHONPATH": work + "/src"})
        chk = subprocess.run(["git", "-C", "/repo", "apply", "--check", os.path.join(d, "patch.diff")], capture_output=True, text=True)
        tests_ok = "100 passed" in t.stdout and "failed" not in t.stdout
        ok = pre.returncode == 0 and post.returncode != 0 and tests_ok and chk.returncode == 0
        msg = f"{s['id']} {s['property']}: {'ok' if ok else 'REJECTED'} pre={pre.returncode} post={post.returncode} tests={tests_ok} applies={chk.returncode == 0}"
        if not ok:
            msg += f"\n   pre: {pre.stderr[-600:]}\n   post: {post.stdout[-300:]}\n   tests: {t.stdout[-300:]} {chk.stderr}"
        if run and ok:
            with LOCK:
                r = sh(f"python3-vt run_check.py {s['property']} --quick", VERIF, env={"VERIF_REPO_SRC": work + "/src"}, timeout=900)
            viol = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            tail = [l for l in r.stdout.splitlines() if l.startswith(s["property"] + " [")]
            msg += f"  check exit={r.returncode} violations={len(viol)} {(r.stdout.splitlines() or [''])[1:2]} {tail[0].split('wall')[-1] if tail else ''}"
            if r.returncode != 1:
                msg += "\n  MISSED/ERROR " + r.stdout[-1500:] + r.stderr[-800:]
        print(msg, flush=True)
        if not ok:
            shutil.rmtree(d)
    finally:
        shutil.rmtree(work)


with ThreadPoolExecutor(6) as ex:
    for f in [ex.submit(one, s) for s in SEEDS]:
        try:
            f.result()
        except Exception as e:
            print('ERROR', type(e).__name__, e, flush=True)
