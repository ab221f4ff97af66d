"""mkseed.py ID...: (re)build and verify planted bugs described in tools/seeds.py.

Writes seeded/<ID>/{patch.diff,demo.sh,demo.py,boot.py,meta.json}; verifies in a scratch copy of /repo that
the patch applies, builds, passes the stable tests, and that the demonstration passes without and fails with it;
then runs the property's check against the patched copy (VF_REPO).  Options: --notest, --nocheck.
"""

import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from seeds import SEEDS  # noqa: E402

args = [a for a in sys.argv[1:] if not a.startswith("--")]
opts = {a for a in sys.argv[1:] if a.startswith("--")}


def sh(cmd, cwd=None, env=None, timeout=1200):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, env={**os.environ, **(env or {})})  # fmt: skip
    return p.returncode, p.stdout


def build(id):
    s = SEEDS[id]
    d = os.path.join(ROOT, "seeded", id)
    scratch = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    repo = os.path.join(scratch, "repo")
    try:
        sh(["cp", "-a", os.environ.get("SEED_REPO", "/repo"), repo])
        sh(["git", "checkout", "-q", "HEAD", "--", "."], cwd=repo)
        demo = os.path.join(scratch, "demo")
        os.makedirs(demo)
        shutil.copy(os.path.join(ROOT, "tools", "boot.py"), demo)
        with open(os.path.join(demo, "demo.py"), "w") as fh:
            fh.write(s["demo"].lstrip("\n"))
        with open(os.path.join(demo, "demo.sh"), "w") as fh:
            fh.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        rc, out = sh(["bash", os.path.join(demo, "demo.sh")], cwd=repo)
        if rc:
            return f"{id}: demo fails on the unchanged tree\n{out[-500:]}"
        blame = []
        for file, old, new in s["edits"]:
            p = os.path.join(repo, file)
            src = open(p).read()
            if src.count(old) != 1:
                return f"{id}: {src.count(old)} places for {old!r} in {file}"
            open(p, "w").write(src.replace(old, new))
        rc, patch = sh(["git", "diff"], cwd=repo)
        # the removed lines have to be original ones
        for f in {e[0] for e in s["edits"]}:
            base = sh(["git", "show", f"78de7a9:{f}"], cwd=repo)[1].splitlines()
            for ln in sh(["git", "diff", "-U0", "--", f], cwd=repo)[1].splitlines():
                if re.match(r"-(?!--)", ln) and ln[1:] not in base:
                    blame.append(ln)
        test = "not run"
        mine = {}
        for n in ("build.sh", "test.sh"):
            mine[n] = os.path.join(scratch, n)
            open(mine[n], "w").write(re.sub(r"/repo(?=[/ ]|$)", repo, open(f"/opt/vp/{n}").read(), flags=re.M))
        rc, out = sh(["bash", mine["build.sh"]], cwd=repo)
        if rc:
            return f"{id}: does not build\n{out[-500:]}"
        rc, dout = sh(["bash", os.path.join(demo, "demo.sh")], cwd=repo)
        if not rc:
            return f"{id}: demo passes with the bug\n{dout[-500:]}"
        if "--notest" not in opts:
            rc, out = sh(["bash", mine["test.sh"], os.path.join(scratch, "out.json")], cwd=repo)
            test = out.strip().splitlines()[-1]
            if " 0 failed" not in test:
                fails = [ln for ln in out.splitlines() if ln.startswith(("FAILED", "ERROR"))]
                return f"{id}: caught by the tests: {test} {fails[:3]}"
        if os.path.exists(d):
            shutil.rmtree(d)
        os.makedirs(d)
        for n in ("boot.py", "demo.py", "demo.sh"):
            shutil.copy(os.path.join(demo, n), d)
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)  # fmt: skip
        res = "check not run"
        if "--nocheck" not in opts:
            import time

            t = time.time()
            rc, out = sh(["bash", "run.sh", s["property"], "--tier", "quick"], cwd=ROOT, env={"VF_REPO": repo})
            viol = [ln for ln in out.splitlines() if ln.startswith("VIOLATION")]
            what = out.splitlines()[-2] if viol else out[-800:]
            res = f"{'CAUGHT' if rc == 1 and viol else 'MISSED rc=%d' % rc} in {time.time() - t:.0f}s: {what[:300]}"
        return f"{id} {s['property']}: tests {test}; demo: {dout.strip().splitlines()[-1][:200]}; {res}" + (f"; NOT ORIGINAL {blame}" if blame else "")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


for id in args or SEEDS:
    print(build(id), flush=True)
