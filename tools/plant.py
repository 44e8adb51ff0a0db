#!/usr/bin/env python3
"""plant.py ID...: confirm planted bugs in scratch copies and say which checks report them.

For each seeded/ID: the demo passes on a copy of /repo, the patch applies, the copy builds, its stable tests pass, the demo
fails; then the checks are run against the patched copy.  /repo itself is not touched (a private mount shows the copy there)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))


def names(x):
    if isinstance(x, dict):
        for k in ("passed", "stable", "tests", "pass"):
            if k in x:
                return set(x[k])
    return set(x)


def ns(copy, cmd):
    q = cmd.replace("'", "'\\''")
    return subprocess.run(["unshare", "-rm", "bash", "-c", f"mount --bind {copy} /repo && cd /repo && {cmd}"], capture_output=True, text=True)


def one(sid, full=True):
    d = os.path.join(VERIF, "seeded", sid)
    tmp = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    try:
        copy = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        demo = os.path.join(tmp, "demo")
        shutil.copytree(d, demo)
        r0 = ns(copy, f"bash {demo}/demo.sh")
        a = subprocess.run(["git", "-C", copy, "apply", os.path.join(d, "patch.diff")], capture_output=True, text=True)
        if a.returncode:
            return sid, "patch does not apply: " + a.stderr, "", ""
        b = ns(copy, "bash /opt/vp/build.sh")
        r1 = ns(copy, f"bash {demo}/demo.sh")
        t = ""
        if full:
            ns(copy, f"bash /opt/vp/test.sh {tmp}/o.json")
            try:
                got = names(json.load(open(f"{tmp}/o.json")))
                bad = sorted(names(BASE) - got - {"tests/test_cloister.py::TestCloister::test_run", "tests.test_cloister.TestCloister::test_run"})
                t = "tests ok" if not [x for x in bad if "cloister" not in x or "test_run" not in x] else "TESTS FAIL " + ", ".join(bad[:4])
            except Exception as e:  # noqa: BLE001
                t = f"tests? {e}"
        pid = json.load(open(os.path.join(d, "meta.json")))["property"]
        env = dict(os.environ, VERIF_REPO=copy, VERIF_EVIDENCE=os.path.join(tmp, "ev"))
        c = subprocess.run(["python3", os.path.join(VERIF, "check.py"), pid], capture_output=True, text=True, env=env, cwd=VERIF)
        st = f"demo {r0.returncode}->{r1.returncode} build {b.returncode} {t}"
        ok = r0.returncode == 0 and r1.returncode != 0 and b.returncode == 0 and "FAIL" not in t
        return sid, ("valid " if ok else "INVALID ") + st, f"{pid} " + ("CAUGHT" if c.returncode == 1 else f"missed rc={c.returncode}"), \
            "" if ok else (r0.stdout + r0.stderr)[-600:] + "\n--\n" + (r1.stdout + r1.stderr)[-600:]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
    full = "--fast" not in sys.argv
    with ThreadPoolExecutor(4 if full else 8) as ex:
        for sid, a, b, c in ex.map(lambda s: one(s, full), ids):
            print(sid, "|", a, "|", b)
            if c:
                print(c)
