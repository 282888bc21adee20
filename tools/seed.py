"""Development tool: make and confirm planted bugs (never used by a check).

    seed.py make BUGS.py     write /verif/seeded/<id>/ for each bug in BUGS.py
    seed.py confirm ID...    in a scratch copy: the patch applies, tests pass, demo discriminates
"""
import json, os, shutil, subprocess, sys, tempfile
import concurrent.futures as cf

SEEDED = "/verif/seeded"
PY = "/opt/venv/bin/python"


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    for b in ns["BUGS"]:
        d = os.path.join(SEEDED, b["id"])
        if os.path.exists(d):
            continue
        tmp = tempfile.mkdtemp(prefix="seed-")
        run(["git", "worktree", "prune"], "/repo")
        shutil.copytree("/repo/shellous", tmp + "/a/shellous", ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copytree(tmp + "/a", tmp + "/b")
        for f, old, new in b["edits"]:
            p = f"{tmp}/b/shellous/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "EDIT DOES NOT MATCH", s.count(old), repr(old[:80]))
                break
            open(p, "w").write(s.replace(old, new))
        else:
            diff = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=tmp,
                                  stdout=subprocess.PIPE, text=True).stdout
            diff = diff.replace("diff --git a/a/", "diff --git a/").replace("--- a/", "--- a/").replace("+++ b/", "+++ b/")
            diff = diff.replace("diff --git a/shellous", "diff --git a/shellous")
            os.makedirs(d)
            open(d + "/patch.diff", "w").write(diff)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(d + "/meta.json", "w"), indent=1)
            open(d + "/demo.py", "w").write(b["demo"].lstrip())
            open(d + "/demo.sh", "w").write(
                '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
                'exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            print("made", b["id"])
        shutil.rmtree(tmp)


def confirm(bid, tests=True):
    d = os.path.join(SEEDED, bid)
    tmp = tempfile.mkdtemp(prefix="seedw-")
    try:
        w = tmp + "/repo"
        run(["cp", "-a", "/repo", w], "/")
        clean = run(["bash", d + "/demo.sh"], w)
        r = run(["git", "apply", d + "/patch.diff"], w)
        if r.returncode:
            return f"{bid}: DOES NOT APPLY {r.stdout}"
        bad = run(["bash", d + "/demo.sh"], w)
        msg = f"{bid}: demo clean={clean.returncode} patched={bad.returncode}"
        if clean.returncode:
            msg += " CLEAN-OUTPUT " + clean.stdout[-600:]
        if not bad.returncode:
            msg += " NOT-DETECTED-BY-DEMO " + bad.stdout[-300:]
        if tests and not clean.returncode and bad.returncode:
            env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
            for k in list(env):
                if k.startswith("SHELLOUS") or k == "COVERAGE_RUN":
                    del env[k]
            r = run([PY, "-m", "pytest", "-q", "-s", "-x", "-p", "no:cacheprovider", "-p", "no:randomly", "--timeout=60",
                     "--basetemp=" + tmp + "/t", "tests"], w, env=env, stdin=subprocess.DEVNULL)
            tail = [l for l in r.stdout.splitlines() if "passed" in l or "failed" in l or l.startswith("FAILED")]
            msg += f" tests rc={r.returncode} {tail[-3:]}"
        return msg
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
        with cf.ThreadPoolExecutor(4) as ex:
            for m in ex.map(confirm, ids):
                print(m, flush=True)
