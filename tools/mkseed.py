"""mkseed.py FILE.py... : create planted bugs under /verif/seeded from definitions, in a scratch copy of /repo.

A definition file calls seed(id, prop, [(file, old, new), ...], needs, breaks, demo). Kept only when the change applies,
touches lines of the original repository, passes the tests, and the demo passes without and fails with it."""
import json, os, re, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = "/tmp/seedrepo"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONPATH=COPY + "/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", QT_QPA_PLATFORM="offscreen")


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def refresh():
    if not os.path.isdir(COPY):
        subprocess.run(["cp", "-a", "/repo", COPY], check=True)
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    sh("git -C %s fetch -q /repo && git -C %s checkout -q -f %s" % (COPY, COPY, head))
    assert sh("git -C %s rev-parse HEAD" % COPY).stdout.strip() == head


def edit(path, old, new):
    b = open(path, "rb").read().decode()
    crlf = "\r\n" in b
    s = b.replace("\r\n", "\n")
    assert s.count(old) == 1, (path, s.count(old), old)
    s = s.replace(old, new)
    open(path, "wb").write((s.replace("\n", "\r\n") if crlf else s).encode())


def seed(sid, prop, edits, needs, breaks, demo):
    refresh()
    base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
    d = os.path.join("/tmp/seed", sid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f, old, new in edits:
        edit(os.path.join(COPY, f), old, new)
    diff = subprocess.run(["git", "-C", COPY, "diff"], capture_output=True).stdout
    open(d + "/patch.diff", "wb").write(diff)
    # deleted / changed lines must stem from the original repository
    n_orig = 0
    for f in {e[0] for e in edits}:
        dl = subprocess.run(["git", "-C", COPY, "diff", "-U0", "--", f], capture_output=True).stdout.decode()
        bl = sh("git -C /repo blame -l --root HEAD -- %s" % f).stdout.split("\n")
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", dl, re.M):
            a, n = int(m.group(1)), int(m.group(2) or 1)
            for ln in range(a, a + n):
                ok = bl[ln - 1].lstrip("^").startswith(base[:30])
                n_orig += ok
                if not ok:
                    print(sid, "NOTE line %d of %s is not original" % (ln, f))
    open(d + "/demo.py", "w").write(demo.lstrip())
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen PYTHONWARNINGS=ignore\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    r1 = sh("bash %s/demo.sh" % d, cwd=COPY, env=ENV)
    t = sh("%s -m pytest -q -x -p no:cacheprovider --timeout=300 tests 2>&1 | tail -4" % PY, cwd=COPY, env=ENV).stdout
    ok_tests = re.search(r"\b\d+ passed", t) and not re.search(r"failed|error", t)
    sh("git -C %s checkout -q -f -- ." % COPY)
    r0 = sh("bash %s/demo.sh" % d, cwd=COPY, env=ENV)
    good = r0.returncode == 0 and r1.returncode != 0 and ok_tests and n_orig > 0
    print(sid, "KEPT" if good else "REJECTED", "clean rc", r0.returncode, "patched rc", r1.returncode, "tests", t.strip().split("\n")[-1])
    if not good:
        print((r0.stdout + r0.stderr)[-1500:], (r1.stdout + r1.stderr)[-600:], t)
        return
    dst = os.path.join(VERIF, "seeded", sid)
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(d, dst)


if __name__ == "__main__":
    for f in sys.argv[1:]:
        exec(compile(open(f).read(), f, "exec"), dict(seed=seed))
    sh("git -C %s checkout -q -f -- ." % COPY)
