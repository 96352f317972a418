"""mkseed(id, file, [(old,new)...], property, needs, breaks, demo_py, extra files) -> /verif/seeded/<id>/"""
import json, os, shutil, subprocess, tempfile
R = os.environ.get("MKREPO", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
# run with cwd = the repository; everything it writes goes to a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
export HOME="$work" TMPDIR="$work" RAY_TMPDIR="$work" NUMBA_CACHE_DIR="$work/numba" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export RAY_USAGE_STATS_ENABLED=0 OMP_NUM_THREADS=1 SCRATCH="$work" PYTHONPATH="$PWD:$here"
cd "$work" && /opt/venv/bin/python -W ignore "$here/demo.py"
"""


def mkseed(sid, edits, prop, needs, breaks, demo, sim=False, extra=()):
    """edits: [(file, old, new)...]"""
    d = os.path.join(V, "seeded", sid)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix="mk_")
    try:
        subprocess.check_call(["git", "-C", R, "worktree", "add", "-q", "--detach", w + "/r", "HEAD"])
        for f, old, new in edits:
            p = os.path.join(w, "r", f)
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
        # only lines of the original repository may change
        orig = subprocess.check_output(["git", "-C", R, "show", "a7a0b4e:" + edits[0][0]], text=True).splitlines()
        for l in diff.splitlines():
            if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in orig:
                print("WARNING", sid, "removes a line that is not original:", l)
    finally:
        subprocess.call(["git", "-C", R, "worktree", "remove", "--force", w + "/r"])
        shutil.rmtree(w, ignore_errors=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(SH)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(demo)
    if sim:
        shutil.copy(V + "/vlib/simpat.py", d + "/simpat.py")
    for f in extra:
        shutil.copy(V + "/vlib/" + f, d + "/" + f)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
