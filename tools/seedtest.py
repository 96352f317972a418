"""Confirm planted bugs in scratch copies: seedtest.py [-n] [-t] ID...   (-n: no stable tests, -c: also all claimed checks)
Everything runs in a copy of /repo and of /verif under /tmp, removed afterwards."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
notest = "-n" in args
nodemo = "-d" in args
ids = [a for a in args if not a.startswith("-")]
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def sh(cmd, cwd, env=None, t=900):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout


def one(i):
    out = [i]
    w = tempfile.mkdtemp(prefix="seed_")
    try:
        repo, ver, dem = w + "/repo", w + "/verif", w + "/demo"
        shutil.copytree("/repo", repo, symlinks=True)
        os.makedirs(ver)
        for d in os.listdir(V):
            if d not in ("seeded", ".git", "replays", "evidence"):
                (shutil.copytree if os.path.isdir(V + "/" + d) else shutil.copy2)(V + "/" + d, ver + "/" + d)
        src = V + "/seeded/" + i
        shutil.copytree(src, dem, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        meta = json.load(open(src + "/meta.json"))
        env = {"PYTHONPATH": repo, "HOME": w + "/h", "NUMBA_CACHE_DIR": w + "/h/n"}
        os.makedirs(w + "/h")
        if not nodemo:
            r, o = sh(["bash", dem + "/demo.sh"], repo, env, 300)
            out.append("demo clean: %s" % ("ok" if r == 0 else "BAD %d\n%s" % (r, o[-1500:])))
        r, o = sh(["git", "apply", src + "/patch.diff"], repo)
        if r:
            out.append("APPLY FAILED " + o); return "\n".join(out)
        if not notest:
            for s in ("build.sh", "test.sh"):
                t = open("/opt/vp/" + s).read().replace("/repo", repo)
                open(w + "/" + s, "w").write(t)
            r, o = sh(["bash", w + "/build.sh"], repo, {"PYTHONPATH": repo})
            out.append("build: %s" % ("ok" if r == 0 else "BAD " + o[-800:]))
            sh(["bash", w + "/test.sh", w + "/o.json"], repo, {"PYTHONPATH": repo})
            res = json.load(open(w + "/o.json"))
            miss = [b for b in base if b not in res["passed"]]
            out.append("tests: %s" % ("ok" if not miss else "BAD %s" % miss))
        if not nodemo:
            shutil.rmtree(w + "/h"); os.makedirs(w + "/h")
            r, o = sh(["bash", dem + "/demo.sh"], repo, env, 300)
            out.append("demo patched: %s | %s" % ("ok (fails)" if r else "BAD passes", o.strip().splitlines()[-1][:200] if o.strip() else ""))
        r, o = sh([ver + "/run.sh", meta["property"], "quick"], ver, {"VERIF_REPO": repo})
        lines = [l for l in o.splitlines() if meta["property"] in l][:2]
        out.append("check %s: exit %d %s" % (meta["property"], r, "CAUGHT " if r == 1 and "VIOLATION property=" + meta["property"] in o else "MISSED "))
        out += ["    " + l[:250] for l in (lines if r == 1 else o.splitlines()[-5:])]
    except Exception as e:
        out.append("ERROR %r" % e)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return "\n".join(out)


with ThreadPoolExecutor(4) as ex:
    for r in ex.map(one, ids):
        print(r, flush=True)
