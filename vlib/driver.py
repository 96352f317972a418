"""Runs one check in a child process with a private HOME (the package keeps a
numba cache in ~/.pyebsdindex whose staleness test only looks at the file of the
jitted function), watches its heartbeat, and turns a crash or a hang of the code
under test into a VIOLATION.

Exit codes: 0 held, 1 VIOLATION printed, 2 the harness itself failed.
"""
import json, os, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HANG_S = float(os.environ.get("VERIF_HANG_S", "300"))


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    rest = sys.argv[2:]
    if rest and rest[0] == "--replay":
        replay = os.path.abspath(rest[1])
    elif rest:
        tier = rest[0]
    seed = os.environ.get("VERIF_SEED", "1")
    home = tempfile.mkdtemp(prefix="vf_%s_" % pid)
    prog = os.path.join(home, "progress")
    open(prog, "w").close()
    env = dict(os.environ)
    env.update(
        HOME=home, TMPDIR=home, RAY_TMPDIR=home,
        PYTHONPATH=REPO + os.pathsep + VERIF,
        PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
        RAY_USAGE_STATS_ENABLED="0", VERIF_TIER=tier, VERIF_SEED=seed,
        VERIF_PROGRESS=prog, VERIF_DIR=VERIF, VERIF_REPO=REPO,
        VERIF_SCRATCH=os.path.join(home, "scratch"), VERIF_T0=str(time.time()),
    )
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        env.setdefault(k, "1")
    env["NUMBA_CACHE_DIR"] = os.path.join(home, "numba")  # never /repo/**/__pycache__: it would go stale
    if replay:
        env["VERIF_REPLAY"] = replay
    os.makedirs(env["VERIF_SCRATCH"])
    t0 = time.time()
    child = subprocess.Popen([sys.executable, "-W", "ignore", "-X", "faulthandler", "-m", "checks." + pid],
                             cwd=home, env=env, start_new_session=True)
    hung = False
    try:
        while True:
            try:
                child.wait(timeout=1.0)
                break
            except subprocess.TimeoutExpired:
                if time.time() - os.stat(prog).st_mtime > HANG_S:
                    hung = True
                    break
    finally:
        try:
            os.killpg(child.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        child.wait()
    rc = child.returncode
    try:
        with open(prog) as f:
            last = f.read(4000)
    except OSError:
        last = ""
    code = 2
    if rc in (0, 1) and not hung:
        code = rc
    elif hung or rc < 0:
        why = ("no progress for %.0f s (hang)" % HANG_S) if hung else \
              ("the process running the code died with signal %d" % -rc)
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s_crash.json" % pid)
        with open(path, "w") as f:
            json.dump({"property": pid, "why": why, "last_case": last}, f, indent=1)
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        with open(os.path.join(ev, pid + ".json"), "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": int(seed), "level": "other",
                       "coverage": {"explanation": why + "; last case: " + last[:500]},
                       "wall_s": time.time() - t0, "violations": 1}, f)
        if last.strip():
            print("%s: %s at case %s" % (pid, why, last[:800]))
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
            code = 1
        else:
            print("%s: harness: %s before the first case" % (pid, why))
    shutil.rmtree(home, ignore_errors=True)
    sys.exit(code)


main()
