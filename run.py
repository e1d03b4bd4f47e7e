#!/opt/venv/bin/python
"""run.py CNN [quick|thorough]: runs one check against /repo's working tree."""
import os, sys, tempfile, shutil, subprocess, importlib

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python"


def outer():
    """Give the check a home, preferences, byte-code cache and temporary directory of its own."""
    work = tempfile.mkdtemp(prefix="verif-")
    code = 1
    try:
        repo = os.environ.get("VERIF_REPO", "/repo")
        for d in ("home/.config", "tmp", "pyc", "mpl"):
            os.makedirs(os.path.join(work, d))
        with open(os.path.join(work, "home/.config/ca.dcclab.python.raytracing.json"), "w") as f:
            f.write('{"lastVersionCheck": "2999-01-01T00:00:00.000001", "mode": "silent"}')
        env = {k: v for k, v in os.environ.items() if not k.startswith(("RAYTRACING", "PYTHON"))}
        env.update(HOME=work + "/home", TMPDIR=work + "/tmp", PYTHONPYCACHEPREFIX=work + "/pyc",
                   MPLCONFIGDIR=work + "/mpl", MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONPATH=repo + ":" + HERE,
                   OPENBLAS_NUM_THREADS="1", VERIF_INNER=work, VERIF_REPO=repo, PYTHONUTF8="1", PYTHONNOUSERSITE="1")
        code = subprocess.call([PYTHON, os.path.abspath(__file__)] + sys.argv[1:], env=env, cwd=work + "/tmp")
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code if code in (0, 1) else 1)


def inner():
    sys.path.insert(0, HERE)
    from mc import core
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    module = importlib.import_module("checks." + pid.lower())
    check = core.Check(pid, module.LEVEL, tier, seed)
    try:
        if getattr(module, "IMPORTS", True):
            import warnings
            import raytracing
            warnings.simplefilter("ignore")
            where = os.path.realpath(raytracing.__file__)
            assert where.startswith(os.path.realpath(core.REPO) + os.sep), where
        module.run(check)
    except Exception as e:
        import traceback
        traceback.print_exc()
        check.violations.append(dict(message="the check could not complete: %s: %s" % (type(e).__name__, e), case=None,
                                     traceback=traceback.format_exc()))
        check.coverage.setdefault("evaluations", check.cases)
    sys.exit(check.finish())


if __name__ == "__main__":
    inner() if os.environ.get("VERIF_INNER") else outer()
