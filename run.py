#!/usr/bin/env python3
"""Entry point: run.py ID [--tier quick|thorough] [--replay FILE] [--jobs N] [--space NAME]

Starts a child interpreter with a fresh bytecode cache (macro expansions must be recomputed from
/repo's current working tree) and forwards its exit status."""
import os, sys, tempfile, shutil, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable

def main():
    scratch = tempfile.mkdtemp(prefix="mc_")
    env = dict(os.environ)
    env.update(PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"), PYTHONHASHSEED="0",
               PYTHONPATH=HERE, MC_SCRATCH=scratch, PYTHONDONTWRITEBYTECODE="")
    env.pop("PYTHONDONTWRITEBYTECODE")
    env.pop("PYTHONOPTIMIZE", None)
    env.setdefault("MC_REPO", "/repo")
    rc = 2
    try:
        rc = subprocess.call([PY, "-m", "lib.main"] + sys.argv[1:], env=env, cwd=HERE)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

main()
