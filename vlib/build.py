"""Rebuild /repo's extensions in place from its current working tree."""
import fcntl
import os
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"


def ensure_built():
    env = dict(os.environ)
    env.update(
        SETUPTOOLS_SCM_PRETEND_VERSION="1.0.0",
        PYTHONDONTWRITEBYTECODE="1",
        PIP_NO_INDEX="1",
        HOME="/root",
        PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    )
    env.pop("PYTHONPATH", None)
    env.pop("PYTHONHASHSEED", None)
    lock = open("/tmp/.verif-build.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        p = subprocess.run(
            [PY, "/opt/vp/build_ext.py"], cwd=REPO, env=env, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, text=True,
        )
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()
    if p.returncode:
        sys.stderr.write(p.stdout[-4000:])
        sys.stderr.write("\nthe build of %s failed\n" % REPO)
        os._exit(2)
