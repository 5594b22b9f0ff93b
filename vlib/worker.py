"""One search shard or one replay, in a fresh process.

argv: worker.py search MODULE SUB SEED N OUT JOURNAL
      worker.py replay MODULE REPLAYFILE OUT
"""
import importlib
import json
import os
import sys

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import logging  # noqa: E402
import warnings  # noqa: E402

warnings.simplefilter("ignore")
if os.environ.get("VERIF_DEBUG"):
    logging.getLogger("asyncio").disabled = True
    _log = logging.getLogger("a_sync")
    _log.setLevel(logging.DEBUG)
    _log.propagate = False

    class _Sink(logging.Handler):
        def emit(self, record):
            try:
                record.getMessage()
            except Exception:  # a real handler would report it and go on
                pass

    _log.addHandler(_Sink())
    logging.raiseExceptions = False
else:
    logging.disable(logging.CRITICAL)

from vlib import core  # noqa: E402


def finish(out, result):
    tmp = out + ".tmp"
    with open(tmp, "w") as f:
        json.dump(result, f)
    os.replace(tmp, out)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)  # no interpreter teardown of the code under test


def load(name):
    mod = importlib.import_module("checks." + name)
    return mod, {s.name: s for s in mod.SUBS}


def main():
    mode = sys.argv[1]
    core.install_timers()
    # unraisable errors in destructors/callbacks would only add noise
    sys.unraisablehook = lambda *a: None
    sys.setrecursionlimit(3000)
    if mode == "search":
        name, sub, seed, n, out, journal = sys.argv[2:8]
        mod, subs = load(name)
        jf = open(journal, "r+b" if os.path.exists(journal) else "w+b", buffering=0)

        def write(text):
            jf.seek(0)
            jf.truncate()
            jf.write(text.encode())

        finish(out, core.drive(subs[sub], int(seed), int(n), write))
    else:
        name, path, out = sys.argv[2:5]
        mod, subs = load(name)
        with open(path) as f:
            rep = json.load(f)
        msg = core.run_one(subs[rep["sub"]], rep["spec"])
        finish(out, {"fail": msg})


if __name__ == "__main__":
    try:
        main()
    except BaseException:
        import traceback

        traceback.print_exc()
        sys.stderr.flush()
        os._exit(3)
