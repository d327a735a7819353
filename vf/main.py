import importlib
import os
import sys
import traceback
import warnings


def main():
    pid = sys.argv[1]
    src = os.environ.get("VERIF_SRC", "/repo/src")      # another tree only when the machinery itself is tested
    sys.path.insert(0, src)
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    from vf.core import Check
    chk = Check(pid)
    try:
        mod = importlib.import_module(f"checks.{pid.lower()}")
        mod.run(chk)
    except BaseException as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if f.filename.startswith(src + "/")]
        last_own = max([i for i, f in enumerate(tb) if "/checks/" in f.filename or "/vf/" in f.filename], default=-1)
        if inside and any(i > last_own for i, f in enumerate(tb) if f.filename.startswith(src + "/")) \
                and not isinstance(e, (ImportError, KeyboardInterrupt, SystemExit)):
            chk.crash("the code under test raised outside a recorded event", e)
        elif chk.violations:
            traceback.print_exc()
        else:
            traceback.print_exc()
            sys.stdout.flush()
            os._exit(2)
    rc = chk.finish()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
