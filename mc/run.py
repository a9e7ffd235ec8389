import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ASYNCZ_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path[:0] = [ROOT, REPO]
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.pop("ASYNCZ_STORE_ENCRYPTION_KEY", None)
os.environ["TZ"] = "UTC"
os.environ["PYTHONWARNINGS"] = "ignore"
import logging
import warnings

warnings.simplefilter("ignore")
logging.raiseExceptions = False
logging.disable(logging.CRITICAL)

if __name__ == "__main__":
    from mc import core

    try:
        rc = core.main(sys.argv[1:])
    except BaseException:
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
