"""Process set-up for the symbolic side: instrumented import of /repo and of the harnesses."""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SITE = "/opt/venv/lib/python3.12/site-packages"


def boot():
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(20000)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    if SITE not in sys.path:
        sys.path.append(SITE)
    from . import instr, files
    files.install()
    instr.install({"aas_test_engines": REPO, "harness": VERIF})


def boot_plain():
    sys.dont_write_bytecode = True
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
