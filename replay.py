#!/opt/venv/bin/python
"""Replays recorded inputs on the unmodified code of /repo (no instrumentation, no solver).
  replay.py FILE            exit 1 and a REPRODUCED line if the recorded violation shows, else exit 0
  replay.py --batch FILE    one JSON verdict per recorded item on stdout"""
import sys
import os
import json
import time
import signal
import importlib

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from symx.boot import boot_plain  # noqa
boot_plain()
sys.setrecursionlimit(3000)
from symx.api import Concrete, Rejected, Failed  # noqa


class Hang(BaseException):
    pass


def run_item(item, limit):
    def on_alarm(*a):
        raise Hang()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    S = Concrete(item["inputs"])
    try:
        mod = importlib.import_module(item["module"])
        getattr(mod, item["fn"])(S, **item["kwargs"])
        r = {"verdict": "held"}
    except Rejected as e:
        r = {"verdict": "rejected", "why": str(e)}
    except Failed as e:
        r = {"verdict": "failed", "label": e.label, "detail": str(e.detail)[:2000]}
    except Hang:
        r = {"verdict": "failed", "label": "does not terminate", "detail": f"no result after {limit} s"}
    except BaseException as e:
        import traceback
        r = {"verdict": "failed", "label": f"exception {type(e).__name__}", "detail": traceback.format_exc()[-2500:]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    r["covered"] = S.covered
    r["requires"] = S.n_require
    r["known"] = S.known_seen
    return r


def main():
    batch = "--batch" in sys.argv
    path = [a for a in sys.argv[1:] if not a.startswith("--")][0]
    data = json.load(open(path))
    if not batch:
        r = run_item(data, 30)
        if r["verdict"] == "failed":
            print(f"REPRODUCED property={data.get('property')} case={data['fn']}{data['kwargs']}: {r['label']}\n{r['detail']}")
            print("inputs:", json.dumps(data["inputs"], ensure_ascii=True))
            sys.exit(1)
        print("NOT-REPRODUCED:", r)
        sys.exit(0)
    real = os.dup(1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    for m in sorted({i["module"] for i in data}):
        try:
            importlib.import_module(m)
        except Exception:
            pass
    limit = 30
    for i, item in enumerate(data):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                r = run_item(item, limit)
                os.write(wr, json.dumps(r).encode()[:60000])
            finally:
                os._exit(0)
        os.close(wr)
        buf = b""
        while True:
            b = os.read(rd, 65536)
            if not b:
                break
            buf += b
        os.close(rd)
        os.waitpid(pid, 0)
        os.write(real, (json.dumps({"i": i, "r": json.loads(buf) if buf else {"verdict": "crash"}}) + "\n").encode())


if __name__ == "__main__":
    main()
