"""Runs harnesses with concrete values on the unmodified code of /repo.  Usage: replay.py FILE.json
FILE is {"property", "runs": [{"cfg", "values"}]}; prints one JSON line per run."""
import json
import os
import signal
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)

from symx.ctx import ConcCtx, HarnessAbort, plain       # noqa: E402


class Timeout(BaseException):
    pass


def run_one(mod, cfg, values, exact, seconds):
    def alarm(*_):
        raise Timeout()
    ctx = ConcCtx(values, exact)
    ctx.cfg = cfg
    out = {"status": "ok"}
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(seconds)
    try:
        mod.run(ctx, cfg)
    except HarnessAbort as a:
        out["status"] = "abort: %s" % a
    except Timeout:
        out["status"] = "hang"
        ctx.failed.append("does not terminate (no result after %d s)" % seconds)
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        out["status"] = "crash"
        out["trace"] = traceback.format_exc()[-1500:]
        ctx.failed.append("crashes with %s: %s (in %s:%s)" % (type(ex).__name__, str(ex)[:200], tb[-1].filename.rsplit("/", 1)[-1], tb[-1].name))
    finally:
        signal.alarm(0)
    out["failed"] = ctx.failed
    out["observed"] = [[n, plain(v)] for n, v in ctx.observed]
    return out


def main():
    import importlib
    import io
    spec = json.load(open(sys.argv[1]))
    mod = importlib.import_module("harness." + spec["property"].lower())
    sys.path.append(os.environ.get("SYMX_REPO", "/repo"))
    for r in spec["runs"]:
        stdout, sys.stdout = sys.stdout, io.StringIO()
        try:
            out = run_one(mod, r["cfg"], r["values"], r.get("exact", False), r.get("seconds", 20))
        finally:
            sys.stdout = stdout
        print(json.dumps(out), flush=True)
    if spec.get("verbose"):
        print(json.dumps(spec, indent=1))


if __name__ == "__main__":
    main()
