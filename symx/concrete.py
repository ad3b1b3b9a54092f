"""Replay server: runs harnesses on the ordinary refellips from /repo.

reads JSON lines {"prop", "case", "tier", "env"}; answers one JSON line each.
"""
import importlib
import json
import os
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup():
    repo = os.environ.get("REFELLIPS_REPO", "/repo")
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    sys.path.insert(0, repo)
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    warnings.simplefilter("ignore")
    os.environ.setdefault("MPLBACKEND", "Agg")


def run(prop, case, tier, env):
    import numpy as np
    from symx.ctx import ConcCtx, Abort

    mod = importlib.import_module("harness." + prop.lower())
    cs = {k["name"]: k for k in mod.cases(tier)}
    if case not in cs:
        return {"error": "no case"}
    c = ConcCtx(env)
    out = {}
    try:
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            cs[case]["fn"](c)
    except Abort as e:
        out["abort"] = str(e)
    except Exception as e:
        c.fails.append(("raises %s" % type(e).__name__, str(e)[:300]))
        out["exc"] = traceback.format_exc(limit=-6)
    finally:
        c.close()
    out["fails"] = c.fails[:10] if "abort" not in out else []
    out["vals"] = c.vals
    out["reached"] = c.reached
    return out


def main():
    setup()
    real = os.dup(1)
    os.dup2(2, 1)
    w = os.fdopen(real, "w")
    for line in sys.stdin:
        q = json.loads(line)
        try:
            r = run(q["prop"], q["case"], q["tier"], q["env"])
        except BaseException as e:
            r = {"error": "%s: %s" % (type(e).__name__, e), "tb": traceback.format_exc(limit=-6)}
        w.write(json.dumps(r) + "\n")
        w.flush()


if __name__ == "__main__":
    main()
