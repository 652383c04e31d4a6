"""Run harnesses on concrete inputs against the unpatched code.

python3-vt -m vf.replay PROP TIER IN.json OUT.json      (used by vf.run)
python3-vt -m vf.replay FILE.json                        (one stored counterexample)
"""
import importlib
import json
import os
import signal
import sys
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)


class Timeout(BaseException):
    pass


def alarm(*_):
    raise Timeout()


def one(hs, task):
    from vf import engine, stubs
    from vf.run import json_safe
    h = hs[task["harness"]]
    ctx = engine.ConcCtx(task["model"])
    ctx.real_floats = h.real_floats
    engine.CUR = ctx
    stubs.reset_world()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(15)
    try:
        h.fn(ctx, **h.params)
        return {"status": "ok", "obs": json_safe(ctx.obs)}
    except engine.PropertyFailed:
        return {"status": "failed", "msgs": ctx.failed}
    except engine.PathInfeasible:
        return {"status": "infeasible"}
    except (Timeout, engine.NonTermination):
        return {"status": "nonterm"}
    except Exception as e:
        where, txt = engine.exc_origin(e)
        return {"status": ("raise:" if where == "repo" else "harness-error:") + type(e).__name__,
                "text": traceback.format_exc()[-1500:]}
    finally:
        signal.alarm(0)


def main():
    from vf import instrument
    import vf.run
    instrument.install(False)
    if len(sys.argv) == 2:
        with open(sys.argv[1]) as f:
            task = json.load(f)
        prop, tier = task["property"], task["tier"]
        mod = importlib.import_module("harness." + prop)
        hs = {h.name: h for h in vf.run.expand(mod, tier)}
        r = one(hs, task)
        print(json.dumps(r, indent=1))
        return 0 if r["status"] == "ok" else 1
    prop, tier, fi, fo = sys.argv[1:]
    mod = importlib.import_module("harness." + prop)
    hs = {h.name: h for h in vf.run.expand(mod, tier)}
    with open(fi) as f:
        tasks = json.load(f)
    out = []
    for t in tasks:
        out.append(one(hs, t))
    with open(fo, "w") as f:
        json.dump(out, f)
    return 0


if __name__ == "__main__":
    os.environ["PYTHONHASHSEED"] = "0"
    sys.exit(main())
