"""One worker process of a check, see run.py."""
import json
import os
import random
import sys
import time
import traceback

prop, tier, seed, shard, nshards, out_path, cap = sys.argv[1:8]
replay = sys.argv[8] if len(sys.argv) > 8 else None
shard, nshards, cap = int(shard), int(nshards), float(cap)
t0 = time.time()

from rv import core  # noqa: E402
from rv.registry import PROPS  # noqa: E402

P = PROPS[prop]
core.setup_env(getattr(P, "backend", "jax"))


def finish(out):
    out.flush()
    os.fsync(out.fileno())


with open(out_path, "w") as out:

    def emit(r):
        out.write(json.dumps(r, default=str) + "\n")

    cases = [json.load(open(replay))["case"]] if replay else P.gen(seed, tier)
    emit({"kind": "meta", "total": len(cases), "rule": P.rule, "minima": P.minima})
    try:
        import groco

        if not os.path.realpath(groco.__file__).startswith(os.path.realpath(core.REPO) + os.sep):
            raise RuntimeError(f"groco is {groco.__file__}")
        import groco.layers, groco.groups, groco.utils  # noqa
    except Exception:
        # the code under test cannot even be imported: every property is broken
        emit(
            {
                "kind": "case", "seconds": 0, "counts": {}, "sigs": [], "layers": {}, "case": {"import": "groco"},
                "violations": [{"msg": "importing groco failed: " + traceback.format_exc()[-400:], "mech": ""}],
            }
        )
        finish(out)
        sys.exit(0)
    import keras

    core.MONITOR.install()
    # cases of a kind are at regular distances, spread them over the workers
    order = list(range(len(cases)))
    random.Random(0).shuffle(order)
    for i in sorted(order[shard::nshards]):
        if time.time() - t0 > cap:
            emit({"kind": "error", "msg": f"time cap reached at case {i}"})
            break
        case = cases[i]
        ctx = core.Ctx(prop, case)
        began = time.time()
        core.MONITOR.drain()
        if not __debug__:
            ctx.count("without_asserts")
        try:
            P.run(case, ctx)
        except core.RepoFailure as err:
            ctx.count("evaluations")
            ctx.fail(f"failed where it has to work: {err}", "")
        except Exception as err:
            frames = traceback.extract_tb(err.__traceback__)
            root = os.path.realpath(core.REPO) + os.sep + "groco" + os.sep
            if any(os.path.realpath(f.filename).startswith(root) for f in frames):
                # it was the code under test that could not do what it was asked to
                ctx.count("evaluations")
                ctx.fail(f"failed where it has to work: {type(err).__name__}: {err}"[:500])
            else:
                emit({"kind": "error", "msg": f"harness error in {case}: {traceback.format_exc()}"})
                continue
        layers = {}
        for ev in core.MONITOR.drain():
            k = ev["layer"] + ("!" if "error" in ev else "")
            layers[k] = layers.get(k, 0) + 1
        rec = {
            "kind": "case",
            "optimised": not __debug__,
            "seconds": round(time.time() - began, 2),
            "counts": ctx.counts,
            "sigs": sorted(ctx.sigs),
            "violations": ctx.violations[:5],
            "layers": layers,
        }
        if ctx.violations:
            rec["case"] = case
        else:
            rec["sample"] = {"case": core.brief(case), "observed": ctx.counts}
        emit(rec)
        if i % 10 == 0:
            out.flush()
    finish(out)
