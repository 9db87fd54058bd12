"""Runs cases of other checks in a process of its own, see C32. Reads a JSON file, writes JSON."""
import json
import os
import sys
import time
import traceback

with open(sys.argv[1]) as fh:
    spec = json.load(fh)

from rv import core  # noqa: E402

core.setup_env("jax")
if spec["first"]:
    exec(spec["first"], {})
import groco  # noqa: E402
import groco.groups  # noqa: E402
import groco.layers  # noqa: E402
import groco.utils  # noqa: E402
import keras  # noqa: E402

from rv.registry import PROPS  # noqa: E402

core.MONITOR.install()
root = os.path.realpath(core.REPO) + os.sep + "groco" + os.sep


def in_groco(err):
    return any(os.path.realpath(f.filename).startswith(root) for f in traceback.extract_tb(err.__traceback__))


t0 = time.time()
out = {"counts": {}, "violations": [], "done": 0, "skipped": 0, "file": groco.__file__}
for prop, case in spec["cases"]:
    if time.time() - t0 > spec["seconds"]:
        out["skipped"] += 1
        continue
    ctx = core.Ctx(prop, case)
    try:
        PROPS[prop].run(case, ctx)
    except core.RepoFailure as err:
        ctx.fail(f"failed where it has to work: {err}")
    except Exception as err:
        if not in_groco(err):
            raise
        ctx.fail(f"failed where it has to work: {type(err).__name__}: {err}")
    for k, v in ctx.counts.items():
        out["counts"][k] = out["counts"].get(k, 0) + v
    out["violations"] += [(prop, v["msg"]) for v in ctx.violations[:2]]
    out["done"] += 1

if spec.get("double"):
    # in double precision, where the process has it
    import numpy as np
    from rv import build as B
    from rv import oracle as o
    from rv.props.interface import in_shape, make, output, reference

    for c in spec["double"]:
        ctx = core.Ctx("C32", c)
        c = dict(c, dtype="float64")
        rng = core.rng_for(c["seed"])
        layer = make(c)
        x = core.ints(rng, in_shape(c), -(2**30), 2**30, "float64") / 2**31
        layer.build(B.layout(x, c).shape)
        ws = ()
        if c["kind"] == "conv":
            kernel = core.ints(rng, B.kernel_shape(c), -3, 3, "float64")
            bias = core.ints(rng, (c["filters"],), -(2**30), 2**30, "float64") / 2**31 if c["use_bias"] else None
            layer.set_weights([w for w in (kernel, bias) if w is not None])
            ws = (kernel, bias)
        y = layer(B.layout(x, c))
        ctx.check(str(y.dtype) == "float64", f"dtype {y.dtype} of a double precision layer: {core.brief(c)}")
        ctx.eq(output(y, c), reference(c, x, ws), f"double precision {core.brief(c)}", 1e-12)
        for k, v in ctx.counts.items():
            out["counts"][k] = out["counts"].get(k, 0) + v
        out["violations"] += [("double", v["msg"]) for v in ctx.violations[:2]]
        out["counts"]["double"] = out["counts"].get("double", 0) + 1

with open(sys.argv[2], "w") as fh:
    json.dump(out, fh, default=str)
