"""C34: layers whose first uses fail."""
import numpy as np

from rv import build as B
from rv import oracle as o
from rv.core import ints, pick, rng_for
from rv.props.convs import sig
from rv.props.interface import Boom, in_shape, make, mixed_cases, output, reference, tolerance
from rv.props.pools import pool_sig


class C34:
    """
    Misfits are drawn at the first uses of a layer, and must be refused; then the signal that fits is used,
    for which the layer has to do what it does without them.
    """

    id = "C34"
    minima = {"evaluations": 300, "refused": 500, "misfit_order": 80, "misfit_rank": 60, "misfit_size": 60,
              "misfit_lift": 15, "misfit_fault": 20, "misfit_channels": 5, "values": 10000}
    rule = "distinct (layer configuration, misfits at first use, ways of first use) observed"

    @staticmethod
    def gen(seed, tier):
        rng = rng_for("C34", seed)
        cases = [c for c in mixed_cases(rng, 520 if tier == "quick" else 5200) if c["kind"] != "global"]
        for c in cases:
            conv = c["kind"] == "conv"
            c["misfits"] = []
            for _ in range(int(pick(rng, [1, 2, 3], [0.5, 0.3, 0.2]))):
                kinds = ["order", "order", "rank", "size", "size"]
                kinds += ["fault", "channels"] if conv else ["lift", "lift"]
                ways = ["call", "call", "build", "symbolic", "model"]
                c["misfits"].append([pick(rng, kinds), pick(rng, ways), int(rng.integers(2**31))])
        return cases

    @staticmethod
    def other_size(c, rng, built):
        """A size that the layer has to refuse."""
        d = c["dims"]
        equal = len(set(c["size"])) == 1
        for _ in range(60):
            size = [int(v) for v in rng.integers(1, 12 if d < 3 else 6, d)]
            if equal:
                size = [size[0]] * d
            try:
                if c["kind"] == "conv":
                    out = B.out_sizes(dict(c, size=size))
                    if min(out) < 0 and not built and not c["transpose"]:
                        return size
                else:
                    ps = o.tup(c["pool_size"], d)
                    s = o.tup(c["strides"], d) if c["strides"] is not None else ps
                    o.spec_padding(size, ps, s, c["padding"] or "valid_equiv", c["allow"])
            except o.Refuse:
                return size
        return None

    @staticmethod
    def misfit(c, kind, rng, built):
        """channels_last shape that doesn't fit, if there is one"""
        d = c["dims"]
        shape = list(in_shape(c))
        n = B.domain_order(c) if c["kind"] == "conv" else o.order(c["group"])
        if kind in ("order", "fault"):
            wrong = int(pick(rng, [v for v in (1, 2, 3, n - 1, n + 1, 2 * n, n // 2) if v > 0 and v != n]))
            if c.get("lift"):
                shape.insert(d + 1, wrong)
            else:
                shape[d + 1] = wrong
            if rng.random() < 0.4:
                shape[-1] = c.get("groups", 1) * int(rng.integers(1, 4))
        elif kind == "rank":
            grid = shape[: d + 1] + shape[-1:]
            shape = grid[:-2] + grid[-1:] if rng.random() < 0.4 else grid[:1] + [2] * int(rng.integers(2, 4)) + grid[1:]
        elif kind == "lift":
            del shape[d + 1]
        elif kind == "size":
            size = C34.other_size(c, rng, built)
            if size is None:
                return None
            shape[1 : d + 1] = size
        elif kind == "channels":
            if c.get("groups", 1) == 1 or c["transpose"] or c["lift"]:
                return None  # after channels that don't divide, the underlying Keras layers refuse all others
            shape[-1] = c["groups"] * int(rng.integers(0, 3)) + int(rng.integers(1, c["groups"]))
        return tuple(shape)

    @staticmethod
    def run(c, ctx):
        import keras

        rng = rng_for(c["seed"])
        armed = []
        if c["kind"] == "conv":
            base = keras.activations.get(c["activation"])

            def activation(y):
                if armed:
                    raise Boom
                return base(y)

            layer = ctx.call(make, dict(c, activation=activation))
        else:
            layer = ctx.call(make, c)
        config = repr(ctx.call(layer.get_config))
        tried = []
        for kind, way, seed in c["misfits"]:
            rng2 = rng_for(seed)
            if kind == "fault":  # fits, but the call fails on the way
                x = B.layout(ints(rng2, in_shape(c), -3, 3), c)
                armed.append(1)
                refused, res = ctx.refused(layer, x, exc=Boom)
                armed.clear()
            else:
                shape = C34.misfit(c, kind, rng2, layer.built)
                if shape is None:
                    continue
                x = B.layout(ints(rng2, shape, -3, 3), c)
                if way == "build" and not layer.built:  # which nothing builds twice
                    refused, res = ctx.refused(layer.build, x.shape)
                    if not refused:  # some things show at the call only
                        refused, res = ctx.refused(layer, x)
                        way = "build and call"
                elif way == "symbolic":
                    refused, res = ctx.refused(layer, keras.Input(batch_shape=x.shape))
                elif way == "model":
                    refused, res = ctx.refused(lambda: keras.Sequential([keras.Input(batch_shape=x.shape), layer]))
                else:
                    refused, res = ctx.refused(layer, x)
            tried.append(f"{kind} {tuple(x.shape)} by {way}")
            ctx.check(refused, f"{tried[-1]} is accepted")
            ctx.count("refused", int(refused))
            ctx.count(f"misfit_{kind}")
            if not refused:
                return
        if not tried:
            return
        after = f"after the failures: {'; '.join(tried)}"
        x = B.values(rng, in_shape(c), c, -9, 9)
        xl = B.layout(x, c)
        y = ctx.call(layer, xl)
        ws = ()
        if c["kind"] == "conv":
            n = int(np.prod(B.kernel_shape(c))) + (c["filters"] if c["use_bias"] else 0)
            ctx.check(layer.count_params() == n, f"{layer.count_params()} parameters, expected {n}, {after}")
            ctx.check([tuple(w.shape) for w in layer.weights][:1] == [tuple(B.kernel_shape(c))], f"kernel shape {after}")
            ws = B.set_weights(layer, c, rng)
            y = ctx.call(layer, xl)
            ctx.check(tuple(ctx.call(layer.compute_output_shape, xl.shape)) == tuple(y.shape), f"predicted shape {after}")
            sig(c, ctx)
        else:
            pool_sig(c, ctx)
        ctx.eq(output(y, c), reference(c, x, ws), f"result {after}", tolerance(c))
        ctx.check(repr(ctx.call(layer.get_config)) == config, f"configuration {after}")
        ctx.sig(*[m[:2] for m in c["misfits"]])
        ctx.count("evaluations")
