"""C21-C24, C29: training, composed networks, serialisation, dtypes, execution modes."""
import copy
import json
import os

import numpy as np

from rv import build as B
from rv import oracle as o
from rv.core import ints, pick, rng_for
from rv.props.convs import act_input, act_output, check_equivariance, observe, sig, symmetry
from rv.props.interface import (
    C19, global_config, in_shape, make, mixed_cases, output, prepare, reference, tolerance,
)


def scaled(a, ref):
    s = float(np.max(np.abs(ref))) if np.size(ref) else 1.0
    return np.asarray(a, dtype=float) / (s or 1.0)


class C21:
    id = "C21"
    minima = {"evaluations": 600, "gradients": 100, "trained": 24, "regularized": 20,
              "max_pooling_gradients": 12, "average_pooling_gradients": 12, "global_pooling_gradients": 8}
    rule = "distinct layer configurations whose gradients / training steps were observed"

    @staticmethod
    def gen(seed, tier):
        rng = rng_for("C21", seed)
        k = 1 if tier == "quick" else 10
        cases = []
        for tr in (False, True):
            for i, c in enumerate(B.conv_round(rng, 75 * k, transpose=tr, activation=None, groups=1)
                                  + (B.conv_round(rng, 62, activation=None)[:20] if not tr else [])):
                c["what"] = "fit" if i % 4 == 0 and c["dims"] == 2 else "grad"
                cases.append(c)
        for c in B.pool_round(rng, 44 * k) + [global_config(rng) for _ in range(20 * k)]:
            c["what"] = "pool_grad"
            cases.append(c)
        return cases

    @staticmethod
    def run(c, ctx):
        import jax
        import jax.numpy as jnp
        import keras

        rng = rng_for(c["seed"])
        layer, x, ws = prepare(c, ctx, rng)
        d = c["dims"]
        xl = B.layout(x, c)
        y0 = output(ctx.call(layer, xl), c)
        w = ints(rng, y0.shape, -3, 3)
        wl = B.layout(w, c)
        if c["what"] == "pool_grad":
            return C21.pool_gradient(c, ctx, layer, x, y0, rng)
        kernel, bias = ws
        ctx.eq(y0, reference(c, x, ws), "before training", tolerance(c))
        n_par = kernel.size + (0 if bias is None else bias.size)
        ctx.check(layer.count_params() == n_par, f"{layer.count_params()} parameters, expected {n_par}")
        want_shapes = [kernel.shape] + ([] if bias is None else [bias.shape])
        got_shapes = [tuple(v.shape) for v in layer.trainable_weights]
        ctx.check(got_shapes == want_shapes, f"trainable weights {got_shapes}, expected {want_shapes}")
        ctx.check(len(layer.non_trainable_weights) == 0, "there are non-trainable weights")
        params = [jnp.asarray(v.value) for v in layer.trainable_variables]

        def loss(p, z):
            y, _ = layer.stateless_call(p, [], z)
            return jnp.sum(wl * y)

        gp, gx = ctx.call(jax.grad(loss, argnums=(0, 1)), params, jnp.asarray(xl))
        gk = np.asarray(gp[0], dtype=float)
        if not ctx.check(gk.shape == kernel.shape, f"kernel gradient has shape {gk.shape}"):
            return
        gx = o.to_last(np.asarray(gx, dtype=float), c["data_format"], d, True)
        for _ in range(3):
            dk = ints(rng, kernel.shape, -3, 3)
            want = float((w * o.conv(x, dk, None, c)).sum())
            norm = max(1.0, float(np.abs(gk).sum()))
            ctx.eq(np.sum(gk * dk) / norm, want / norm, "directional derivative in the kernel", 1e-5)
            dx = ints(rng, x.shape, -3, 3)
            want = float((w * o.conv(dx, kernel, None, c)).sum())
            norm = max(1.0, float(np.abs(gx).sum()))
            ctx.eq(np.sum(gx * dx) / norm, want / norm, "directional derivative in the input", 1e-5)
        # a single kernel entry, so nothing can cancel
        for _ in range(2):
            e = tuple(int(rng.integers(n)) for n in kernel.shape)
            dk = np.zeros(kernel.shape)
            dk[e] = 1
            want = float((w * o.conv(x, dk, None, c)).sum())
            ctx.eq(gk[e], want, f"derivative in kernel entry {e}", 1e-5)
        if bias is not None:
            ctx.eq(np.asarray(gp[1]), w.reshape(-1, w.shape[-1]).sum(0), "derivative in the bias", 1e-5)
        ctx.count("gradients")
        # forward mode, and regularization of the weights themselves rather than of their copies
        dk = [jnp.asarray(ints(rng, v.shape, -2, 2)) for v in params]
        _, tangent = ctx.call(jax.jvp, lambda p: loss(p, jnp.asarray(xl)), (params,), (dk,))
        want = sum(float(np.sum(np.asarray(g, dtype=float) * np.asarray(v))) for g, v in zip(gp, dk))
        norm = max(1.0, sum(float(np.abs(np.asarray(g)).sum()) for g in gp))
        ctx.eq(np.asarray(tangent) / norm, want / norm, "forward vs reverse mode", 1e-5)
        if c["seed"] % 3 == 0:
            reg = ctx.call(type(layer).from_config, {
                **layer.get_config(), "kernel_regularizer": "l2",
                "bias_regularizer": keras.regularizers.L1(0.25) if bias is not None else None})
            ctx.call(reg, xl)
            reg.set_weights([v for v in (kernel, bias) if v is not None])
            ctx.call(reg, xl)
            want = 0.01 * float((kernel.astype(float) ** 2).sum())
            want += 0.25 * float(np.abs(bias).sum()) if bias is not None else 0.0
            ctx.eq(float(sum(reg.losses)), want, "regularization loss", 1e-5)
            ctx.count("regularized")
        if c["what"] != "fit":
            return
        ctx.count("trained")
        # train through the high level api
        layer2 = ctx.call(B.make_conv, dict(c, style=4))
        model = keras.Sequential([keras.Input(xl.shape[1:]), layer2])
        layer2.set_weights([v for v in (kernel, bias) if v is not None])
        ctx.eq(output(ctx.call(layer2, xl), c), y0, "eager call before training", tolerance(c))
        lr = 2.0**-7
        model.compile(optimizer=keras.optimizers.SGD(lr), loss=lambda t, p: keras.ops.sum(t * p))
        ctx.call(model.train_on_batch, xl, wl)
        after = [np.asarray(v) for v in layer2.get_weights()]
        ctx.eq(after[0], kernel - lr * gk, "kernel after a step of SGD", 1e-5)
        if bias is not None:
            ctx.eq(after[1], bias - lr * np.asarray(gp[1]), "bias after a step of SGD", 1e-5)
        k0 = rng.normal(size=kernel.shape).astype("float32") * 0.1
        layer2.set_weights([k0] + ([] if bias is None else [np.zeros(bias.shape, "float32")]))
        model.compile(optimizer=keras.optimizers.Adam(0.03), loss="mse")
        xb = np.concatenate([xl] * 4, 0) / 9
        yb = rng.normal(size=(xb.shape[0],) + wl.shape[1:]).astype("float32")
        ctx.call(model.fit, xb, yb, epochs=2, batch_size=max(1, xb.shape[0] // 2), verbose=0)
        after = [np.asarray(v) for v in layer2.get_weights()]
        # where windows see nothing but padding there is nothing to learn
        ctx.check(not np.array_equal(after[0], k0) or not np.any(gk), "training does not change the kernel")
        ctx.check(layer2.count_params() == n_par, f"{layer2.count_params()} parameters after training")
        xs = x / 9
        y = output(ctx.call(layer2, B.layout(xs, c)), c)
        ctx.eq(y, o.conv(xs, after[0], after[1] if bias is not None else None, c), "after training", 2e-5)
        check_equivariance(c, ctx, layer2, xs.astype("float32"), y, rng, limit=4, tol=2e-5,
                           what="trained convolution")
        p = output(ctx.call(model.predict, B.layout(xs, c), verbose=0), c)
        ctx.eq(p, y, "predict after training", 2e-5)

    @staticmethod
    def pool_gradient(c, ctx, layer, x, y0, rng):
        """The gradient of pooling against differences of the reference, which are exactly linear here."""
        import jax
        import jax.numpy as jnp

        kind = c["pool"] if c["kind"] == "global" else c["kind"]
        grouped = not (c["kind"] == "global" and not c.get("keepdims"))
        d = c["dims"]
        w = ints(rng, y0.shape, -3, 3)
        wl = B.layout(w, c) if grouped else w
        if kind == "max":
            # all apart from each other and from the zeros of paddings, by more than the changes made
            x = (rng.permutation(x.size).reshape(x.shape) - x.size // 2) * 16 + 8
            x = x.astype("float32")
        base = reference(c, x, ()).astype(float)
        y, pull = ctx.call(jax.vjp, lambda z: layer(z), jnp.asarray(B.layout(x, c)))
        ctx.eq(output(y, c), base, "pooling under differentiation", tolerance(c))
        (gx,) = ctx.call(pull, jnp.asarray(wl, dtype="float32"))
        gx = o.to_last(np.asarray(gx, dtype=float), c["data_format"], d, True)
        norm = max(1.0, float(np.abs(gx).sum()))
        for _ in range(3):
            dx = ints(rng, x.shape, -3, 3)
            want = float((w * (reference(c, x + dx, ()).astype(float) - base)).sum())
            ctx.eq(np.sum(gx * dx) / norm, want / norm, f"directional derivative of {kind} pooling", 1e-5)
        for _ in range(2):
            e = tuple(int(rng.integers(n)) for n in x.shape)
            dx = np.zeros(x.shape, "float32")
            dx[e] = 4
            want = float((w * (reference(c, x + dx, ()).astype(float) - base)).sum()) / 4
            ctx.eq(gx[e] / norm, want / norm, f"derivative of {kind} pooling in entry {e}", 1e-5)
        _, tangent = ctx.call(jax.jvp, lambda z: layer(z), (jnp.asarray(B.layout(x, c)),),
                              (jnp.asarray(B.layout(dx, c)),))
        want = reference(c, x + dx, ()).astype(float) - base
        ctx.eq(output(tangent, c), want, f"forward mode of {kind} pooling", 1e-5)
        ctx.count("gradients")
        ctx.count(f"{kind}_pooling_gradients")
        if c["kind"] == "global":
            ctx.count("global_pooling_gradients")


class C22:
    id = "C22"
    minima = {"networks": 50, "transformations": 200, "layers": 200, "nontrivial": 40, "residual": 4, "shared": 4}
    rule = "distinct networks (sequences of layer configurations) observed under group elements"

    @staticmethod
    def gen(seed, tier):
        rng = rng_for("C22", seed)
        n = 88 if tier == "quick" else 900
        cases = []
        tops = ["P4M", "P4M", "P4", "P2MM", "Oh", "O", "D4h", "D4", "PMh", "P2", "PMw"]
        while len(cases) < n:
            g = tops[len(cases) % len(tops)]
            try:
                cases.append(C22.network(rng, g))
            except RuntimeError:
                continue
        return cases

    @staticmethod
    def network(rng, top):
        d = o.DIM[top]
        df = pick(rng, ["channels_last", "channels_first"], [0.75, 0.25])
        cur, smallest = top, top
        size = list(o.tup(B.classes_value(rng, o.mixed_axes(top), [7, 8, 9, 10, 11, 12] if d == 2 else [4, 5, 6]), d))
        cin0 = cin = int(rng.integers(1, 4))
        layers = []
        depth = int(rng.integers(2, 6 if d == 2 else 4))
        start = list(size)
        for i in range(depth):
            lift = i == 0
            sub = cur
            if rng.random() < 0.35:
                sub = pick(rng, o.SUBGROUPS[cur])
            r = rng.random()
            fixed = {"size": list(size), "data_format": df, "batch": 2, "cin": cin, "groups": 1}
            before = list(size)
            if not lift and rng.random() < 0.25:
                # keeps the shape: its output can be added to its input, or be sent through it again
                c = B.conv_config(rng, d, cur, cur, False, filters=cin, strides=1, dilation=1, padding="same_equiv",
                                  kernel_size=int(pick(rng, [1, 3])), transpose=bool(rng.random() < 0.3), **fixed)
                sub = cur
                size = B.out_sizes(c)
                if size == before:
                    c[pick(rng, ["residual", "again"])] = True
            elif lift or r < 0.45:
                c = B.conv_config(rng, d, cur, sub, lift, **fixed)
                if (c["subgroup"] or cur) != sub:
                    c["subgroup"] = sub
                size = B.out_sizes(c)
                cin = c["filters"]
            elif r < 0.6:
                c = B.conv_config(rng, d, cur, cur, False, transpose=True, **fixed)
                sub = cur
                size = B.out_sizes(c)
                cin = c["filters"]
            else:
                del fixed["groups"]
                c = B.pool_config(rng, d, cur, sub, pick(rng, ["max", "average"]), **fixed)
                ps = o.tup(c["pool_size"], d)
                s = o.tup(c["strides"], d) if c["strides"] is not None else ps
                pads = o.spec_padding(size, ps, s, c["padding"] or "valid_equiv")
                size = [(n + p[0] + p[1] - k) // st + 1 for n, p, k, st in zip(size, pads, ps, s)]
            if max(size) > 24:
                raise RuntimeError("too big")
            layers.append(c)
            cur = sub
            if rng.random() < 0.35:
                layers.append({"kind": pick(rng, ["bn", "act", "dropout"])})
        smallest = cur
        for c in layers:
            if "group" in c:
                names = [c["group"], c.get("subgroup") or c["group"]]
                for nm in names:
                    if o.order(nm) < o.order(smallest):
                        smallest = nm
        end = pick(rng, ["group", "global_max", "global_average"])
        return {"top": top, "final": cur, "smallest": smallest, "layers": layers, "end": end, "size": start,
                "cin": cin0, "dims": d, "data_format": df, "functional": bool(rng.random() < 0.4),
                "seed": int(rng.integers(2**31))}

    @staticmethod
    def run(c, ctx):
        import keras
        import groco.layers as GL

        rng = rng_for(c["seed"])
        d, df = c["dims"], c["data_format"]
        x = rng.normal(size=(2, *c["size"], c["cin"])).astype("float32")
        xl = B.layout(x, c)

        def build():
            ls = []
            for q in c["layers"]:
                ctx.count("layers")
                if q["kind"] == "bn":
                    ls.append(keras.layers.BatchNormalization(axis=-1 if df == "channels_last" else 1))
                elif q["kind"] == "act":
                    ls.append(keras.layers.Activation("tanh"))
                elif q["kind"] == "dropout":
                    ls.append(keras.layers.Dropout(0.5))
                else:
                    lay = make(q)
                    if q.get("residual") or q.get("again"):
                        ctx.count("shared" if q.get("again") else "residual")
                        plus = keras.layers.Add()
                        inner = lay

                        def lay(h, inner=inner, plus=plus, again=bool(q.get("again"))):
                            return inner(inner(h)) if again else plus([h, inner(h)])

                    ls.append(lay)
            if c["end"] != "group":
                name = "Max" if c["end"] == "global_max" else "Average"
                ls.append(getattr(GL, f"GlobalGroup{name}Pooling{d}D")(data_format=df))
                ls.append(keras.layers.Dense(3, activation="tanh"))
            if c["functional"] or any(q.get("residual") or q.get("again") for q in c["layers"]):
                inp = keras.Input(xl.shape[1:])
                h = inp
                for lay in ls:
                    h = lay(h)
                return keras.Model(inp, h)
            return keras.Sequential([keras.Input(xl.shape[1:])] + ls)

        model = ctx.call(build)
        ctx.count("networks")
        ctx.sig(c["layers"], c["end"])
        for v in model.weights:
            if v.path.endswith(("bias", "beta", "moving_mean")):
                v.assign(rng.normal(size=v.shape) * 0.2)
            elif v.path.endswith(("gamma", "moving_variance")):
                v.assign(rng.uniform(0.5, 1.5, size=v.shape))
        y = np.asarray(ctx.call(model, xl))
        spread = float(np.std(y)) if y.size else 0.0
        ctx.count("nontrivial", int(spread > 1e-6 * max(1.0, float(np.abs(y).max(initial=0)))))
        S, T = c["smallest"], c["final"]
        els = list(range(o.order(S)))
        if len(els) > 6:
            els = [int(i) for i in rng.permutation(len(els))[:6]]
        for i in els:
            m = o.ELEMENTS[S][i]
            gx = o.act_grid(m, x, range(1, d + 1))
            use_predict = rng.random() < 0.15
            if use_predict:
                out = np.asarray(ctx.call(model.predict, B.layout(gx, c), verbose=0))
            else:
                out = np.asarray(ctx.call(model, B.layout(gx, c)))
            ctx.count("transformations")
            if c["end"] == "group":
                yy = o.to_last(y, df, d, True)
                want = o.act_group_one(T, o.INDEX[T][o.key(m)], yy, range(1, d + 1), d + 1)
                out = o.to_last(out, df, d, True)
                ctx.eq(scaled(out, y), scaled(want, y), f"network on {S} after vs before acting with {i}", 1e-4)
            else:
                ctx.eq(scaled(out, y), scaled(y, y), f"invariant network acted on with {i} of {S}", 1e-4)


class C23:
    id = "C23"
    minima = {"evaluations": 900, "saved_models": 24, "layers": 150, "copies": 20, "paddings": 120}
    rule = "distinct layer configurations sent through configuration, cloning or saving and observed after"

    @staticmethod
    def gen(seed, tier):
        rng = rng_for("C23", seed)
        k = 1 if tier == "quick" else 10
        cases = mixed_cases(rng, 160 * k) + [
            c for c in B.conv_round(rng, 62, allow=True, padding="same")[: 16 * k]
        ] + [c for c in B.pool_round(rng, 36, allow=True, padding="same")[: 12 * k]]
        for i, c in enumerate(cases):
            c["name"] = f"layer_{i}" if rng.random() < 0.6 else None
            c["save"] = i % 4 == 0
            c["dtype"] = pick(rng, [None, "float16", "mixed_float16"], [0.8, 0.1, 0.1])
            c["trainable"] = bool(rng.random() < 0.85)
            if c["kind"] == "conv" and rng.random() < 0.4:
                c["options"] = B.options(rng, c["use_bias"])
                c["activation"] = pick(rng, [c["activation"], "tanh", "leaky_relu"])
        for i in range(24 * k):
            cases.append({"kind": "padding", "n": 6, "seed": int(rng.integers(2**31))})
        return cases

    @staticmethod
    def padding(c, ctx):
        """The padding by itself, which is a layer, too."""
        import groco.layers as GL

        rng = rng_for(c["seed"])
        for _ in range(c["n"]):
            d = int(rng.integers(1, 4))
            per_axis = [[int(v) for v in rng.integers(1, hi, d)] for hi in (6, 4, 4)]
            kernel, strides, dilation = [v if rng.random() < 0.7 else v[0] for v in per_axis]
            if rng.random() < 0.5:
                strides = 1
            else:
                dilation = 1
            kw = dict(kernel_size=kernel, dimensions=d, strides=strides, dilation_rate=dilation,
                      padding=pick(rng, ["valid_equiv", "same_equiv", "VALID", "same"]),
                      allow_non_equivariance=bool(rng.random() < 0.3), transpose=bool(rng.random() < 0.4),
                      pooling=bool(rng.random() < 0.3), data_format=pick(rng, ["channels_last", "channels_first"]),
                      name="some_padding", dtype=pick(rng, ["float32", "float16"]))
            layer = ctx.call(GL.EquivariantPadding, **kw)
            config = ctx.call(layer.get_config)
            twin = ctx.call(GL.EquivariantPadding.from_config, json.loads(json.dumps(config)))
            ctx.check(twin.get_config() == config, f"configuration {twin.get_config()}, was {config}")
            ctx.count("paddings")
            ctx.sig("padding", kw)
            for _ in range(4):
                size = [int(v) for v in rng.integers(4, 14, d)]
                shape = (1, *size, 1) if kw["data_format"] == "channels_last" else (1, 1, *size)
                x = np.ones(shape, kw["dtype"])
                r1, a = ctx.refused(layer, x)
                r2, b = ctx.refused(twin, x)
                if ctx.check(r1 == r2, f"restored padding {'refuses' if r2 else 'accepts'} {size}, {kw}") and not r1:
                    ctx.eq(np.asarray(b), np.asarray(a), f"restored padding of {size}, {kw}")
                    ctx.check(a.dtype == b.dtype, f"dtype of the restored padding, {kw}")

    @staticmethod
    def run(c, ctx):
        import keras

        if c["kind"] == "padding":
            return C23.padding(c, ctx)
        rng = rng_for(c["seed"])
        layer, x, ws = prepare(c, ctx, rng)
        if c["kind"] == "conv" and not c["trainable"]:
            layer.trainable = False
        ctx.count("layers")
        xl = B.layout(x, c)
        y = np.asarray(ctx.call(layer, xl))
        config = ctx.call(layer.get_config)
        for k, v in (c.get("options") or {}).items():
            ctx.check(bool(config.get(k)), f"option {k}={v} is not in the configuration")
            ctx.count("options")
        try:
            text = json.dumps(config)
        except TypeError as err:
            ctx.check(False, f"configuration is not serializable: {err}")
            return
        routes = [
            ("from_config", lambda: type(layer).from_config(json.loads(text))),
            ("serialize", lambda: keras.layers.deserialize(keras.layers.serialize(layer))),
        ]
        for what, route in routes:
            twin = ctx.call(route)
            ctx.check(type(twin) is type(layer), f"{what} gives a {type(twin).__name__}")
            ctx.check(
                json.loads(json.dumps(twin.get_config())) == json.loads(text),
                f"{what}: configuration changed to {twin.get_config()} from {config}",
            )
            ctx.check(twin.name == layer.name, f"{what}: name {twin.name}, was {layer.name}")
            ctx.check(twin.trainable == layer.trainable, f"{what}: trainable {twin.trainable}")
            if not twin.built:
                ctx.call(twin.build, xl.shape)
            twin.set_weights(layer.get_weights())
            got = ctx.call(twin, xl)
            if c.get("options"):
                ctx.call(layer, xl)
                ctx.eq(float(sum(twin.losses)), float(sum(layer.losses)), f"{what}: losses", 1e-5)
                for v, w in zip(layer.weights, twin.weights):
                    same = type(v.constraint) is type(w.constraint) and type(v.regularizer) is type(w.regularizer)
                    ctx.check(same, f"{what}: constraint or regularizer of {v.path}")
            ctx.check(str(got.dtype) == str(y.dtype), f"{what}: dtype {got.dtype}, was {y.dtype}")
            ctx.eq(np.asarray(got), y, f"{what}: output of the restored layer", 1e-6)
            # what it refuses has to survive too
            other = [n + 1 for n in c["size"]]
            r1, a = ctx.refused(layer, B.layout(np.zeros(in_shape(c, 1, other), "float32"), c))
            r2, b = ctx.refused(twin, B.layout(np.zeros(in_shape(c, 1, other), "float32"), c))
            same = r1 == r2 and (r1 or tuple(a.shape) == tuple(b.shape))
            ctx.check(same, f"{what}: another input size is treated differently")
        # what it was before it was built is the same layer, too
        early = json.loads(json.dumps(ctx.call(ctx.call(make, c).get_config)))
        for k in early:
            if k not in ("name", "trainable"):
                ctx.check(early[k] == json.loads(text)[k], f"{k} in the configuration is {early[k]} before building")
        if c["seed"] % 3 == 0:
            ctx.count("copies")
            twin = ctx.call(copy.deepcopy, layer)
            ctx.eq(np.asarray(ctx.call(twin, xl)), y, "output of a copy", 1e-6)
            if twin.weights:
                twin.set_weights([w + 1 for w in twin.get_weights()])
                ctx.eq(np.asarray(ctx.call(layer, xl)), y, "output after changing a copy", 1e-6)
        if c["save"]:
            ctx.count("saved_models")
            scratch = os.environ["RV_SCRATCH"]
            path = os.path.join(scratch, f"m{c['seed']}.keras")
            wpath = os.path.join(scratch, f"m{c['seed']}.weights.h5")
            model = keras.Sequential([keras.Input(xl.shape[1:]), layer])
            ctx.call(model.save, path)
            loaded = ctx.call(keras.models.load_model, path)
            ctx.eq(np.asarray(loaded(xl)), y, "output of a saved and loaded model", 1e-6)
            got = json.loads(json.dumps(loaded.layers[-1].get_config()))
            ctx.check(got == json.loads(text), f"loaded configuration {got}, was {config}")
            ctx.call(model.save_weights, wpath)
            clone = ctx.call(keras.models.clone_model, model)
            ctx.call(clone, xl)  # with the weights it starts with
            ctx.call(clone.load_weights, wpath)
            ctx.eq(np.asarray(clone(xl)), y, "output of a cloned model with loaded weights", 1e-6)
            for p in (path, wpath):
                os.remove(p)


class C24:
    id = "C24"
    minima = {"evaluations": 600, "values": 10000, "float16": 30, "bfloat16": 30, "mixed_float16": 30, "large": 50}
    rule = "distinct (layer configuration, dtype policy, input dtype) observed"

    @staticmethod
    def gen(seed, tier):
        rng = rng_for("C24", seed)
        cases = mixed_cases(rng, 330 if tier == "quick" else 3500)
        for c in cases:
            c["dtype"] = pick(rng, ["float16", "bfloat16", "mixed_float16", "mixed_bfloat16", "float32"])
            c["input"] = pick(rng, ["float32", "float16", "float64"], [0.6, 0.2, 0.2])
            c["global"] = bool(rng.random() < 0.25)
        return cases

    @staticmethod
    def run(c, ctx):
        import keras

        rng = rng_for(c["seed"])
        compute = c["dtype"].replace("mixed_", "")
        variable = "float32" if c["dtype"].startswith("mixed_") else c["dtype"]
        spec = c
        if c["global"]:
            before = keras.mixed_precision.global_policy() if hasattr(keras.mixed_precision, "global_policy") else keras.mixed_precision.dtype_policy()
            keras.mixed_precision.set_global_policy(c["dtype"])
            spec = dict(c, dtype=None)
        try:
            layer = ctx.call(make, spec)
        finally:
            if c["global"]:
                keras.mixed_precision.set_global_policy(before)
        x = ints(rng, in_shape(c), -3, 3)
        ctx.call(layer.build, B.layout(x, c).shape)
        ws = B.set_weights(layer, dict(c, values="small"), rng, -2, 2) if c["kind"] == "conv" else ()
        if c["kind"] != "conv" and rng.random() < 0.6:
            # large values, the sum of which over the group (but not over windows, as in keras) overflows
            window = 1 if c["kind"] in ("max", "global") else np.prod(o.tup(c["pool_size"], c["dims"]))
            x = np.round(ints(rng, x.shape, 1, 7) * (4096 / 2 ** np.ceil(np.log2(window))) + 4096)
            x = x.astype("float32")
            x *= float(pick(rng, [1, -1]))
            x *= 2.0 ** np.floor(np.log2(60000 / np.abs(x).max() / window))
            ctx.count("large")
        ctx.count(c["dtype"])
        ctx.sig(c["dtype"], c["input"], c["kind"], c["group"], c.get("subgroup"), c.get("padding"), c["dims"])
        xl = B.layout(x, c).astype(c["input"])
        y = ctx.call(layer, xl)
        got = keras.backend.standardize_dtype(y.dtype)
        ctx.check(got == compute, f"output dtype {got} with policy {c['dtype']}")
        for v in layer.weights:
            vd = keras.backend.standardize_dtype(v.dtype)
            ctx.check(vd == variable, f"variable dtype {vd} with policy {c['dtype']}")
        ctx.check(layer.compute_dtype == compute, f"compute dtype {layer.compute_dtype}")
        want = reference(c, x, ws)
        tol = {"float32": 2e-6, "float16": 4e-3, "bfloat16": 3e-2}[compute]
        if c["kind"] == "average" and compute != "float32":  # windows are summed one by one in half precision
            tol = max(tol, 1.1 * {"float16": 2.0**-11, "bfloat16": 2.0**-9}[compute] * np.prod(o.tup(c["pool_size"], c["dims"])))
        ctx.eq(output(keras.ops.cast(y, "float32"), c), want, f"output with policy {c['dtype']}", tol)


class C29:
    id = "C29"
    minima = {"evaluations": 400, "jit": 100, "predict": 20, "vmap": 60, "transforms": 100}
    rule = "distinct (layer configuration, execution mode) observed"

    @staticmethod
    def gen(seed, tier):
        rng = rng_for("C29", seed)
        return mixed_cases(rng, 190 if tier == "quick" else 2000)

    @staticmethod
    def run(c, ctx):
        import jax
        import jax.numpy as jnp
        import keras

        rng = rng_for(c["seed"])
        layer, x, ws = prepare(c, ctx, rng)
        xl = B.layout(x, c)
        want = reference(c, x, ws)
        tol = tolerance(c)
        ctx.eq(output(ctx.call(layer, xl), c), want, "eager", tol)
        params = [jnp.asarray(v.value) for v in layer.trainable_variables]

        def f(p, z):
            return layer.stateless_call(p, [], z)[0]

        snap = C19.snapshot(layer, c)
        with jax.checking_leaks():
            y = ctx.call(jax.jit(f), params, jnp.asarray(xl))
        ctx.eq(output(y, c), want, "jit", tol)
        ctx.count("jit")
        diff = C19.same(snap, C19.snapshot(layer, c))
        ctx.check(diff is None, f"tracing changed the layer: {diff}")
        # closed over weights, another input size, same compiled function object
        g = jax.jit(lambda z: layer(z))
        ctx.eq(output(ctx.call(g, jnp.asarray(xl)), c), want, "jit with the layer's own weights", tol)
        # other weights through the same trace
        if c["kind"] == "conv":
            k2 = ints(rng, ws[0].shape, -4, 4)
            b2 = None if ws[1] is None else ints(rng, ws[1].shape, -4, 4)
            p2 = [jnp.asarray(v) for v in (k2, b2) if v is not None]
            ctx.eq(output(ctx.call(jax.jit(f), p2, jnp.asarray(xl)), c), o.conv(x, k2, b2, c),
                   "stateless call with other weights", tol)
            ctx.eq(output(ctx.call(layer, xl), c), want, "eager call after a stateless one", tol)
        if c["seed"] % 2:
            ctx.count("vmap")
            xs = jnp.stack([jnp.asarray(xl), jnp.asarray(xl[::-1]), jnp.asarray(xl) * 2])
            ys = ctx.call(jax.vmap(lambda z: f(params, z)), xs)
            for i in range(3):
                ref = np.asarray(ctx.call(layer, np.asarray(xs[i])))
                ctx.eq(np.asarray(ys[i]), ref, "vmap", max(tol, 1e-6))
            if c["kind"] == "conv":  # an ensemble of weights
                more = [[B.values(rng, v.shape, c, -6, 6, 2) for v in params] for _ in range(2)]
                ps = [jnp.stack([jnp.asarray(m[i]) for m in more]) for i in range(len(params))]
                ys = ctx.call(jax.vmap(f, in_axes=(0, None)), ps, jnp.asarray(xl))
                for m, y1 in zip(more, ys):
                    want1 = o.conv(x, m[0], m[1] if len(m) > 1 else None, c)
                    ctx.eq(output(y1, c), want1, "vmap over weights", max(tol, 1e-6))
        C29.transforms(c, ctx, layer, x, want, tol)
        if c["seed"] % 4 == 0:
            ctx.count("predict")
            model = keras.Sequential([keras.Input(xl.shape[1:]), layer])
            many = np.concatenate([xl] * 3, 0)
            y = np.asarray(ctx.call(model.predict, many, batch_size=2, verbose=0))
            ref = np.asarray(ctx.call(layer, xl))
            ctx.eq(y, np.concatenate([ref] * 3, 0), "predict in batches", max(tol, 1e-6))
        ctx.sig("modes", c["seed"])

    @staticmethod
    def transforms(c, ctx, layer, x, want, tol):
        """Within a transformation of jax or a wrapper of Keras."""
        import jax
        import jax.numpy as jnp
        import keras

        xl = B.layout(x, c)
        xj = jnp.asarray(xl)
        mode = ["scan", "map", "remat", "shape", "linearize", "time", "while", "cond"][c["seed"] // 7 % 8]
        tol = max(tol, 1e-6)
        ctx.count("transforms")
        ctx.count(f"mode_{mode}")
        ctx.sig("transform", mode, c["kind"], c.get("transpose"))
        if mode == "scan":
            _, ys = ctx.call(jax.lax.scan, lambda s, z: (s + 1, layer(z)), 0, jnp.stack([xj, xj[::-1]]))
            ctx.eq(output(ys[0], c), want, "within a scan", tol)
            ctx.eq(output(ys[1], c), want[::-1], "within a scan", tol)
        elif mode == "map":
            ys = ctx.call(jax.lax.map, lambda z: layer(z[None])[0], xj)
            ctx.eq(output(ys, c), want, "item by item", tol)
        elif mode == "remat":
            y, pull = ctx.call(jax.vjp, jax.checkpoint(lambda z: layer(z)), xj)
            ctx.eq(output(y, c), want, "with rematerialisation", tol)
            w = jnp.asarray(np.random.default_rng(c["seed"]).integers(-3, 4, y.shape).astype("float32"))
            _, pull2 = ctx.call(jax.vjp, lambda z: layer(z), xj)
            ctx.eq(np.asarray(pull(w)[0]), np.asarray(pull2(w)[0]), "gradient with rematerialisation", 1e-5)
        elif mode == "shape":
            got = ctx.call(jax.eval_shape, lambda z: layer(z), jax.ShapeDtypeStruct(xl.shape, xl.dtype))
            y = np.asarray(ctx.call(layer, xl))
            ctx.check(got.shape == y.shape and got.dtype == y.dtype, f"abstract result {got}, actual {y.shape}, {y.dtype}")
        elif mode == "linearize":
            y, f = ctx.call(jax.linearize, lambda z: layer(z), xj)
            ctx.eq(output(y, c), want, "linearized", tol)
        elif mode == "time":
            steps = np.stack([xl, xl[::-1], 2 * xl], 1)
            y = np.asarray(ctx.call(keras.layers.TimeDistributed(layer), steps))
            ref = np.stack([np.asarray(ctx.call(layer, steps[:, i])) for i in range(3)], 1)
            ctx.eq(y, ref, "at every step of a sequence", tol)
        elif mode == "while":
            _, y = ctx.call(jax.lax.fori_loop, 0, 2, lambda i, s: (s[0], layer(s[0])), (xj, jnp.zeros_like(layer(xj))))
            ctx.eq(output(y, c), want, "within a loop", tol)
        else:
            y = ctx.call(jax.lax.cond, jnp.asarray(True), lambda z: layer(z), lambda z: layer(z) * 0 + 1, xj)
            ctx.eq(output(y, c), want, "within a branch", tol)


class C31:
    """Initialisers, regularizers, constraints and freezing act once on the shared weights."""

    id = "C31"
    minima = {"evaluations": 900, "initialised": 80, "regularized": 60, "constrained": 30, "frozen": 12, "hooked": 150}
    rule = "distinct (layer configuration, options) observed next to the plain Keras layer on merged channels"

    @staticmethod
    def gen(seed, tier):
        rng = rng_for("C31", seed)
        k = 1 if tier == "quick" else 10
        cases = B.conv_round(rng, 66 * k, activation=None) + B.conv_round(rng, 66 * k, transpose=True, activation=None)
        out = []
        for c in cases:
            if np.prod(c["size"]) * c["batch"] > 4000:
                continue
            c["values"] = "small"
            c["opts"] = {
                "kernel_initializer": pick(rng, ["glorot_uniform", "he_normal", "orthogonal", "normal", "lecun_uniform", "truncated"]),
                "bias_initializer": pick(rng, ["normal", "uniform", "zeros"]),
                "kernel_regularizer": pick(rng, [None, "l1", "l2", "l1_l2"]),
                "bias_regularizer": pick(rng, [None, "l1", "l2"]),
                "activity_regularizer": pick(rng, [None, None, "l1", "l2"]),
                "kernel_constraint": pick(rng, [None, "non_neg", "max_norm", "unit_norm", "min_max"]),
                "bias_constraint": pick(rng, [None, "non_neg", "max_norm"]),
            }
            c["frozen"] = bool(rng.random() < 0.2)
            out.append(c)
        return out

    @staticmethod
    def make_options(c, seen):
        import keras

        op = c["opts"]
        s = c["seed"] % 1000

        def init(name, s):
            I = keras.initializers
            return {
                "glorot_uniform": lambda: I.GlorotUniform(seed=s), "he_normal": lambda: I.HeNormal(seed=s),
                "orthogonal": lambda: I.Orthogonal(seed=s), "normal": lambda: I.RandomNormal(stddev=0.5, seed=s),
                "lecun_uniform": lambda: I.LecunUniform(seed=s), "truncated": lambda: I.TruncatedNormal(stddev=0.4, seed=s),
                "uniform": lambda: I.RandomUniform(-1, 1, seed=s), "zeros": lambda: "zeros",
            }[name]()

        def reg(name):
            return {None: None, "l1": keras.regularizers.L1(0.03), "l2": keras.regularizers.L2(0.05),
                    "l1_l2": keras.regularizers.L1L2(0.02, 0.01)}[name]

        def con(name):
            C = keras.constraints
            return {None: lambda: None, "non_neg": C.NonNeg, "max_norm": lambda: C.MaxNorm(0.7),
                    "unit_norm": C.UnitNorm, "min_max": lambda: C.MinMaxNorm(0.2, 0.6)}[name]()

        class Watch:
            """records the shapes that a regularizer is applied to"""

            def __init__(self, inner, what):
                self.inner, self.what = inner, what

            def __call__(self, v):
                seen.append((self.what, tuple(v.shape)))
                return self.inner(v)

        def watched(r, what):
            return None if r is None else Watch(r, what)

        return {
            "kernel_initializer": init(op["kernel_initializer"], s), "bias_initializer": init(op["bias_initializer"], s + 1),
            "kernel_regularizer": watched(reg(op["kernel_regularizer"]), "kernel"),
            "bias_regularizer": watched(reg(op["bias_regularizer"]), "bias"),
            "activity_regularizer": watched(reg(op["activity_regularizer"]), "activity"),
            "kernel_constraint": con(op["kernel_constraint"]), "bias_constraint": con(op["bias_constraint"]),
        }

    @staticmethod
    def penalty(name, v):
        v = np.asarray(v, dtype=float)
        return {None: 0.0, "l1": 0.03 * np.abs(v).sum(), "l2": 0.05 * (v**2).sum(),
                "l1_l2": 0.02 * np.abs(v).sum() + 0.01 * (v**2).sum()}[name]

    @staticmethod
    def run(c, ctx):
        import keras

        rng = rng_for(c["seed"])
        seen = []
        op, d = c["opts"], c["dims"]
        layer = ctx.call(B.make_conv, dict(c, options=C31.make_options(c, seen)))
        ctx.count("frozen", int(c["frozen"]))
        x = rng.normal(size=in_shape(c)).astype("float32")
        xl = B.layout(x, c)
        ctx.call(layer.build, xl.shape)
        layer.trainable = not c["frozen"]  # after building, Keras does not freeze what does not exist yet
        tag = {k: v for k, v in op.items() if v}
        ctx.sig(c["kind"], c["group"], c.get("subgroup"), c.get("transpose"), tag, c["frozen"])
        kshape = B.kernel_shape(c)

        # the plain layer on the merged channels
        name = f"Conv{d}D" + ("Transpose" if c.get("transpose") else "")
        kw = dict(filters=c["filters"], kernel_size=c["kernel_size"], use_bias=c.get("use_bias", True))
        if c.get("groups", 1) != 1:
            kw["groups"] = c["groups"]
        inner = kshape[-1] if c.get("transpose") else kshape[-2]
        plain = getattr(keras.layers, name)(**kw, **C31.make_options(c, []))
        plain.build((None, *[9] * d, inner * c.get("groups", 1)))
        plain.trainable = layer.trainable
        ctx.count("initialised")
        ws, ps = layer.get_weights(), plain.get_weights()
        ctx.check(len(ws) == len(ps) == 1 + kw["use_bias"], f"{len(ws)} weights")
        for v, w in zip(ws, ps):
            ctx.eq(v, w, f"initial weights with {op['kernel_initializer']} of shape {w.shape}", 1e-6)
        ctx.check(layer.count_params() == plain.count_params(), f"{layer.count_params()} parameters")
        for a, b in zip(layer.weights, plain.weights):
            ctx.check(a.name == b.name and a.trainable == b.trainable, f"{a.name}, trainable: {a.trainable}")
        ctx.check(len(layer.trainable_weights) == len(plain.trainable_weights), "number of trainable weights")

        # what is regularized
        y = np.asarray(ctx.call(layer, xl))
        got = sorted(float(v) for v in ctx.call(lambda: layer.losses))
        parts = [("activity", y)] + ([] if c["frozen"] else [("kernel", ws[0]), ("bias", ws[-1])][: len(ws)])
        want = sorted(C31.penalty(op[k + "_regularizer"], v) for k, v in parts if op[k + "_regularizer"])
        if ctx.check(len(got) == len(want), f"regularization losses {got}, expected {want}, with {tag}"):
            for v, w in zip(got, want):  # sums in single precision
                ctx.eq(v / (w or 1.0), w / (w or 1.0), f"regularization loss with {tag}", 2e-3)
        ctx.count("regularized", len(want))
        shapes = {"kernel": tuple(kshape), "bias": (c["filters"],), "activity": y.shape}
        for what, shape in seen:
            ctx.count("hooked")
            ctx.check(shape == shapes[what], f"{what} regularizer is applied to shape {shape}, expected {shapes[what]}")

        # what training does with it
        if op["activity_regularizer"] or c["seed"] % 3 == 0:
            return

        def trained(lay, xl):
            model = keras.Sequential([keras.Input(xl.shape[1:]), lay])
            lay.set_weights(ws)
            model.compile(optimizer=keras.optimizers.SGD(0.05), loss="mse", jit_compile=False)
            out = np.asarray(ctx.call(lay, xl))
            ctx.call(model.train_on_batch, xl, np.zeros(out.shape, "float32"))
            return lay.get_weights()

        # the part of a training step that comes from regularizers, as Keras has it for a plain layer
        x0 = np.zeros((1, *[9] * d, inner * c.get("groups", 1)), "float32")
        options = {k: v for k, v in C31.make_options(c, []).items() if k.endswith("_regularizer")}
        last = {"data_format": "channels_last"}
        with_regularizers = trained(getattr(keras.layers, name)(**kw, **last, **options), x0)
        without = trained(getattr(keras.layers, name)(**kw, **last), x0)
        bare = trained(B.make_conv(dict(c, options={})), xl)
        after = trained(layer, xl)
        for i, (key, w) in enumerate(zip(["kernel", "bias"], ws)):
            ctx.count("constrained", int(op[key + "_constraint"] is not None))
            if c["frozen"]:
                ctx.eq(after[i], w, f"frozen {key} after training")
                continue
            step = bare[i] + with_regularizers[i] - without[i]
            constraint = C31.make_options(c, [])[key + "_constraint"]
            if constraint is not None:
                step = np.asarray(constraint(keras.ops.convert_to_tensor(step.astype("float32"))))
            ctx.eq(after[i], step, f"{key} after a training step with {tag}", 1e-4)
