"""C11-C15: pooling, padding, and the promise never to give up equivariance silently."""
import numpy as np

from rv import build as B
from rv import oracle as o
from rv.core import ints, pick, rng_for
from rv.props.convs import check_equivariance, observe, sig


def pool_sig(c, ctx):
    ctx.sig(*[c.get(k) for k in (
        "kind", "dims", "group", "subgroup", "pool_size", "strides", "size", "padding", "cin",
        "data_format", "allow", "keepdims")])
    ctx.count(f"group_{c['group']}")
    ctx.count(c["kind"])


class C11:
    id = "C11"
    minima = {"transformations": 700, "max": 80, "average": 80, "onto_subgroup": 60}
    rule = "distinct pooling configurations observed under every sampled group element"

    @staticmethod
    def gen(seed, tier):
        rng = rng_for("C11", seed)
        return B.pool_round(rng, 330 if tier == "quick" else 4000)

    @staticmethod
    def run(c, ctx):
        rng = rng_for(c["seed"])
        d = c["dims"]
        layer = ctx.call(B.make_pool, c)
        x = B.pool_input(c, rng)
        if rng.random() < 0.5:
            x -= 25  # so that zeros of the padding are visible to maxima
        y = B.unlayout(ctx.call(layer, B.layout(x, c)), c)
        pool_sig(c, ctx)
        sub = c.get("subgroup") or c["group"]
        if sub != c["group"]:
            ctx.count("onto_subgroup")
        axes = tuple(range(1, d + 1))
        elements = o.sub_indices(c["group"], sub)
        if len(elements) > 10:
            elements = [elements[int(i)] for i in rng.permutation(len(elements))[:10]]
        moved = [o.act_group_one(c["group"], g, x, axes, d + 1) for g in elements]
        out = B.unlayout(ctx.call(layer, B.layout(np.concatenate(moved, 0), c)), c)
        b = x.shape[0]
        if not ctx.check(out.shape == (b * len(elements),) + y.shape[1:], f"shape {out.shape}"):
            return
        for i, g in enumerate(elements):
            want = o.act_group_one(c["group"], g, y, axes, d + 1, sub)
            ctx.eq(out[i * b : (i + 1) * b], want, f"pooling after vs before acting with {g}",
                   0.0 if c["kind"] == "max" else 1e-6)
            ctx.count("transformations")


def pool1d_cases(rng, n):
    out = []
    for i in range(n):
        g = pick(rng, o.NAMES[2])
        s = pick(rng, o.SUBGROUPS[g])
        out.append(B.pool_config(rng, 1, g, s, ["max", "average"][i % 2]))
    return out


class C12:
    id = "C12"
    minima = {"evaluations": 200, "values": 5000, "max": 80, "average": 80, "extreme": 30}
    rule = "distinct pooling configurations whose every output value was compared to the reference"

    @staticmethod
    def gen(seed, tier):
        rng = rng_for("C12", seed)
        k = 1 if tier == "quick" else 12
        return B.pool_round(rng, 360 * k) + pool1d_cases(rng, 50 * k)

    @staticmethod
    def run(c, ctx):
        rng = rng_for(c["seed"])
        layer = ctx.call(B.make_pool, c)
        x = B.pool_input(c, rng)
        if rng.random() < 0.5:
            x += pick(rng, [-25, 25])
        if c["kind"] == "max" and rng.random() < 0.3:
            # maxima of whatever there is in single precision
            x = x * np.float32(pick(rng, [1e30, -1e30, 1e-30]))
            if rng.random() < 0.5:
                x[rng.random(x.shape) < 0.7] = -np.inf
            ctx.count("extreme")
        y = B.unlayout(ctx.call(layer, B.layout(x, c)), c)
        pool_sig(c, ctx)
        ctx.eq(y, o.pool(x, c, B.cosets(c)), f"{c['kind']} pooling",
               0.0 if c["kind"] == "max" else 1e-6)
        ctx.check(layer.count_params() == 0, "pooling has parameters")


class C13:
    id = "C13"
    minima = {"evaluations": 250, "max": 60, "average": 60, "keepdims": 40, "transformations": 400}
    rule = "distinct global pooling configurations observed, with the group elements acted with"

    @staticmethod
    def gen(seed, tier):
        rng = rng_for("C13", seed)
        cases = []
        for r in range(1 if tier == "quick" else 10):
            for g in o.NAMES[2] + o.NAMES[3] + ["1D", "1D"]:
                for kind in ("max", "average"):
                    for df in ("channels_last", "channels_first"):
                        for keep in (None, False, True):
                            d = 1 if g == "1D" else o.DIM[g]
                            cls = [0] if d == 1 else o.mixed_axes(g)
                            hi = 10 if d < 3 else 6
                            size = B.classes_value(rng, cls, list(range(1, hi)), iso=0.3)
                            cases.append(
                                {
                                    "kind": kind, "dims": d, "group": g, "data_format": df, "keepdims": keep,
                                    "explicit": bool(rng.random() < 0.5),
                                    "size": list(o.tup(size, d)), "cin": int(rng.integers(1, 5)),
                                    "batch": int(rng.integers(1, 5)), "seed": int(rng.integers(2**31)),
                                }
                            )
        return cases

    @staticmethod
    def run(c, ctx):
        import groco.layers as GL

        rng = rng_for(c["seed"])
        d = c["dims"]
        name = "Max" if c["kind"] == "max" else "Average"
        kw = {}
        if c["keepdims"] is not None:
            kw["keepdims"] = c["keepdims"]
        if c["data_format"] != "channels_last" or c["explicit"]:
            kw["data_format"] = c["data_format"]
        layer = ctx.call(getattr(GL, f"GlobalGroup{name}Pooling{d}D"), **kw)
        order = int(rng.integers(1, 9)) if c["group"] == "1D" else o.order(c["group"])
        shape = (c["batch"], *c["size"], order, c["cin"])
        x = ints(rng, shape, -50, 50) + pick(rng, [0, -60, 60])
        if rng.random() < 0.4:
            x = x / np.float32(64) + np.float32(pick(rng, [0, 100, -100]))
        want = o.global_pool(x, d, c["kind"])
        full = want
        if c["keepdims"]:
            ctx.count("keepdims")
            full = want.reshape((c["batch"],) + (1,) * (d + 1) + (c["cin"],))
            full = o.from_last(full, c["data_format"])
        tol = 0.0 if c["kind"] == "max" else 2e-6
        y = np.asarray(ctx.call(layer, B.layout(x, c)))
        pool_sig(c, ctx)
        ctx.eq(y, full, f"global {c['kind']} pooling", tol)
        if c["group"] == "1D":
            return
        axes = tuple(range(1, d + 1))
        els = list(range(order))
        if order > 8:
            els = [int(i) for i in rng.permutation(order)[:8]]
        moved = np.concatenate([o.act_group_one(c["group"], g, x, axes, d + 1) for g in els], 0)
        out = np.asarray(ctx.call(layer, B.layout(moved, c)))
        ctx.eq(out, np.concatenate([y] * len(els), 0), "global pooling of transformed signals", tol)
        ctx.count("transformations", len(els))


class C14:
    """Which padding is added, over dense ranges of sizes."""

    id = "C14"
    minima = {"configurations": 2500, "refusals": 300, "extra_padding": 300, "called": 150, "smaller_than_kernel": 30}
    rule = "distinct (layer kind, size, kernel, stride, dilation, padding) whose padding was observed"

    @staticmethod
    def gen(seed, tier):
        rng = rng_for("C14", seed)
        cases = []
        for i in range(96 if tier == "quick" else 800):
            cases.append(
                {
                    "kind": ["conv", "conv", "max", "average"][i % 4],
                    "dims": [2, 2, 3, 1, 2, 3, 2][i % 7] if i % 4 > 1 else [2, 2, 3][i % 3],
                    "data_format": pick(rng, ["channels_last", "channels_first"], [0.7, 0.3]),
                    "n": 36,
                    "seed": int(rng.integers(2**31)),
                }
            )
        return cases

    @staticmethod
    def run(c, ctx):
        rng = rng_for(c["seed"])
        d = c["dims"]
        for j in range(c["n"]):
            is_conv = c["kind"] == "conv"
            strides = [int(pick(rng, [1, 2, 3, 4, 5])) for _ in range(d)]
            dil = [1] * d
            if is_conv and rng.random() < 0.3:
                strides, dil = [1] * d, [int(pick(rng, [1, 2, 3])) for _ in range(d)]
            if rng.random() < 0.5:
                strides = strides[:1] * d
            hi = 6 if d < 3 else 4
            ks = [int(rng.integers(1, hi + 1)) for _ in range(d)]
            if d == 3 or rng.random() < 0.4:
                ks = ks[:1] * d
            hi = 25 if d < 3 else 9
            size = [int(rng.integers(1, hi)) for _ in range(d)]
            padding = pick(rng, ["valid_equiv", "same_equiv", "valid", "same", None],
                           [0.3, 0.3, 0.15, 0.2, 0.05])
            allow = bool(rng.random() < 0.15)
            group = "P1" if d < 3 else "D4"
            if d == 3:  # its first two axes are mixed
                strides[1], dil[1], size[1] = strides[0], dil[0], size[0]
            ke = [(k - 1) * q + 1 for k, q in zip(ks, dil)]
            base = (padding or "valid").replace("_equiv", "")
            small = base == "valid" and any(n < k for n, k in zip(size, ke))
            try:
                pads = o.spec_padding(size, ke, strides, padding or "valid_equiv", allow)
            except o.Refuse:
                pads = None
            if small:  # not specified, unless the padding makes up for it
                if pads is None or any(n + p[0] + p[1] < k for n, p, k in zip(size, pads, ke)):
                    continue
                ctx.count("smaller_than_kernel")
            case = {
                "kind": c["kind"], "dims": d, "group": group, "subgroup": "", "lift": True,
                "kernel_size": ks, "pool_size": ks, "strides": strides, "dilation": dil,
                "padding": padding, "allow": allow, "groups": 1, "cin": 1, "filters": 1, "batch": 1,
                "data_format": c["data_format"], "use_bias": True, "activation": None, "style": 0,
                "size": size,
            }
            layer = ctx.call(B.make_conv if is_conv else B.make_pool, case)
            shape = [1, *size, 1] if is_conv else [1, *size, o.order(group), 1]
            xs = B.layout(np.zeros(shape, "float32"), case).shape
            tag = f"{c['kind']}{d}D size {size} kernel {ks} strides {strides} dilation {dil} {padding}"
            refused, res = ctx.refused(layer.build, xs, exc=Exception)
            ctx.count("configurations")
            ctx.sig(c["kind"], d, size, ks, strides, dil, padding, allow)
            if pads is None:
                ctx.count("refusals")
                ctx.check(
                    refused and isinstance(res, ValueError),
                    f"{tag}: should raise ValueError, {'raised ' + type(res).__name__ if refused else 'accepted'}",
                )
                continue
            if not ctx.check(not refused, f"{tag}: refused with {res}"):
                continue
            if any(p[2] for p in pads):
                ctx.count("extra_padding")
            if any(n + p[0] + p[1] < k for n, p, k in zip(size, pads, ke)):
                continue
            out_sp = [(n + p[0] + p[1] - k) // s + 1 for n, p, k, s in zip(size, pads, ke, strides)]
            want = B.layout(np.zeros([1, *out_sp, o.order(group), 1], "float32"), case).shape
            if is_conv:
                got = tuple(ctx.call(layer.compute_output_shape, xs))
                ctx.check(got == want, f"{tag}: predicted shape {got}, expected {want}")
            if j % 9 == 0 or (small and j % 2):
                ctx.count("called")
                x = ints(rng, shape, 1, 9)
                if is_conv:
                    kernel, bias = B.set_weights(layer, case, rng)
                    ref = o.conv(x, kernel, bias, case)
                else:
                    x -= 12
                    ref = o.pool(x, case, [0])
                y = B.unlayout(ctx.call(layer, B.layout(x, case)), case)
                ctx.eq(y, ref, tag, 0.0 if c["kind"] != "average" else 1e-6)


class C15:
    id = "C15"
    minima = {"refused": 60, "accepted": 120, "accepted_plain": 25, "opt_out": 150, "transformations": 300, "no_effect": 45, "no_effect_transposed": 12}
    rule = "distinct hostile configurations observed to be refused or equivariant, or plain when opted out"

    @staticmethod
    def gen(seed, tier):
        rng = rng_for("C15", seed)
        k = 1 if tier == "quick" else 10
        cases = []
        for i in range(300 * k):
            d, g, s, lift = B.COMBOS[int(rng.integers(len(B.COMBOS)))]
            if d == 3 and g == "Oh" and rng.random() < 0.6:
                continue
            kind = ["conv", "conv", "max", "average"][i % 4]

            def each(seq):
                if rng.random() < 0.55:
                    return [int(pick(rng, seq))] * d
                return [int(pick(rng, seq)) for _ in range(d)]

            c = {
                "what": "hostile", "kind": kind, "dims": d, "group": g, "subgroup": "" if s == g else s,
                "lift": lift and kind == "conv", "strides": each([1, 2, 3]), "dilation": [1] * d,
                "padding": pick(rng, B.PADDINGS), "groups": pick(rng, [1, 2], [0.8, 0.2]),
                "data_format": pick(rng, ["channels_last", "channels_first"], [0.75, 0.25]),
                "size": [int(rng.integers(4, 10 if d == 2 else 6))] * d, "batch": 1, "style": 0,
                "use_bias": True, "activation": None, "seed": int(rng.integers(2**31)),
            }
            ks = each([1, 2, 3, 4] if d == 2 else [1, 2, 3])
            if kind == "conv":
                if d == 3 or rng.random() < 0.8:
                    ks = ks[:1] * d
                if rng.random() < 0.3:
                    c["strides"], c["dilation"] = [1] * d, each([1, 2])
            c["kernel_size"] = c["pool_size"] = ks
            c["cin"] = c["filters"] = 2 * c["groups"] if rng.random() < 0.5 else c["groups"]
            cases.append(c)
        for i in range(200 * k):
            d, g, s, lift = B.COMBOS[i % len(B.COMBOS)]
            if i % 3 == 2:
                c = B.pool_config(rng, d, g, s, pick(rng, ["max", "average"]), allow=True,
                                  padding=pick(rng, ["same", "valid"]))
            else:
                transpose = i % 6 == 1
                c = B.conv_config(rng, d, g, s, lift, transpose=transpose, allow=True,
                                  padding=pick(rng, ["same", "valid"]))
            c["what"] = "opt_out"
            cases.append(c)
        for i in range(60 * k):
            d, g, s, lift = B.COMBOS[int(rng.integers(len(B.COMBOS)))]
            padding = pick(rng, ["same_equiv", "valid_equiv"])
            if i % 3 == 2:
                c = B.pool_config(rng, d, g, s, pick(rng, ["max", "average"]), padding=padding)
            else:
                c = B.conv_config(rng, d, g, s, lift, transpose=i % 3 == 1, padding=padding)
            c["what"] = "no_effect"
            cases.append(c)
        return cases

    @staticmethod
    def run(c, ctx):
        if c["what"] == "hostile":
            C15.hostile(c, ctx)
        elif c["what"] == "no_effect":
            C15.no_effect(c, ctx)
        else:
            C15.opt_out(c, ctx)

    @staticmethod
    def no_effect(c, ctx):
        """Opting out together with a padding that maintains equivariance."""
        rng = rng_for(c["seed"])
        conv = c["kind"] == "conv"
        sig(c, ctx) if conv else pool_sig(c, ctx)
        x = B.make_input(c, rng) if conv else B.pool_input(c, rng)
        x += pick(rng, [0, 30])
        got = []
        for allow in (False, True):
            layer = ctx.call(B.make_conv if conv else B.make_pool, dict(c, allow=allow))
            ctx.call(layer.build, B.layout(x, c).shape)
            if conv and not got:
                ws = [w for w in B.set_weights(layer, c, rng) if w is not None]
            elif conv:
                layer.set_weights(ws)
            got.append(np.asarray(ctx.call(layer, B.layout(x, c))))
        want = o.conv(x, ws[0], ws[1] if len(ws) > 1 else None, c) if conv else o.pool(x, c, B.cosets(c))
        for y, what in zip(got, ("without", "with")):
            ctx.eq(B.unlayout(y, c), want, f"equivariant padding {what} opting out", 1e-6 if c["kind"] == "average" else 0.0)
        ctx.count("no_effect")
        if c.get("transpose"):
            ctx.count("no_effect_transposed")

    @staticmethod
    def hostile(c, ctx):
        rng = rng_for(c["seed"])
        d = c["dims"]
        conv = c["kind"] == "conv"
        sig(c, ctx) if conv else pool_sig(c, ctx)
        try:
            layer = B.make_conv(c) if conv else B.make_pool(c)
            x = B.make_input(c, rng) if conv else B.pool_input(c, rng)
            layer.build(B.layout(x, c).shape)
            if conv:
                B.set_weights(layer, c, rng)
            y = B.unlayout(layer(B.layout(x, c)), c)
        except Exception:
            ctx.count("refused")
            return
        if 0 in y.shape:
            ctx.count("empty")
            return
        ctx.count("accepted")
        if (c["padding"] or "").lower() in ("same", "valid"):
            # not quietly replaced by something else that is equivariant
            allow = dict(c, allow=True, kernel_size=c["kernel_size"])
            if conv:
                ws = [np.asarray(w) for w in layer.get_weights()]
                want = o.conv(x, ws[0], ws[1], allow)
            else:
                want = o.pool(x, allow, B.cosets(c))
            ctx.eq(y, want, "plain padding that is accepted vs plain padding", 1e-6 if c["kind"] == "average" else 0.0)
            ctx.count("accepted_plain")
        sub = c["subgroup"] or c["group"]
        elements = o.sub_indices(c["group"], sub)
        if len(elements) > 8:
            elements = [elements[int(i)] for i in rng.permutation(len(elements))[:8]]
        axes = tuple(range(1, d + 1))
        if c["lift"]:
            moved = [o.act_grid(o.ELEMENTS[c["group"]][g], x, axes) for g in elements]
        else:
            moved = [o.act_group_one(c["group"], g, x, axes, d + 1) for g in elements]
        out = B.unlayout(ctx.call(layer, B.layout(np.concatenate(moved, 0), c)), c)
        for i, g in enumerate(elements):
            want = o.act_group_one(c["group"], g, y, axes, d + 1, sub)
            ctx.eq(out[i : i + 1], want, f"accepted without opting out, but not equivariant to {g}",
                   0.0 if c["kind"] != "average" else 1e-6)
            ctx.count("transformations")

    @staticmethod
    def opt_out(c, ctx):
        """With allow_non_equivariance and same/valid padding: plain keras, per group element."""
        import keras

        rng = rng_for(c["seed"])
        d = c["dims"]
        df = c["data_format"]
        ctx.count("opt_out")
        if c["kind"] != "conv":
            pool_sig(c, ctx)
            layer = ctx.call(B.make_pool, c)
            x = B.pool_input(c, rng) - 3
            y = B.unlayout(ctx.call(layer, B.layout(x, c)), c)
            sub = c.get("subgroup") or c["group"]
            pooled = o.pool_group(x, c["group"], sub, B.cosets(c), c["kind"]).astype("float32")
            name = "Max" if c["kind"] == "max" else "Average"
            ps = o.tup(c["pool_size"], d)
            plain = getattr(keras.layers, f"{name}Pooling{d}D")(
                pool_size=ps, strides=o.tup(c["strides"], d) if c["strides"] is not None else None,
                padding=c["padding"], data_format="channels_last",
            )
            for h in range(pooled.shape[-2]):
                ref = np.asarray(plain(pooled[..., h, :]))
                ctx.eq(y[..., h, :], ref, "opted out pooling vs the plain keras layer",
                       0.0 if c["kind"] == "max" else 1e-6)
            return
        if c["transpose"]:
            c = dict(c)
        r = observe(c, ctx, rng)
        if r is None:
            return
        layer, x, kernel, bias, y = r
        sub = c.get("subgroup") or c["group"]
        domain, acting = (sub, c["group"]) if c["transpose"] else (c["group"], sub)
        k = np.swapaxes(kernel, -1, -2) if c["transpose"] else kernel
        kernels = o.transformed_kernels(c["group"], domain, acting, k.astype(float), d, c["lift"])
        cls = getattr(keras.layers, f"Conv{d}D" + ("Transpose" if c["transpose"] else ""))
        kw = {} if c["transpose"] else {"groups": c["groups"]}
        plain = cls(
            filters=c["filters"], kernel_size=o.tup(c["kernel_size"], d), strides=o.tup(c["strides"], d),
            padding=c["padding"], dilation_rate=o.tup(c["dilation"], d), use_bias=c["use_bias"],
            activation=c["activation"], data_format="channels_last", **kw,
        )
        G = c["groups"]
        xm = x if not c["lift"] else np.expand_dims(x, -2)
        # (.., dom, G, c/G) -> (.., G, dom, c/G)
        xm = xm.reshape(xm.shape[:-1] + (G, -1))
        xm = np.moveaxis(xm, -2, -3).reshape(x.shape[: 1 + d] + (-1,))
        plain.build(xm.shape)
        for i in range(o.order(acting)):
            if i % 5 and o.order(acting) > 8:
                continue
            kg = kernels[i].reshape(kernels[i].shape[:d] + (-1, kernels[i].shape[-1]))
            kg = np.swapaxes(kg, -1, -2) if c["transpose"] else kg
            plain.set_weights([kg.astype("float32")] + ([bias] if bias is not None else []))
            ref = np.asarray(plain(xm.astype("float32")))
            ctx.eq(y[..., i, :], ref, "opted out convolution vs the plain keras layer")
