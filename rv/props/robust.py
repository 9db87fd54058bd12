"""C25-C27: backends, misfits, and the equivariance checker itself."""
import numpy as np

from rv import build as B
from rv import oracle as o
from rv.core import ints, pick, rng_for
from rv.props import convs, groups, pools
from rv.props.interface import in_shape, make, mixed_cases

ALL = o.NAMES[2] + o.NAMES[3]


class C25:
    """
    The cases of other properties once more, on another backend: exact agreement of both with the
    same oracle.  This backend indexes strictly, which makes it a sanitizer for out of range
    indices, that jax clips or fills.
    """

    id = "C25"
    backend = "numpy"
    parts = [
        (groups.C01, 22, 60), (groups.C02, 22, 60), (groups.C03, 220, 2000), (groups.C04, 220, 2000),
        (groups.C05, 100, 400), (groups.C28, 140, 1000), (convs.C07, 110, 1200), (convs.C10, 80, 900),
        (convs.C06, 40, 500), (convs.C09, 40, 500), (pools.C12, 90, 900), (pools.C13, 30, 300), (pools.C11, 30, 300),
    ]
    minima = {"evaluations": 2500, "values": 200000, "strict_indexing": 1}
    rule = "distinct configurations observed on the numpy backend"

    @staticmethod
    def gen(seed, tier):
        cases = [{"part": None, "seed": 0}]
        for cls, n, m in C25.parts:
            own = cls.gen(f"backend {seed}", tier)
            rng = rng_for("C25", seed, cls.id)
            order = [int(i) for i in rng.permutation(len(own))][: n if tier == "quick" else m]
            cases += [{"part": cls.id, "case": own[i]} for i in sorted(order)]
        return cases

    @staticmethod
    def run(c, ctx):
        import keras

        if keras.backend.backend() != "numpy":
            raise AssertionError("not on the numpy backend")
        if c["part"] is None:
            refused, _ = ctx.refused(keras.ops.take, np.arange(3.0), [7], 0, exc=IndexError)
            ctx.count("strict_indexing", int(refused))
            return
        cls = {p[0].id: p[0] for p in C25.parts}[c["part"]]
        cls.run(c["case"], ctx)
        ctx.count(f"cases_{c['part']}")


class C26:
    id = "C26"
    minima = {"evaluations": 450, "refused": 450, "accepted_fits": 250, "without_asserts": 150, "symbolic": 20}
    rule = "distinct (misfit, configuration) observed"
    CONV = [
        "order", "order", "order_later", "order_later", "channels_later", "other_rank_later", "merged_later",
        "rank_high", "rank_low", "unknown_group", "unknown_subgroup", "foreign_subgroup", "rank_high_later",
        "divisible_channels", "divisible_filters", "padding_name", "dimensions",
    ]
    POOL = ["order", "order_later", "lift", "merged_later", "rank_high", "unknown_group", "unknown_subgroup",
            "foreign_subgroup", "padding_name"]
    ACTION = ["order", "order", "unknown_acting", "unknown_domain", "foreign_acting", "foreign_domain", "axes",
              "oblong"]
    CHECK = ["order", "target", "domain", "unknown_acting", "foreign_acting", "lift"]

    @staticmethod
    def gen(seed, tier):
        rng = rng_for("C26", seed)
        k = 1 if tier == "quick" else 8
        cases = []
        layers = mixed_cases(rng, 420 * k)
        for i, c in enumerate(layers):
            if c["kind"] == "global":
                continue
            c["misfit"] = pick(rng, C26.CONV if c["kind"] == "conv" else C26.POOL)
            cases.append(c)
        for c in B.conv_round(rng, 90 * k, groups=1):
            if rng.random() < 0.5:
                n = int(pick(rng, [2, 3]))
                c = B.conv_config(rng, c["dims"], c["group"], c["subgroup"] or c["group"], c["lift"], groups=n,
                                  cin=n * int(rng.integers(1, 3)), filters=n * int(rng.integers(1, 3)))
                c["misfit"] = pick(rng, ["divisible_channels", "divisible_filters", "order_later", "channels_later"])
            else:
                c["misfit"] = pick(rng, C26.CONV)
            cases.append(c)
        for i in range(70 * k):
            cases.append({"kind": "global", "dims": int(pick(rng, [2, 3])), "misfit": pick(rng, ["lift", "rank_high"]),
                          "data_format": pick(rng, ["channels_last", "channels_first"]),
                          "pool": pick(rng, ["Max", "Average"]), "seed": int(rng.integers(2**31))})
        for i in range(240 * k):
            cases.append({"kind": "action", "group": pick(rng, ALL), "misfit": C26.ACTION[i % len(C26.ACTION)],
                          "seed": int(rng.integers(2**31))})
        for c in B.conv_round(rng, 62 * k, padding="same_equiv", strides=1, data_format="channels_last", dilation=1,
                              kernel_size=int(pick(rng, [2, 3]))):
            c["kind2"] = "check"
            c["misfit"] = pick(rng, C26.CHECK)
            cases.append(c)
        return cases

    @staticmethod
    def must_refuse(ctx, what, fn, *a, **k):
        refused, res = ctx.refused(fn, *a, **k)
        ctx.count("refused", int(refused))
        shape = getattr(res, "shape", None)
        ctx.check(refused, f"{what} is accepted, giving {res if shape is None else tuple(shape)}"[:300])

    @staticmethod
    def foreign(rng, group):
        names = [n for n in ALL if n not in o.SUBGROUPS[group]]
        same = [n for n in names if o.DIM[n] == o.DIM[group]]
        return pick(rng, same) if same and rng.random() < 0.7 else (pick(rng, names) if names else None)

    @staticmethod
    def other_order(rng, n):
        return int(pick(rng, [v for v in (1, 2, 3, n - 1, n + 1, 2 * n, 3 * n, n // 2) if v > 0 and v != n]))

    @staticmethod
    def run(c, ctx):
        rng = rng_for(c["seed"])
        ctx.sig(c["kind"], c["misfit"], c.get("group"), c.get("subgroup"), c.get("size"), c.get("data_format"),
                c.get("lift"), c.get("transpose"), c["seed"] % 97)
        ctx.count(f"misfit_{c['misfit']}")
        if c.get("kind2") == "check":
            return C26.checker(c, ctx, rng)
        {"conv": C26.layer, "max": C26.layer, "average": C26.layer,
         "global": C26.global_, "action": C26.action}[c["kind"]](c, ctx, rng)

    @staticmethod
    def layer(c, ctx, rng):
        d, mis = c["dims"], c["misfit"]
        conv = c["kind"] == "conv"
        good = tuple(in_shape(c))
        lift = conv and c["lift"]

        def z(shape):
            return B.layout(ints(rng, shape, -3, 3), c)

        if mis in ("unknown_group", "unknown_subgroup", "foreign_subgroup", "padding_name", "dimensions"):
            bad = dict(c, style=4)  # the generic class, with names
            bad["subgroup"] = c.get("subgroup") or c["group"]
            if mis == "unknown_group":
                bad["group"] = pick(rng, ["P9", "p4", "C3", "D6"])
                bad["subgroup"] = ""
            elif mis == "dimensions":  # a group of grids of another dimension
                names = [n for n in ALL if o.DIM[n] != d and n != "P1"]
                bad["group"], bad["subgroup"] = pick(rng, names), ""
            elif mis == "unknown_subgroup":
                bad["subgroup"] = pick(rng, ["P9", "p4", "C3", "D6"])
            elif mis == "foreign_subgroup":
                bad["subgroup"] = C26.foreign(rng, c["group"])
                if bad["subgroup"] is None:
                    return
            else:
                bad["padding"] = pick(rng, ["foo", "equiv", "valid_equi", "same equiv"])

            def f():
                layer = make(bad)
                return layer(z(good if mis != "dimensions" else in_shape(bad)))

            what = {k: bad[k] for k in ("group", "subgroup", "padding")}
            return C26.must_refuse(ctx, f"{mis} {what}", f)
        if mis.startswith("divisible"):
            if not conv or c.get("transpose"):
                return
            bad = dict(c)
            if bad["groups"] == 1:
                bad["groups"] = 2
            if mis == "divisible_channels":
                bad["filters"] = bad["groups"]
                bad["cin"] = bad["groups"] * int(rng.integers(0, 3)) + int(rng.integers(1, bad["groups"]))
            else:
                bad["cin"] = bad["groups"]
                bad["filters"] = bad["groups"] * int(rng.integers(0, 3)) + int(rng.integers(1, bad["groups"]))

            def f():
                layer = make(bad)
                return layer(z(in_shape(bad)))

            return C26.must_refuse(ctx, f"{bad['cin']} channels, {bad['filters']} filters with groups={bad['groups']}", f)
        layer = ctx.call(make, c)
        if mis.endswith("_later"):
            ctx.call(layer, z(good))
            ctx.count("accepted_fits")
        bad = list(good)
        n = None if lift else good[d + 1]
        if mis in ("order", "order_later"):
            if lift:
                if mis == "order":
                    bad.insert(d + 1, C26.other_order(rng, B.domain_order(c)))
                else:
                    bad.insert(d + 1, int(rng.integers(1, 9)))
            else:
                bad[d + 1] = C26.other_order(rng, n)
        elif mis == "channels_later":
            bad[-1] = int(pick(rng, [v for v in (1, 2 * bad[-1], bad[-1] + c["groups"], bad[-1] * B.domain_order(c))
                                     if v != bad[-1]]))
        elif mis == "other_rank_later":
            if lift:
                bad.insert(d + 1, B.domain_order(c))
            else:
                del bad[d + 1]
        elif mis == "merged_later":
            if lift or n == 1:
                return
            bad = bad[: d + 1] + [n * bad[-1]]
        elif mis == "lift":
            del bad[d + 1]
        elif mis in ("rank_high", "rank_high_later"):
            bad = bad[:1] + [2] * (2 if lift else 1) + bad[1:]
        elif mis == "rank_low":
            bad = bad[:1] + bad[2 + (0 if lift else 1):]
            if len(bad) >= d + 2:
                raise AssertionError
        symbolic = mis.endswith("_later") and rng.random() < 0.3  # what a functional model would be made of
        if symbolic:
            import keras

            ctx.count("symbolic")
        what = f"{mis}: {'a symbolic' if symbolic else 'an'} input of shape {bad}, where {good} fits,"
        C26.must_refuse(ctx, what, layer, keras.Input(batch_shape=z(bad).shape) if symbolic else z(bad))
        if mis.endswith("_later"):
            ctx.call(layer, z(good))

    @staticmethod
    def global_(c, ctx, rng):
        import groco.layers as GL

        d = c["dims"]
        cls = getattr(GL, f"GlobalGroup{c['pool']}Pooling{d}D")
        good = [2] + [int(v) for v in rng.integers(1, 5, d + 2)]
        ctx.call(cls(data_format=c["data_format"]), ints(rng, good))
        ctx.count("accepted_fits")
        bad = good[:-1] if c["misfit"] == "lift" else good + [2]
        C26.must_refuse(ctx, f"global pooling of shape {bad}", cls(data_format=c["data_format"]), ints(rng, bad))

    @staticmethod
    def action(c, ctx, rng):
        from groco.groups import group_dict

        name, mis = c["group"], c["misfit"]
        g, d = group_dict[name], o.DIM[name]
        dom, act = pick(rng, o.SUBGROUPS[name]), pick(rng, o.SUBGROUPS[name])
        shape = [2] + [3] * d + [o.order(dom), 2]
        kw = dict(spatial_axes=tuple(range(1, d + 1)), group_axis=d + 1, domain_group=dom, acting_group=act)
        ctx.call(g.action, ints(rng, shape), **kw)
        ctx.count("accepted_fits")
        if mis == "order":
            shape[d + 1] = C26.other_order(rng, shape[d + 1])
        elif mis == "unknown_acting":
            kw["acting_group"] = "P9"
        elif mis == "unknown_domain":
            kw["domain_group"] = "P9"
        elif mis == "foreign_acting":
            kw["acting_group"] = C26.foreign(rng, name)
        elif mis == "foreign_domain":
            kw["domain_group"] = C26.foreign(rng, name)
        elif mis == "axes":
            kw["spatial_axes"] = tuple(range(1, d)) + (len(shape) + 1,)
            if name == "P1" or (name == "PMh"):
                return
        elif mis == "oblong":
            classes = [0] * d if d == 3 else o.mixed_axes(name)
            if d == 3 or len(set(classes)) == d:
                return
            shape[2] = 4
        if kw["acting_group"] is None or kw["domain_group"] is None:
            return
        C26.must_refuse(ctx, f"{mis}: acting with {name} on shape {shape} with {kw}", g.action, ints(rng, shape), **kw)

    @staticmethod
    def checker(c, ctx, rng):
        from groco.utils import check_equivariance

        d, mis = c["dims"], c["misfit"]
        if c["lift"]:
            return
        size = [max(c["size"])] * d
        layer = ctx.call(make, c)
        x = ints(rng, in_shape(c, None, size), -3, 3)
        acting = c["subgroup"] or c["group"]
        kw = dict(spatial_axes=tuple(range(1, d + 1)), group_axis=d + 1, acting_group=acting, target_group=acting)
        ctx.call(check_equivariance, layer, x, **kw)
        ctx.count("accepted_fits")
        n = o.order(c["group"])
        if mis == "order":
            x = ints(rng, x.shape[: d + 1] + (C26.other_order(rng, n), x.shape[-1]))
        elif mis in ("target", "domain"):
            names = [s for s in o.SUBGROUPS[c["group"]] if o.order(s) != o.order(acting if mis == "target" else c["group"])]
            if not names:
                return
            kw[mis + "_group"] = pick(rng, names)
        elif mis == "unknown_acting":
            kw["acting_group"] = "P9"
        elif mis == "foreign_acting":
            kw["acting_group"] = C26.foreign(rng, c["group"])
            if kw["acting_group"] is None:
                return
        elif mis == "lift":
            x = x[..., 0, :]
            if n == x.shape[-1]:
                return
        C26.must_refuse(ctx, f"{mis}: checking equivariance of shape {x.shape} with {kw}", check_equivariance, layer, x, **kw)


class C27:
    id = "C27"
    minima = {"evaluations": 300, "equivariant": 40, "not_equivariant": 80, "subtle": 40, "real_layers": 40, "not_finite": 8, "extreme": 25}
    rule = "distinct (group, acting, domain, target, axes, kind of function) checked"

    @staticmethod
    def gen(seed, tier):
        rng = rng_for("C27", seed)
        k = 1 if tier == "quick" else 8
        cases = []
        combos = [(g, a) for g in ALL for a in o.SUBGROUPS[g]]
        for i in range(270 * k):
            g, acting = combos[i % len(combos)]
            dom = pick(rng, o.SUBGROUPS[g] + [None, g, g])
            target = pick(rng, o.SUBGROUPS[g] + [None, g, g])
            kind = pick(rng, ["random", "subtle", "mask", "pointwise", "nan"], [0.32, 0.28, 0.15, 0.17, 0.08])
            if kind in ("subtle", "nan", "pointwise"):
                target = dom
            cases.append({"what": "function", "group": g, "acting": acting, "domain": dom, "target": target,
                          "fn": kind, "n": int(rng.integers(2, 5)), "batch": int(rng.integers(1, 4)),
                          "c": int(rng.integers(1, 3)), "seed": int(rng.integers(2**31))})
        for i, c in enumerate(B.conv_round(rng, 90 * k, activation=None, data_format="channels_last")):
            if i % 3 == 0:
                try:
                    c = B.conv_config(rng, c["dims"], c["group"], c["subgroup"] or c["group"], c["lift"], allow=True,
                                      padding="same", strides=2, data_format="channels_last", activation=None)
                except RuntimeError:
                    pass
            c["what"] = "layer"
            cases.append(c)
        return cases

    @staticmethod
    def brute(f, x, group, axes, ga, acting, domain, target):
        y = f(x)
        worst = 0.0
        for g in o.sub_indices(group, acting):
            m = o.ELEMENTS[group][g]
            gx = o.act_grid(m, x, axes) if domain is None else o.act_group_one(group, g, x, axes, ga, domain)
            gy = o.act_grid(m, y, axes) if target is None else o.act_group_one(group, g, y, axes, ga, target)
            worst = max(worst, float(np.abs(f(gx) - gy).max(initial=0)))
        return worst

    @staticmethod
    def run(c, ctx):
        from groco.utils import check_equivariance
        from groco.groups import group_dict

        rng = rng_for(c["seed"])
        if c["what"] == "layer":
            return C27.layer(c, ctx, rng)
        name = c["group"]
        g, d = group_dict[name], o.DIM[name]
        dom, target = c["domain"], c["target"]
        n, ch = c["n"], c["c"]
        # positions of the spatial, group and channel axes, the batch axis is first
        free = dom is not None and target is not None
        order = ["s"] * d + ["g", "c"]
        if free:
            order = [order[int(i)] for i in rng.permutation(d + 2)]
        elif rng.random() < 0.4:
            order = ["s"] * d + ["c", "g"]
            if rng.random() < 0.5:
                order = ["c"] + ["s"] * d + ["g"]
        names = ["b"] + order
        axes = [i for i, v in enumerate(names) if v == "s"]
        ga = names.index("g")
        nd, nt = (o.order(dom) if dom else 1), (o.order(target) if target else 1)
        W = rng.integers(-3, 4, size=(nt, nd)).astype("float32")
        M = rng.integers(-3, 4, size=(n,) * d).astype("float32")
        if c["fn"] == "mask":  # a symmetric mask can only break equivariance through W
            M = np.ones((n,) * d, "float32")
        if c["fn"] in ("subtle", "nan", "pointwise"):
            W = np.eye(nt, dtype="float32")
            M = np.ones((n,) * d, "float32")
        spot = tuple(int(v) for v in rng.integers(0, n, d))
        el = int(rng.integers(nt))
        bump = int(rng.integers(1, 4)) * (1 if rng.random() < 0.5 else -1)
        if c["fn"] == "nan":
            bump = pick(rng, [np.nan, np.inf, -np.inf])
        unit = np.float32(pick(rng, [1, 1 / 64, 1000]))
        if c["fn"] in ("random", "mask", "subtle") and rng.random() < 0.25:
            # deviations of any size are deviations
            unit = np.float32(2.0 ** int(pick(rng, [-100, -80, 70, 90])))
            bump = float(bump * unit)
            ctx.count("extreme")

        def f(x):
            x = np.asarray(x)
            if dom is None:
                x = np.expand_dims(x, ga)
            x = np.moveaxis(x, axes + [ga], list(range(1, d + 2)))  # b *s g c
            y = np.einsum("th,b...hc->b...tc", W, x)
            y = y * M.reshape((1,) + M.shape + (1, 1))
            if c["fn"] in ("subtle", "nan"):
                y = y.copy()
                y[(slice(None),) + spot + (el,)] += bump
            if c["fn"] == "pointwise":
                y = y * y - 3 * y
            y = np.moveaxis(y, list(range(1, d + 2)), axes + [ga])
            if target is None:
                y = np.squeeze(y, ga)
            return y

        shape = {"b": c["batch"], "s": n, "g": nd, "c": ch}
        x = ints(rng, [shape[v] for v in names if not (v == "g" and dom is None)], -4, 4) * unit
        want = C27.brute(f, x, name, axes, ga, c["acting"], dom, target)

        def arg(v):
            return "" if v == name and rng.random() < 0.5 else v

        neg = free and rng.random() < 0.3
        ga_arg = ga - len(names) if neg else ga
        if dom is None and target is None and rng.random() < 0.5:
            ga_arg = None
        import jax.numpy as jnp

        def layer(v):
            return jnp.asarray(f(v))

        got = ctx.call(check_equivariance, layer, x, group=g, spatial_axes=tuple(axes), group_axis=ga_arg,
                       acting_group=arg(c["acting"]), domain_group=arg(dom), target_group=arg(target))
        if c["fn"] == "nan":
            # undefined values somewhere are never reported as equivariant
            ctx.check(not np.isfinite(np.asarray(got)).all(), f"deviation {got} of a function with output {bump}")
            ctx.count("not_finite")
            return
        ctx.check(np.shape(got) == (), f"the deviation has shape {np.shape(got)}")
        scale = abs(want) or float(unit)
        ctx.eq(np.max(np.asarray(got)) / scale, want / scale, f"deviation of a {c['fn']} function", 1e-6)
        ctx.count("equivariant" if want == 0 else "not_equivariant")
        ctx.count("subtle", int(c["fn"] == "subtle"))
        ctx.sig(name, c["acting"], dom, target, names, c["fn"])

    @staticmethod
    def layer(c, ctx, rng):
        from groco.utils import check_equivariance

        d, name = c["dims"], c["group"]
        layer = ctx.call(make, c)
        classes = o.mixed_axes(name) if d == 2 else [0] * 3
        if any(c["size"][i] != c["size"][j] for i in range(d) for j in range(d) if classes[i] == classes[j]):
            c = dict(c, size=[c["size"][0]] * d)
            try:
                if min(B.out_sizes(c)) < 1:
                    return
            except o.Refuse:
                return
        c = dict(c, values="small")
        x = B.make_input(c, rng, lo=-4, hi=4)
        ctx.call(layer.build, x.shape)
        kernel, bias = B.set_weights(layer, c, rng, -3, 3)
        acting = c["subgroup"] or name
        dom = None if c["lift"] else name
        axes = tuple(range(1, d + 1))
        out = o.conv(x, kernel, bias, c).shape[1 : 1 + d]
        if any(out[i] != out[j] for i in range(d) for j in range(d) if classes[i] == classes[j]):
            return
        want = C27.brute(lambda v: o.conv(v, kernel, bias, c), x, name, axes, d + 1, acting, dom, acting)
        got = ctx.call(check_equivariance, layer, x, spatial_axes=axes, group_axis=d + 1, acting_group=acting,
                       domain_group=dom, target_group=acting)
        ctx.eq(np.asarray(got), want, "deviation of a convolution")
        ctx.count("real_layers")
        ctx.count("equivariant" if want == 0 else "not_equivariant")
        ctx.sig(*[c.get(k) for k in ("group", "subgroup", "lift", "kernel_size", "strides", "size", "padding")])


class C32:
    """Cases of other checks in processes that are started and configured in other ways."""

    id = "C32"
    minima = {"processes": 20, "cases": 300, "evaluations": 600, "values": 40000, "double": 60}
    rule = "distinct (configuration of the process, first import) under which cases were observed"
    FIRST = [
        "", "import groco", "import groco.layers", "import groco.groups", "import groco.utils",
        "from groco.layers import GroupConv2D", "from groco.layers import *", "from groco.utils import *",
        "from groco.groups import Group, group_dict", "from groco.utils import check_equivariance",
        "import groco.layers.pooling", "import groco.layers.padding", "from groco.layers.conv3d import GroupConv3D",
        "import groco.groups.space_groups", "import groco.groups.wallpaper_groups",
        "from groco.layers import GlobalGroupMaxPooling2D, GroupConv3DTranspose",
    ]
    PARTS = ["C03", "C04", "C05", "C07", "C07", "C10", "C12", "C13", "C16", "C17", "C18", "C19", "C26"]

    @staticmethod
    def gen(seed, tier):
        from rv.registry import PROPS

        rng = rng_for("C32", seed)
        pool = {}
        for p in set(C32.PARTS):
            own = PROPS[p].gen(f"process {seed}", "quick")
            pool[p] = [own[int(i)] for i in rng.permutation(len(own))]
        for p in ("C07", "C10", "C16"):  # their cost
            pool[p] = [c for c in pool[p] if np.prod(c["size"]) * c["batch"] < 5000]
        double = [c for c in mixed_cases(rng, 300) if np.prod(c["size"]) * c["batch"] < 3000]
        cases = []
        for i in range(26 if tier == "quick" else 150):
            env, flags = {}, []
            kind = ["seed", "O", "x64", "nojit", "plain", "threads", "x64", "rank"][i % 8]
            if kind == "x64":
                env["JAX_ENABLE_X64"] = "1"
            elif kind == "nojit":
                env["JAX_DISABLE_JIT"] = "1"
            elif kind == "threads":
                env["XLA_FLAGS"] = "--xla_cpu_multi_thread_eigen=true"
            elif kind == "rank":
                env["JAX_NUMPY_RANK_PROMOTION"] = "raise"
            elif kind == "O":
                flags = ["-O"]
            env["PYTHONHASHSEED"] = str(int(rng.integers(1, 2**31)))
            if rng.random() < 0.3:
                env.update(LC_ALL="C", LANG="C")
            some = []
            for p in C32.PARTS:
                if pool[p]:
                    some.append([p, pool[p].pop()])
                else:
                    pool[p] = list(PROPS[p].gen(f"process {seed} {i}", "quick"))
            c = {"kind": kind, "env": env, "flags": flags, "first": pick(rng, C32.FIRST), "cases": some}
            if kind == "x64":
                c["double"] = [double.pop() for _ in range(24) if double]
            cases.append(c)
        return cases

    @staticmethod
    def run(c, ctx):
        import json
        import os
        import shutil
        import subprocess
        import sys
        import tempfile

        here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        scratch = tempfile.mkdtemp(dir=os.environ["RV_SCRATCH"])
        try:
            spec, result = os.path.join(scratch, "spec"), os.path.join(scratch, "result")
            with open(spec, "w") as fh:
                json.dump(dict(c, seconds=100), fh)
            env = {k: v for k, v in os.environ.items() if k not in ("XLA_FLAGS", "PYTHONHASHSEED")}
            env.update(c["env"], RV_SCRATCH=scratch, PYTHONPATH=here, PYTHONDONTWRITEBYTECODE="1")
            cmd = [sys.executable, *c["flags"], os.path.join(here, "rv", "sub.py"), spec, result]
            try:
                p = subprocess.run(cmd, env=env, cwd=scratch, capture_output=True, text=True, timeout=300)
            except subprocess.TimeoutExpired:
                raise RuntimeError("process took too long")
            ctx.count("processes")
            tag = f"{c['kind']}, {' '.join(c['flags'])} {c['env']} starting with '{c['first']}'"
            if not os.path.exists(result):
                where = [line for line in p.stderr.splitlines() if line.strip().startswith('File "')]
                if where and "/groco/" in where[-1]:
                    ctx.check(False, f"{tag}: {p.stderr[-400:]}")
                    return
                raise RuntimeError(p.stderr[-1500:])
            with open(result) as fh:
                r = json.load(fh)
            for k, v in r["counts"].items():
                if k in ("evaluations", "values", "double"):
                    ctx.count(k, v)
            ctx.count("cases", r["done"])
            ctx.count(c["kind"])
            ctx.sig(c["kind"], c["flags"], c["first"], c["env"])
            for prop, msg in r["violations"]:
                ctx.fail(f"{tag}: {prop}: {msg}")
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
