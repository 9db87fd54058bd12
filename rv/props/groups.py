"""C01-C05, C28: the groups and their actions."""
import itertools

import numpy as np

from rv import oracle as o
from rv.core import ints, pick, rng_for

ALL = o.NAMES[2] + o.NAMES[3]


def _np(t):
    return np.asarray(t)


def _group(name):
    from groco.groups import group_dict

    return group_dict[name]


def signal(rng, shape, dtype="float32"):
    if dtype == "bool":
        return rng.integers(0, 2, shape).astype(bool)
    lo, hi = (0, 200) if dtype.startswith("uint") else (-100, 100)
    if dtype.startswith("float") and rng.random() < 0.12:  # what is not finite moves as well, and stays where it is
        x = rng.integers(lo, hi, shape).astype(dtype)
        x[rng.random(x.shape) < 0.3] = pick(rng, [np.nan, np.inf, -np.inf])
        return x
    if rng.random() < 0.5:  # values that are exact in this format only
        if dtype == "float32":
            return rng.normal(size=shape).astype(dtype) * np.float32(10.0) ** int(rng.integers(-6, 7))
        if dtype == "float16":
            return rng.normal(size=shape).astype(dtype)
        if dtype in ("int32", "int16", "int8", "uint16", "uint32"):
            return rng.integers(np.iinfo(dtype).min, np.iinfo(dtype).max, shape).astype(dtype)
        if dtype == "uint8":
            return rng.integers(0, 256, shape).astype(dtype)
    return rng.integers(lo, hi, shape).astype(dtype)


class C01:
    id = "C01"
    minima = {"elements": 140, "evaluations": 300}
    rule = "distinct (group, element, grid size) observed against the pinned isometry"

    @staticmethod
    def gen(seed, tier):
        rng = rng_for("C01", seed)
        cases = [{"what": "dict"}]
        for g in ALL:
            sizes = [1, 2, 3, 4, 5] + [int(v) for v in rng.integers(6, 12, 2 if tier == "quick" else 6)]
            sizes += [int(v) for v in rng.integers(12, 70, 2)] + [128]
            if o.DIM[g] == 3:
                sizes = sizes[:4] + [6] + [int(v) for v in rng.integers(5, 20, 1 if tier == "quick" else 4)]
            for n in sizes:
                cases.append({"what": "elements", "group": g, "n": n, "seed": int(rng.integers(2**31))})
            cases.append({"what": "layers", "group": g, "seed": int(rng.integers(2**31))})
        return cases

    @staticmethod
    def run(c, ctx):
        from groco.groups import group_dict, space_groups, wallpaper_groups

        if c["what"] == "dict":
            ctx.check(set(ALL) <= set(group_dict), f"groups missing: {set(ALL) - set(group_dict)}")
            for name in ALL:
                mod = wallpaper_groups if o.DIM[name] == 2 else space_groups
                ctx.check(getattr(mod, name) is group_dict[name], f"{name}: two different objects")
                ctx.check(group_dict[name].name == name, f"{name} is named {group_dict[name].name}")
                ctx.check(int(group_dict[name].order) == o.order(name), f"order of {name}")
            return
        name = c["group"]
        g = _group(name)
        d = o.DIM[name]
        rng = rng_for(c["seed"])
        if c["what"] == "layers":
            # what the layers know as this group is the same set of symmetries: lift with a kernel of
            # size 3 and read the transformed kernels off the response to an impulse
            import groco.layers as GL

            k = 3
            kernel = rng.permutation(k**d).reshape((k,) * d + (1, 1)).astype("float32")
            x = np.zeros((1,) + (2 * k - 1,) * d + (1,), "float32")
            x[(0,) + (k - 1,) * d] = 1
            makers = [lambda: getattr(GL, f"GroupConv{d}D")(group=name, kernel_size=k, filters=1)]
            makers.append(lambda: getattr(GL, f"GroupConv{d}D")(group=g, kernel_size=k, filters=1))
            if hasattr(GL, f"{name}Conv{d}D"):
                p = getattr(GL, f"{name}Conv{d}D")
                makers.append(lambda: p(kernel_size=k, filters=1))
            for mk in makers:
                layer = ctx.call(mk)
                ctx.call(layer.build, x.shape)
                layer.set_weights([kernel, np.zeros(1, "float32")])
                y = _np(ctx.call(layer, x))[0, ..., 0]
                for i in range(o.order(name)):
                    want = np.flip(o.act_grid(o.ELEMENTS[name][i], kernel[..., 0, 0], range(d)))
                    ctx.eq(y[..., i], want, f"{name}[{i}] as used by a lifting convolution")
                    ctx.count("elements")
            ctx.sig(name, "layers")
            return
        n = c["n"]
        s = rng.permutation(n**d).reshape((1,) + (n,) * d + (1,)).astype("float32")
        axes = tuple(range(1, d + 1))
        out = _np(ctx.call(g.action, s, spatial_axes=axes, new_group_axis=0, domain_group=None))
        ctx.check(out.shape[0] == o.order(name), f"{name}: {out.shape[0]} elements acted")
        for i in range(min(o.order(name), out.shape[0])):
            ctx.eq(
                out[i],
                o.act_grid(o.ELEMENTS[name][i], s, axes),
                f"element {i} of {name} on a grid of size {n}",
            )
            ctx.count("elements")
            ctx.sig(name, i, n)
        if n >= 3:
            distinct = len({out[i].tobytes() for i in range(out.shape[0])})
            ctx.check(distinct == o.order(name), f"{name}: only {distinct} distinct elements")


class C02:
    id = "C02"
    minima = {"pairs": 2000, "triples": 100000}
    rule = "distinct (group, g, h) products observed through the action and compared to the table"

    @staticmethod
    def gen(seed, tier):
        rng = rng_for("C02", seed)
        reps = 2 if tier == "quick" else 8
        return [
            {"group": g, "n": int(rng.integers(3, 7 if o.DIM[g] == 2 else 5)), "seed": int(rng.integers(2**31))}
            for g in ALL
            for _ in range(reps)
        ]

    @staticmethod
    def run(c, ctx):
        name, n = c["group"], c["n"]
        g, d = _group(name), o.DIM[name]
        order = o.order(name)
        rng = rng_for(c["seed"])
        comp = _np(g.composition).astype(int)
        inv = _np(g.inverses).astype(int)
        if not ctx.check(comp.shape == (order, order), f"{name}: composition has shape {comp.shape}"):
            return
        ctx.check(inv.shape == (order,), f"{name}: inverses have shape {inv.shape}")
        ctx.check(comp.min() >= 0 and comp.max() < order, f"{name}: composition out of range")
        ctx.check((comp[0] == np.arange(order)).all(), f"{name}: element 0 is not a left identity")
        ctx.check((comp[:, 0] == np.arange(order)).all(), f"{name}: element 0 is not a right identity")
        for i in range(order):
            ok = comp[i, inv[i]] == 0 and comp[inv[i], i] == 0
            ctx.check(ok, f"{name}: inverse of {i} is not {inv[i]}")
        # associativity, all triples
        left = comp[comp]  # [i,j,k] = (ij)k
        right = comp[:, comp]  # [i,j,k] = i(jk)
        ctx.check((left == right).all(), f"{name}: composition is not associative")
        ctx.count("triples", order**3)
        for r in range(order):
            ok = len(set(comp[r])) == order and len(set(comp[:, r])) == order
            ctx.check(ok, f"{name}: row or column {r} of the composition is not a permutation")
        # the action is a homomorphism with this table
        axes = tuple(range(d))
        s = rng.permutation(n**d).reshape((n,) * d).astype("float32")
        one = _np(ctx.call(g.action, s, spatial_axes=axes, new_group_axis=0, domain_group=None))
        axes2 = tuple(range(1, d + 1))
        # two[g, h] = g . (h . s)
        two = _np(ctx.call(g.action, one, spatial_axes=axes2, new_group_axis=0, domain_group=None))
        for a in range(order):
            for b in range(order):
                ctx.count("pairs")
                same = np.array_equal(two[a, b], one[comp[a, b]])
                ctx.check(same, f"{name}: acting with {b}, then {a} is not acting with {comp[a, b]}")
                ctx.sig(name, a, b)
            ctx.check(
                np.array_equal(two[inv[a], a], s), f"{name}: acting with {a} is not undone by {inv[a]}"
            )


class C03:
    id = "C03"
    minima = {"evaluations": 400, "values": 10000}
    rule = "distinct (group, acting subgroup, rank, spatial axes, new axis, dtype) of observed actions"

    @staticmethod
    def gen(seed, tier):
        rng = rng_for("C03", seed)
        n = 480 if tier == "quick" else 4000
        combos = [(g, s) for g in ALL for s in o.SUBGROUPS[g]]
        cases = []
        for i in range(n):
            g, sub = combos[i % len(combos)]
            d = o.DIM[g]
            rank = int(rng.integers(d, 7 if d == 2 else 6))
            axes = [int(a) for a in rng.permutation(rank)[:d]]
            if rng.random() < 0.35:
                axes = sorted(axes)
            m = int(rng.integers(1, 6))
            shape = [int(v) for v in rng.integers(1, 4, rank)]
            cls = o.mixed_axes(g) if d == 2 else [0] * 3
            per = {k: int(rng.integers(1, 6 if d == 2 else 4)) for k in set(cls)}
            for a, k in zip(axes, cls):
                shape[a] = per[k]
            neg = rng.random(d) < 0.25
            new = int(rng.integers(-(rank + 1), rank + 1))
            cases.append(
                {
                    "group": g,
                    "acting": sub,
                    "acting_arg": "" if sub == g and rng.random() < 0.5 else sub,
                    "shape": shape,
                    "axes": [a - rank if f else a for a, f in zip(axes, neg)],
                    "new": new,
                    "dtype": pick(rng, ["float32", "int32", "bool", "float16", "uint8", "bfloat16",
                                        "int8", "uint16", "uint32"],
                                  [0.46, 0.12, 0.1, 0.08, 0.08, 0.05, 0.05, 0.03, 0.03]),
                    "seed": int(rng.integers(2**31)),
                }
            )
        return cases

    @staticmethod
    def run(c, ctx):
        from keras import ops

        g = _group(c["group"])
        rng = rng_for(c["seed"])
        dtype = c["dtype"]
        if dtype == "bfloat16":
            s = ints(rng, c["shape"], -100, 100)
            arg = ops.cast(s, "bfloat16")
        else:
            s = signal(rng, c["shape"], dtype)
            arg = s.copy()
        out = ctx.call(
            g.action,
            arg,
            spatial_axes=tuple(c["axes"]),
            new_group_axis=c["new"],
            acting_group=c["acting_arg"],
            domain_group=None,
        )
        ctx.check(
            str(_np(out).dtype) == dtype,
            f"dtype {out.dtype} for a {dtype} signal",
        )
        new = c["new"] if c["new"] >= 0 else c["new"] + len(c["shape"]) + 1
        want = np.stack(o.act_grid_all(c["group"], s, c["axes"], c["acting"]), axis=new)
        got = _np(ops.cast(out, "float32")) if dtype == "bfloat16" else _np(out)
        ctx.eq(got, want, "action on a grid signal")
        if dtype != "bfloat16":
            ctx.check(np.array_equal(arg, s, equal_nan=s.dtype.kind in "fc"), "the signal itself was modified")
        ctx.sig(c["group"], c["acting"], c["axes"], c["new"], dtype)


class C04:
    id = "C04"
    minima = {"evaluations": 400, "values": 10000, "zero_extended": 60}
    rule = "distinct (group, acting, domain, group axis, spatial axes, new axis) of observed actions"

    @staticmethod
    def gen(seed, tier):
        rng = rng_for("C04", seed)
        n = 480 if tier == "quick" else 4000
        combos = [(g, a, b) for g in ALL for a in o.SUBGROUPS[g] for b in o.SUBGROUPS[g]]
        start = int(rng.integers(len(combos)))
        cases = []
        for i in range(n):
            g, acting, domain = combos[(start + i) % len(combos)]
            d = o.DIM[g]
            rank = int(rng.integers(d + 1, 6 if d == 2 else 6))
            perm = [int(a) for a in rng.permutation(rank)]
            axes, ga = perm[:d], perm[d]
            if rng.random() < 0.4:
                axes = sorted(axes)
            shape = [int(v) for v in rng.integers(1, 3, rank)]
            cls = o.mixed_axes(g) if d == 2 else [0] * 3
            per = {k: int(rng.integers(1, 5 if d == 2 else 3)) for k in set(cls)}
            for a, k in zip(axes, cls):
                shape[a] = per[k]
            shape[ga] = o.order(domain)
            cases.append(
                {
                    "group": g,
                    "acting": acting,
                    "acting_arg": "" if acting == g and rng.random() < 0.5 else acting,
                    "domain": domain,
                    "domain_arg": "" if domain == g and rng.random() < 0.5 else domain,
                    "shape": shape,
                    "axes": [a - rank if rng.random() < 0.2 else a for a in axes],
                    "ga": ga - rank if rng.random() < 0.25 else ga,
                    "new": int(rng.integers(-(rank + 1), rank + 1)),
                    "dtype": pick(rng, ["float32", "int32", "bool", "float16", "uint8", "int16",
                                        "int8", "uint16", "uint32"],
                                  [0.46, 0.12, 0.1, 0.08, 0.08, 0.05, 0.05, 0.03, 0.03]),
                    "seed": int(rng.integers(2**31)),
                }
            )
        return cases

    @staticmethod
    def run(c, ctx):
        g = _group(c["group"])
        rng = rng_for(c["seed"])
        s = signal(rng, c["shape"], c["dtype"])
        arg = s.copy()
        out = ctx.call(
            g.action,
            arg,
            spatial_axes=tuple(c["axes"]),
            group_axis=c["ga"],
            new_group_axis=c["new"],
            acting_group=c["acting_arg"],
            domain_group=c["domain_arg"],
        )
        got = str(_np(out).dtype)
        ctx.check(got == c["dtype"], f"dtype {got} for a {c['dtype']} signal")
        out = _np(out)
        new = c["new"] if c["new"] >= 0 else c["new"] + len(c["shape"]) + 1
        acted = o.act_group_all(c["group"], s, c["axes"], c["ga"], c["acting"], c["domain"])
        ctx.eq(out, np.stack(acted, axis=new), "action on a group signal")
        ctx.check(np.array_equal(arg, s, equal_nan=s.dtype.kind in "fc"), "the signal itself was modified")
        if c["domain"] != c["group"]:
            ctx.count("zero_extended")
        ctx.sig(c["group"], c["acting"], c["domain"], c["ga"], c["axes"], c["new"])
        # acting twice through the real code composes, on the full group
        if c["domain"] == c["group"] and c["acting"] == c["group"] and s.size * o.order(c["group"]) ** 2 < 2e6:
            comp = _np(g.composition).astype(int)
            rank = len(c["shape"])
            axes = [a % rank + 1 for a in c["axes"]]
            one = _np(ctx.call(g.action, s, spatial_axes=tuple(a % rank for a in c["axes"]),
                               group_axis=c["ga"] % rank, new_group_axis=0))
            two = _np(ctx.call(g.action, one, spatial_axes=tuple(axes), group_axis=c["ga"] % rank + 1,
                               new_group_axis=0))
            ctx.check(
                np.array_equal(two, one[comp], equal_nan=s.dtype.kind in "fc"), "acting twice on a group signal does not compose"
            )
            ctx.check(np.array_equal(one[0], s, equal_nan=s.dtype.kind in "fc"), "the identity changes a group signal")


class C05:
    id = "C05"
    minima = {"evaluations": 150, "derived": 25}
    rule = "distinct (group, subgroup) relations observed"

    @staticmethod
    def gen(seed, tier):
        rng = rng_for("C05", seed)
        cases = []
        for g in ALL:
            cases.append({"what": "tables", "group": g})
            for s in o.SUBGROUPS[g]:
                cases.append({"what": "derived", "group": g, "sub": s, "seed": int(rng.integers(2**31))})
            for s in o.SUBGROUPS[g]:
                for _ in range(2 if tier == "quick" else 10):
                    cases.append(
                        {"what": "upsample", "group": g, "sub": s, "seed": int(rng.integers(2**31))}
                    )
        return cases

    @staticmethod
    def run(c, ctx):
        name = c["group"]
        g, d = _group(name), o.DIM[name]
        order = o.order(name)
        if c["what"] == "tables":
            ctx.check(set(g.subgroup) == set(g.cosets), f"{name}: subgroups without cosets")
            for sub in o.SUBGROUPS[name]:
                ctx.check(sub in g.subgroup, f"{sub} is not listed as a subgroup of {name}")
            comp = _np(g.composition).astype(int)
            for sub, idx in g.subgroup.items():
                idx = [int(i) for i in idx]
                want = o.sub_indices(name, sub) if sub in o.ELEMENTS else None
                ctx.check(want is not None, f"{sub} is listed as a subgroup of {name}, it is not one")
                if want is None:
                    continue
                ctx.check(idx == want, f"{name}: elements of {sub} are {idx}, expected {want}")
                closed = {int(comp[a, b]) for a in idx for b in idx} == set(idx)
                ctx.check(closed, f"{name}: subgroup {sub} is not closed")
                inner = _np(_group(sub).composition).astype(int)
                agree = all(
                    comp[idx[a], idx[b]] == idx[inner[a, b]]
                    for a in range(len(idx))
                    for b in range(len(idx))
                )
                ctx.check(agree, f"composition of {sub} is not the one it inherits from {name}")
                reps = [int(i) for i in g.cosets.get(sub, [])]
                prods = sorted(int(comp[h, r]) for h in idx for r in reps)
                ctx.check(
                    prods == list(range(order)),
                    f"{name}: cosets {reps} of {sub} do not partition the group",
                )
                ctx.check(0 in reps, f"{name}: identity is not a coset representative of {sub}")
                ctx.sig(name, sub)
            return
        if c["what"] == "derived":
            return C05.derived(c, ctx)
        # acting with a subgroup by name equals the group of that name acting itself; zero-extension
        sub = c["sub"]
        rng = rng_for(c["seed"])
        n = 3
        s = ints(rng, (2,) + (n,) * d + (2,), -99, 99)
        axes = tuple(range(1, d + 1))
        a = _np(ctx.call(g.action, s, spatial_axes=axes, acting_group=sub, domain_group=None))
        b = _np(ctx.call(_group(sub).action, s, spatial_axes=axes, domain_group=None))
        ctx.eq(a, b, f"acting with {sub} within {name} and by itself")
        x = ints(rng, (2,) + (n,) * d + (o.order(sub), 2), -99, 99)
        ga = d + 1
        if rng.random() < 0.4:
            ga = -2
        up = _np(ctx.call(g.upsample, x, ga, sub))
        want = np.zeros((2,) + (n,) * d + (order, 2), "float32")
        want[..., o.sub_indices(name, sub), :] = x
        ctx.eq(up, want, f"zero-extension of a signal on {sub} to {name}")
        # a signal on the subgroup transforms the same within the group as by itself
        in_g = _np(
            ctx.call(g.action, x, spatial_axes=axes, group_axis=d + 1, acting_group=sub, domain_group=sub)
        )
        own = _np(ctx.call(_group(sub).action, x, spatial_axes=axes, group_axis=d + 1))
        ctx.eq(in_g, own, f"signal on {sub} acted on within {name} and by itself")
        ctx.sig(name, sub, "signal")


    @staticmethod
    def derived(c, ctx):
        """A group that is derived from its parent is the named one, with all that follows from it."""
        from groco.groups import Group

        name, sub = c["group"], c["sub"]
        d, n = o.DIM[name], o.order(sub)
        rng = rng_for(c["seed"])
        g = ctx.call(Group, name=sub, order=n, parent=_group(name))
        ctx.check(_np(g.composition).tolist() == _np(_group(sub).composition).tolist(), f"composition of {sub} from {name}")
        inv = [int(i) for i in g.inverses]
        ctx.check(inv == [int(i) for i in _group(sub).inverses], f"inverses of {sub} derived from {name}")
        comp = _np(g.composition).astype(int)
        s = ints(rng, (3,) * d + (2,), -99, 99)
        got = _np(ctx.call(g.action, s, spatial_axes=tuple(range(d)), new_group_axis=0, domain_group=None))
        ctx.eq(got, np.stack(o.act_grid_all(sub, s, range(d), sub)), f"action of {sub} derived from {name}")
        want = {k for k in _group(name).subgroup if set(o.sub_indices(name, k)) <= set(o.sub_indices(name, sub))}
        ctx.check(set(g.subgroup) == want == set(g.cosets), f"subgroups of {sub} derived from {name}: {set(g.subgroup)}")
        for k in sorted(want):
            idx = [int(i) for i in g.subgroup[k]]
            ctx.check(idx == o.sub_indices(sub, k), f"{k} in {sub} derived from {name}: {idx}")
            prods = sorted(int(comp[h, r]) for h in idx for r in g.cosets[k])
            ctx.check(prods == list(range(n)), f"cosets of {k} in {sub} derived from {name}: {g.cosets[k]}")
            x = ints(rng, (3,) * d + (o.order(k), 2), -99, 99)
            got = _np(ctx.call(g.action, x, spatial_axes=tuple(range(d)), group_axis=d, new_group_axis=0, domain_group=k))
            want_x = np.stack(o.act_group_all(sub, x, range(d), d, sub, k))
            ctx.eq(got, want_x, f"{sub} derived from {name} acting on a signal on {k}")
        ctx.count("derived")
        ctx.sig("derived", name, sub)


class C28:
    id = "C28"
    minima = {"evaluations": 400}
    rule = "distinct (operation, shape, axes) of observed axis manipulations"

    @staticmethod
    def gen(seed, tier):
        rng = rng_for("C28", seed)
        n = 500 if tier == "quick" else 5000
        cases = []
        for i in range(n):
            rank = int(rng.integers(2, 7))
            op = ["move", "merge", "split", "index", "merge_shapes", "split_shapes", "roundtrip", "unknown"][i % 8]
            a, b = [int(v) for v in rng.permutation(rank)[:2]]
            if op == "move" and rng.random() < 0.15:
                b = a
            sa, sb = [v - rank if rng.random() < 0.4 else v for v in (a, b)]
            shape = [int(v) for v in rng.integers(1, 5, rank)]
            cases.append(
                {"op": op, "shape": shape, "a": sa, "b": sb, "f": int(rng.integers(1, 5)),
                 "seed": int(rng.integers(2**31))}
            )
        return cases

    @staticmethod
    def run(c, ctx):
        import keras
        from groco import utils
        from keras import ops

        shape, a, b, f = c["shape"], c["a"], c["b"], c["f"]
        rank = len(shape)
        na, nb = a % rank, b % rank
        rest = [i for i in range(rank) if i != na]
        pos = na if na == nb else rest.index(nb)  # to the left of itself: it stays
        moved_axes = rest[:pos] + [na] + rest[pos:]
        rng = rng_for(c["seed"])
        ctx.sig(c["op"], shape, a, b)
        if c["op"] == "unknown":
            # unknown batch size, as in symbolic calls; the batch axis keeps its place
            if 0 in (na, nb):
                return
            sym = keras.KerasTensor([None] + shape[1:])
            moved = [([None] + shape[1:])[i] for i in moved_axes]
            merged = tuple(moved[:pos] + [moved[pos] * moved[pos + 1]] + moved[pos + 2 :])
            got = ctx.call(utils.merge_axes, sym, a, b)
            ctx.check(tuple(got.shape) == merged, f"merged symbolic shape {got.shape}, expected {merged}")
            back = ctx.call(utils.split_axes, got, shape[na], pos)
            ctx.check(tuple(back.shape) == tuple(moved), f"split symbolic shape {back.shape}, expected {moved}")
        elif c["op"] in ("move", "merge", "merge_shapes", "roundtrip"):
            t = rng.permutation(int(np.prod(shape))).reshape(shape).astype("float32")
            moved = np.transpose(t, moved_axes)
            merged_shape = None
            if na != nb:
                merged_shape = moved.shape[:pos] + (moved.shape[pos] * moved.shape[pos + 1],) + moved.shape[pos + 2 :]
            if c["op"] == "move":
                got = ctx.call(utils.move_axis_to_left_of, ops.convert_to_tensor(t), a, b)
                ctx.eq(_np(got), moved, f"move axis {a} to the left of {b}")
            elif c["op"] == "merge":
                got = ctx.call(utils.merge_axes, ops.convert_to_tensor(t), a, b)
                ctx.eq(_np(got), moved.reshape(merged_shape), f"merge axis {a} into {b}")
            elif c["op"] == "merge_shapes":
                got = ctx.call(utils.merge_shapes, tuple(shape), a, b)
                ctx.check(tuple(got) == merged_shape, f"merged shape {got}, expected {merged_shape}")
            else:
                m = ctx.call(utils.merge_axes, ops.convert_to_tensor(t), a, b)
                back = ctx.call(utils.split_axes, m, shape[na], pos)
                ctx.eq(_np(back), moved, "splitting merged axes again")
        elif c["op"] in ("split", "split_shapes"):
            full = list(shape)
            full[na] *= f
            want_shape = tuple(full[:na] + [f, shape[na]] + full[na + 1 :])
            if c["op"] == "split":
                t = rng.permutation(int(np.prod(full))).reshape(full).astype("float32")
                got = ctx.call(utils.split_axes, ops.convert_to_tensor(t), f, a)
                ctx.eq(_np(got), t.reshape(want_shape), f"split {f} off axis {a}")
            else:
                got = ctx.call(utils.split_shapes, tuple(full), f, a)
                ctx.check(tuple(got) == want_shape, f"split shape {got}, expected {want_shape}")
        else:
            if rng.random() < 0.25:  # as many as in kernels of real networks
                shape = shape[:-2] + [int(pick(rng, [200, 300, 2100])), int(pick(rng, [200, 300]))]
            t = rng.normal(size=shape).astype("float32")
            idx = ctx.call(utils.get_index_tensor, ops.convert_to_tensor(t))
            got = ops.take(ops.reshape(t, [-1]), idx)
            ctx.eq(_np(got), t, "taking by index tensor")
            ctx.check(len(np.unique(_np(idx))) == t.size, "indices are not unique")

class C30:
    """Groups that are not among the named ones."""

    id = "C30"
    minima = {"evaluations": 1500, "groups": 90, "derived": 90, "values": 100000, "noncommutative": 25,
              "by_two_names": 30}
    rule = "distinct (elements in order, acting, domain, axes) of user defined groups that were observed acting"

    @staticmethod
    def gen(seed, tier):
        rng = rng_for("C30", seed)
        cases = []
        for i in range(130 if tier == "quick" else 1300):
            d = [1, 2, 3, 2, 3, 4][i % 6]
            gens = []
            for _ in range(int(rng.integers(1, 4))):
                m = np.zeros((d, d), int)
                for r, p in enumerate(rng.permutation(d)):
                    m[r, p] = int(pick(rng, [-1, 1]))
                gens.append(m.tolist())
            cases.append({"dims": d, "generators": gens, "name": pick(rng, ["C", "my group", "P4M", "Oh", "G/2"]),
                          "seed": int(rng.integers(2**31))})
        return cases

    @staticmethod
    def closure(gens, d, most):
        found = {o.key(np.eye(d)): np.eye(d, dtype=int)}
        todo = list(found.values())
        while todo:
            m = todo.pop()
            for g in gens:
                n = m @ np.asarray(g)
                if o.key(n) not in found:
                    found[o.key(n)] = n
                    todo.append(n)
                    if len(found) > most:
                        return None
        return list(found.values())

    @staticmethod
    def run(c, ctx):
        from groco.groups import Group

        rng = rng_for(c["seed"])
        d, gens = c["dims"], c["generators"]
        els = None
        while els is None:  # leave out generators until it is small enough
            els = C30.closure(gens, d, 24)
            gens = gens[1:]
        els = [els[0]] + [els[1 + int(i)] for i in rng.permutation(len(els) - 1)]
        n = len(els)
        index = {o.key(m): i for i, m in enumerate(els)}
        mult = np.array([[index[o.key(a @ b)] for b in els] for a in els])
        inv = [index[o.key(m.T)] for m in els]
        name = c["name"]
        subs = {name: list(range(n))}
        for j in range(4):
            some = [els[int(i)] for i in rng.integers(0, n, int(pick(rng, [1, 1, 2])))]
            idx = [index[o.key(m)] for m in C30.closure(some, d, n)]
            idx = [0] + [idx[1:][int(i)] for i in rng.permutation(len(idx) - 1)]
            if set(idx) not in [set(v) for v in subs.values()]:
                subs[f"S{j}"] = idx
        if rng.random() < 0.6:  # the same subgroup by another name, with its elements in another order
            idx = subs[pick(rng, list(subs))]
            subs["again"] = [0] + [idx[1:][int(i)] for i in rng.permutation(len(idx) - 1)]
            ctx.count("by_two_names")

        def cosets(sub, within):
            left, reps = set(within), [0]
            left -= {int(mult[h, 0]) for h in sub}
            while left:
                r = pick(rng, sorted(left))
                reps.append(r)
                left -= {int(mult[h, r]) for h in sub}
            return reps

        reps = {k: cosets(v, range(n)) for k, v in subs.items()}

        def action(signal, spatial_axes=tuple(range(d)), new_group_axis=d):
            ctx.count("actions")
            return ops.convert_to_tensor(np.stack([o.act_grid(m, np.asarray(signal), spatial_axes) for m in els], new_group_axis))

        from keras import ops

        form = pick(rng, [list, np.array])
        kw = {"inverses": form(inv)} if rng.random() < 0.5 else {}
        g = ctx.call(Group, name=name, order=n, composition=form(mult.tolist()), subgroup={k: list(v) for k, v in subs.items()},
                     cosets={k: list(v) for k, v in reps.items()}, action=action, **kw)
        ctx.count("groups")
        ctx.count("noncommutative", int((mult != mult.T).any()))
        C30.observe(ctx, rng, g, name, d, els, mult, inv, subs, reps)
        for sub in [k for k in subs if k != name][:2]:
            ctx.count("derived")
            C30.derived(ctx, rng, g, sub, d, els, mult, inv, subs, 2)

    @staticmethod
    def derived(ctx, rng, parent, sub, d, els, mult, inv, subs, depth):
        from groco.groups import Group

        outer = subs[sub]
        pos = {e: i for i, e in enumerate(outer)}
        in_els = [els[e] for e in outer]
        in_mult = np.array([[pos[int(mult[a, b])] for b in outer] for a in outer])
        in_inv = [pos[int(inv[a])] for a in outer]
        in_subs = {k: [pos[e] for e in v] for k, v in subs.items() if set(v) <= set(outer)}
        g = ctx.call(Group, name=sub, order=len(outer), parent=parent)
        ctx.check(set(g.subgroup) == set(in_subs) == set(g.cosets), f"subgroups of a derived group: {set(g.subgroup)}")
        if set(g.subgroup) != set(in_subs) or set(g.cosets) != set(in_subs):
            return
        C30.observe(ctx, rng, g, sub, d, in_els, in_mult, in_inv, in_subs, None)
        inner = [k for k in in_subs if k != sub]
        if inner and depth:
            C30.derived(ctx, rng, g, inner[0], d, in_els, in_mult, in_inv, in_subs, depth - 1)

    @staticmethod
    def observe(ctx, rng, g, name, d, els, mult, inv, subs, reps):
        from groco.utils import check_equivariance

        n = len(els)
        ctx.check(g.name == name and g.order == n, f"{g.name} of order {g.order}")
        ctx.check(_np(g.composition).tolist() == mult.tolist(), "composition of a user defined group")
        ctx.check([int(i) for i in g.inverses] == inv, "inverses of a user defined group")
        for k, v in subs.items():
            ctx.check([int(i) for i in g.subgroup[k]] == v, f"elements of {k}: {g.subgroup[k]}, expected {v}")
            prods = sorted(int(mult[h, r]) for h in v for r in g.cosets[k])
            ctx.check(prods == list(range(n)), f"cosets of {k}: {g.cosets[k]}")
            ctx.check(reps is None or [int(i) for i in g.cosets[k]] == reps[k], f"cosets of {k}")
        names = list(subs)
        size = 3 if d < 4 else 2

        def arg(v):
            return "" if v == name and rng.random() < 0.5 else v

        for _ in range(3):
            acting, domain = pick(rng, names), pick(rng, names)
            na, nd = len(subs[acting]), len(subs[domain])
            # on the grid
            rank = d + int(rng.integers(0, 3))
            axes = [int(a) for a in rng.permutation(rank)[:d]]
            shape = [int(v) for v in rng.integers(1, 4, rank)]
            for a in axes:
                shape[a] = size
            x = signal(rng, shape, pick(rng, ["float32", "int32"]))
            new = int(rng.integers(-(rank + 1), rank + 1))
            got = ctx.call(g.action, x, spatial_axes=tuple(axes), new_group_axis=new, acting_group=arg(acting), domain_group=None)
            want = np.stack([o.act_grid(els[e], x, axes) for e in subs[acting]], axis=new)
            ctx.eq(_np(got), want, f"{acting} acting on the grid, elements {[m.tolist() for m in els]}")
            # on the group
            rank = d + 1 + int(rng.integers(0, 2))
            perm = [int(a) for a in rng.permutation(rank)[: d + 1]]
            axes, ga = perm[:d], perm[d]
            shape = [int(v) for v in rng.integers(1, 3, rank)]
            for a in axes:
                shape[a] = size
            shape[ga] = nd
            x = signal(rng, shape, pick(rng, ["float32", "int32"]))
            pos = {e: i for i, e in enumerate(subs[domain])}
            want = np.zeros((na, *shape), x.dtype)
            for i, e in enumerate(subs[acting]):
                moved = np.moveaxis(o.act_grid(els[e], x, axes), ga, 0)
                view = np.moveaxis(want[i], ga, 0)
                for j, h in enumerate(subs[domain]):
                    src = int(mult[inv[e], h])
                    if src in pos:
                        view[j] = moved[pos[src]]
            new = int(rng.integers(0, rank + 1))
            got = ctx.call(g.action, x, spatial_axes=tuple(axes), group_axis=ga, new_group_axis=new,
                           acting_group=arg(acting), domain_group=arg(domain))
            ctx.eq(_np(got), np.moveaxis(want, 0, new), f"{acting} acting on a signal on {domain}, elements {[m.tolist() for m in els]}")
            up = np.zeros([n if a == ga else v for a, v in enumerate(shape)], x.dtype)
            np.moveaxis(up, ga, 0)[subs[domain]] = np.moveaxis(x, ga, 0)
            ctx.eq(_np(ctx.call(g.upsample, x, ga, domain)), up, f"zero-extension from {domain}")
            ctx.sig([m.tolist() for m in els], acting, domain, axes, ga)
        # the equivariance check, with a function that breaks the symmetry at one place or nowhere
        acting = pick(rng, names)
        x = ints(rng, (2, *[size] * d, len(subs[acting])), -9, 9)
        bump = np.zeros(x.shape[1:], "float32")
        if rng.random() < 0.6:
            bump[tuple(int(rng.integers(v)) for v in bump.shape)] = int(pick(rng, [-2, 1, 3]))
        axes = tuple(range(1, d + 1))
        kw = dict(group=g, spatial_axes=axes, group_axis=d + 1, acting_group=acting, domain_group=acting, target_group=acting)
        got = float(ctx.call(check_equivariance, lambda s: 2 * s + bump, x, **kw))
        worst = 0.0
        for e in subs[acting]:
            moved = np.moveaxis(o.act_grid(els[e], bump[None], axes), d + 1, 0)
            pos = {h: i for i, h in enumerate(subs[acting])}
            moved = np.stack([moved[pos[int(mult[inv[e], h])]] for h in subs[acting]], -1)
            worst = max(worst, float(np.abs(moved - bump[None]).max()))
        ctx.eq(got, worst, "deviation of a function that adds something to signals", 1e-6)
