"""Random layer configurations (JSON cases), and the real layers built from them."""
import numpy as np

from rv import oracle as o
from rv.core import ints, pick, rng_for

COMBOS = [
    (o.DIM[g], g, s, lift)
    for g in o.NAMES[2] + o.NAMES[3]
    for s in o.SUBGROUPS[g]
    for lift in (True, False)
]


def classes_value(rng, classes, seq, p=None, iso=0.7):
    """One value per axis, equal for axes in the same class; a plain int when all are equal."""
    if rng.random() < iso:
        return int(pick(rng, seq, p))
    vals = {c: int(pick(rng, seq, p)) for c in sorted(set(classes))}
    out = [vals[c] for c in classes]
    return out if len(set(out)) > 1 or rng.random() < 0.5 else out[0]


PADDINGS = [None, "valid_equiv", "same_equiv", "valid", "same", "SAME_EQUIV", "Valid_Equiv", "SAME"]
PAD_P = [0.12, 0.25, 0.3, 0.1, 0.17, 0.02, 0.02, 0.02]


def out_sizes(c):
    """Spatial output sizes predicted by the oracle (conv and transposed); raises Refuse."""
    d = c["dims"]
    ks, s, dl = (o.tup(c.get(k, 1) or 1, d) for k in ("kernel_size", "strides", "dilation"))
    ke = [(a - 1) * b + 1 for a, b in zip(ks, dl)]
    res = []
    for n, k, st in zip(c["size"], ke, s):
        pb, pa, extra = o.axis_padding(
            n, k, st, c.get("padding") or "valid_equiv", c.get("allow", False), c.get("transpose")
        )
        if not c.get("transpose"):
            res.append((n + pb + pa - k) // st + 1)
        else:
            base = (c.get("padding") or "valid_equiv").lower().replace("_equiv", "")
            res.append(
                (n + extra) * st if base == "same" else (n + extra - 1) * st + max(k, st)
            )
    return res


def regime(c):
    """Transposed convolutions are only documented to work in this regime."""
    d = c["dims"]
    ks, s, dl = (o.tup(c.get(k, 1) or 1, d) for k in ("kernel_size", "strides", "dilation"))
    base = (c.get("padding") or "valid_equiv").lower().replace("_equiv", "")
    return all(
        st == 1 or (st == k and base == "valid" and dd == 1) for k, st, dd in zip(ks, s, dl)
    )


def conv_config(rng, dims, group, sub, lift, transpose=False, allow=False, tries=400, **fixed):
    """A configuration the documentation promises to work."""
    acting = sub or group
    kernel_cls = [0] * dims if dims == 3 else o.mixed_axes(group)
    cls = o.mixed_axes(group if transpose and lift else acting)
    big = o.order(group) >= 16
    for _ in range(tries):
        c = {"kind": "conv", "dims": dims, "group": group, "lift": lift, "transpose": transpose}
        far = rng.random() < 0.06  # beyond what is usual
        c["subgroup"] = pick(rng, ["", None, group]) if sub == group else sub
        c["kernel_size"] = classes_value(
            rng, kernel_cls, [1, 2, 3, 4, 5] if dims == 2 else [1, 2, 3],
            [0.12, 0.2, 0.4, 0.13, 0.15] if dims == 2 else [0.15, 0.35, 0.5],
        )
        c["strides"] = classes_value(rng, cls, [1, 2, 3, 4], [0.45, 0.3, 0.17, 0.08])
        c["dilation"] = 1
        if far and rng.random() < 0.7 and not (big and dims == 3):
            c["kernel_size"] = classes_value(rng, kernel_cls, [6, 7, 8, 9] if dims == 2 else [4, 5])
        elif far:
            c["strides"] = classes_value(rng, cls, [5, 6, 7, 8])
        if c["strides"] == 1 and rng.random() < 0.35:
            c["dilation"] = classes_value(rng, cls, [1, 2, 3] if not far else [2, 4, 5])
        if transpose and rng.random() < 0.45:
            c["strides"], c["dilation"] = c["kernel_size"], 1
        hi = 11 if dims == 2 else (5 if big else 6)
        if far:
            hi = 22 if dims == 2 else 8
        size = classes_value(rng, cls, list(range(1, hi + 1)), iso=0.4)
        c["size"] = list(o.tup(size, dims))
        c["padding"] = pick(rng, PADDINGS, PAD_P)
        c["allow"] = bool(allow)
        c["groups"] = 1 if transpose else pick(rng, [1, 2, 3, 5], [0.75, 0.14, 0.08, 0.03])
        c["cin"] = c["groups"] * int(rng.integers(1, 4 if not big else 3))
        c["filters"] = c["groups"] * int(rng.integers(1, 4 if not big else 3))
        c["batch"] = int(pick(rng, [1, 2, 3]))
        c["data_format"] = pick(rng, ["channels_last", "channels_first"], [0.7, 0.3])
        c["use_bias"] = bool(rng.random() < 0.8)
        c["activation"] = pick(rng, [None, "relu", "linear"], [0.6, 0.25, 0.15])
        c["style"] = int(rng.integers(0, 8))
        c["values"] = pick(rng, ["small", "wide", "fraction"])
        if rng.random() < 0.07:
            large(rng, c, big)
        c.update(fixed)
        if (c["padding"] or "").lower().endswith("_equiv") and rng.random() < 0.15:
            c["allow"] = True  # opting out has no effect on paddings that maintain equivariance
        if c["strides"] != 1 and c["dilation"] != 1:
            continue
        if transpose and not allow and not regime(c):
            continue
        try:
            out = out_sizes(c)
        except o.Refuse:
            continue
        if min(out) < 1 or max(out) > 60:
            continue
        ks, s, dl = (o.tup(c[k], dims) for k in ("kernel_size", "strides", "dilation"))
        base = (c["padding"] or "valid").lower()
        if not transpose and base.startswith("valid"):
            if any(n < (k - 1) * d_ + 1 for n, k, d_ in zip(c["size"], ks, dl)):
                continue
        c["seed"] = int(rng.integers(0, 2**31))
        return c
    raise RuntimeError(f"no configuration found for {(dims, group, sub, lift, transpose, fixed)}")


def large(rng, c, big=False):
    """One thing about the configuration is large."""
    what = pick(rng, ["batch", "size"] if big else ["batch", "size", "cin", "filters"])
    if what == "batch":
        c["batch"] = int(pick(rng, [9, 17, 33, 40, 65, 130]))
    elif what == "size" and len(set(c["size"])) == 1:
        n = int(rng.integers(17, 41)) if c["dims"] <= 2 else int(rng.integers(7, 11))
        c["size"] = [n] * len(c["size"])
        c["batch"] = 1
    elif what != "size" and what in c:
        c[what] = c.get("groups", 1) * int(rng.integers(9, 25))


def values(rng, shape, c, lo, hi, unit=1):
    """
    Values of which sums of products are exact in single precision: small integers, wide ones and
    fractions, that are not exact in any smaller or integer format.
    """
    mode = c.get("values", "small")
    if mode == "small" or not unit:
        return ints(rng, shape, lo, hi)
    wide, frac = ((1023, 4095), 64) if unit == 1 else ((31, 31), 16)
    if mode == "wide":
        return ints(rng, shape, -wide[0], wide[0])
    return ints(rng, shape, -wide[1], wide[1]) / np.float32(frac)


def conv_class(c):
    import groco.layers as GL

    name = f"GroupConv{c['dims']}D" + ("Transpose" if c.get("transpose") else "")
    style = c.get("style", 0)
    if style % 3 == 2:
        partial = f"{c['group']}Conv{c['dims']}D" + ("Transpose" if c.get("transpose") else "")
        if hasattr(GL, partial):
            return getattr(GL, partial), False
    return getattr(GL, name), True


def conv_kwargs(c):
    kw = {"filters": c["filters"], "kernel_size": c["kernel_size"]}
    style = c.get("style", 0)
    if c.get("strides", 1) != 1 or style % 2:
        kw["strides"] = c.get("strides", 1)
    if c.get("dilation", 1) != 1:
        kw["dilation_rate"] = c["dilation"]
    if style == 5:  # explicit tuples
        for k in ("kernel_size", "strides", "dilation_rate"):
            if k in kw:
                kw[k] = o.tup(kw[k], c["dims"])
    else:
        for k in ("kernel_size", "strides", "dilation_rate"):
            if k in kw and isinstance(kw[k], list):
                kw[k] = tuple(kw[k])
    if c.get("padding") is not None:
        kw["padding"] = c["padding"]
    if c.get("subgroup", "") != "" or style % 2:
        kw["subgroup"] = c.get("subgroup", "")
    if c.get("data_format", "channels_last") != "channels_last" or style in (1, 2):
        kw["data_format"] = c.get("data_format", "channels_last")
    if c.get("groups", 1) != 1:
        kw["groups"] = c["groups"]
    if not c.get("use_bias", True):
        kw["use_bias"] = False
    if c.get("activation") is not None:
        kw["activation"] = c["activation"]
    if c.get("allow"):
        kw["allow_non_equivariance"] = True
    if c.get("dtype"):
        kw["dtype"] = c["dtype"]
    if c.get("name"):
        kw["name"] = c["name"]
    kw.update(c.get("options") or {})
    return kw


def options(rng, use_bias=True):
    """Further keras arguments of convolutions."""
    seq = {
        "kernel_initializer": ["he_normal", "ones", "random_uniform"],
        "kernel_regularizer": ["l2", "l1"],
        "activity_regularizer": ["l1"],
        "kernel_constraint": ["max_norm", "non_neg"],
    }
    if use_bias:
        seq.update(bias_initializer=["ones", "random_normal"], bias_regularizer=["l1"], bias_constraint=["non_neg"])
    return {k: pick(rng, v) for k, v in sorted(seq.items()) if rng.random() < 0.35}


def make_conv(c):
    cls, needs_group = conv_class(c)
    kw = conv_kwargs(c)
    if needs_group:
        from groco.groups import group_dict

        kw["group"] = group_dict[c["group"]] if c.get("style", 0) % 4 == 3 else c["group"]
    return cls(**kw)


def domain_order(c):
    sub = c.get("subgroup") or c["group"]
    return o.order(sub if c.get("transpose") else c["group"])


def acting_name(c):
    return c["group"] if c.get("transpose") else (c.get("subgroup") or c["group"])


def signal_shape(c, batch=None, size=None):
    """channels_last shape of the input"""
    shape = [batch or c["batch"], *(size or c["size"])]
    if not c.get("lift"):
        shape.append(domain_order(c))
    return tuple(shape + [c["cin"]])


def make_input(c, rng, batch=None, size=None, lo=-9, hi=9):
    """channels_last signal"""
    return values(rng, signal_shape(c, batch, size), c, lo, hi)


def layout(x, c):
    """to the data format of the case"""
    return np.ascontiguousarray(o.from_last(x, c.get("data_format", "channels_last")))


def unlayout(y, c):
    return o.to_last(np.asarray(y), c.get("data_format", "channels_last"), c["dims"], True)


def kernel_shape(c):
    d = c["dims"]
    inner = c["cin"] // c.get("groups", 1) * (1 if c.get("lift") else domain_order(c))
    io = (c["filters"], inner) if c.get("transpose") else (inner, c["filters"])
    return o.tup(c["kernel_size"], d) + io


def set_weights(layer, c, rng, lo=-6, hi=6):
    """Integer weights, so that float32 results are exact. Returns (kernel, bias)."""
    kernel = values(rng, kernel_shape(c), c, lo, hi, 2)
    ws = [kernel]
    bias = None
    if c.get("use_bias", True):
        bias = values(rng, (c["filters"],), c, lo, hi, 2)
        ws.append(bias)
    layer.set_weights(ws)
    return kernel, bias


# --------------------------------------------------------------------------------------------
def pool_config(rng, dims, group, sub, kind, allow=False, tries=400, **fixed):
    cls = o.mixed_axes(sub) if dims > 1 else [0]
    for _ in range(tries):
        c = {"kind": kind, "dims": dims, "group": group}
        c["subgroup"] = pick(rng, ["", None, group]) if sub == group else sub
        far = rng.random() < 0.06  # beyond what is usual
        c["pool_size"] = classes_value(rng, cls, [1, 2, 3, 4], [0.2, 0.35, 0.3, 0.15])
        c["strides"] = (
            None if rng.random() < 0.3 else classes_value(rng, cls, [1, 2, 3, 4], [0.4, 0.3, 0.2, 0.1])
        )
        hi = 11 if dims <= 2 else 6
        if far:
            hi = 22 if dims <= 2 else 9
            c["pool_size"] = classes_value(rng, cls, [5, 6, 7, 8] if dims <= 2 else [5])
        if far and c["strides"] is not None and rng.random() < 0.4:
            c["strides"] = classes_value(rng, cls, [5, 6, 7])
        c["size"] = list(o.tup(classes_value(rng, cls, list(range(1, hi + 1)), iso=0.4), dims))
        c["padding"] = pick(rng, PADDINGS, PAD_P)
        c["allow"] = bool(allow)
        c["cin"] = int(rng.integers(1, 4))
        c["batch"] = int(pick(rng, [1, 2, 3]))
        c["data_format"] = pick(rng, ["channels_last", "channels_first"], [0.7, 0.3])
        c["style"] = int(rng.integers(0, 8))
        c["values"] = pick(rng, ["small", "wide", "fraction"])
        if rng.random() < 0.07:
            large(rng, c)
        c.update(fixed)
        if (c["padding"] or "").lower().endswith("_equiv") and rng.random() < 0.15:
            c["allow"] = True  # opting out has no effect on paddings that maintain equivariance
        ps = o.tup(c["pool_size"], dims)
        s = o.tup(c["strides"], dims) if c["strides"] is not None else ps
        try:
            pads = o.spec_padding(c["size"], ps, s, c["padding"] or "valid_equiv", c["allow"])
        except o.Refuse:
            continue
        if any(n + p[0] + p[1] < k for n, p, k in zip(c["size"], pads, ps)):
            continue
        if (c["padding"] or "valid").lower().startswith("valid") and any(
            n < k for n, k in zip(c["size"], ps)
        ):
            continue
        c["seed"] = int(rng.integers(0, 2**31))
        return c
    raise RuntimeError(f"no pooling configuration found for {(dims, group, sub, kind, fixed)}")


def make_pool(c):
    import groco.layers as GL
    from groco.groups import group_dict

    name = "Max" if c["kind"] == "max" else "Average"
    cls = getattr(GL, f"Group{name}Pooling{c['dims']}D")
    style = c.get("style", 0)
    kw = {"group": group_dict[c["group"]] if style % 4 == 3 else c["group"]}
    ps = c["pool_size"]
    kw["pool_size"] = tuple(ps) if isinstance(ps, list) else ps
    if style == 5:
        kw["pool_size"] = o.tup(ps, c["dims"])
    if ps == 2 and style == 6:
        del kw["pool_size"]
    if c.get("strides") is not None:
        kw["strides"] = tuple(c["strides"]) if isinstance(c["strides"], list) else c["strides"]
    if c.get("padding") is not None:
        kw["padding"] = c["padding"]
    if c.get("subgroup", "") != "" or style % 2:
        kw["subgroup"] = c.get("subgroup", "")
    if c.get("data_format") != "channels_last" or style in (1, 2):
        kw["data_format"] = c["data_format"]
    if c.get("allow"):
        kw["allow_non_equivariance"] = True
    if c.get("dtype"):
        kw["dtype"] = c["dtype"]
    if c.get("name"):
        kw["name"] = c["name"]
    return cls(**kw)


def pool_input(c, rng, lo=-20, hi=20):
    shape = (c["batch"], *c["size"], o.order(c["group"]), c["cin"])
    return values(rng, shape, c, lo, hi)


def cosets(c):
    from groco.groups import group_dict

    return [int(i) for i in group_dict[c["group"]].cosets[c.get("subgroup") or c["group"]]]


def conv_round(rng, n, transpose=False, combos=None, **fixed):
    """n configurations, cycling over every (dims, group, subgroup, lift) combination."""
    combos = list(combos or COMBOS)
    out = []
    while len(out) < n:
        for i in rng.permutation(len(combos)):
            d, g, s, lift = combos[int(i)]
            if d == 3 and g == "Oh" and len(out) >= len(combos) and rng.random() < 0.5:
                continue
            out.append(conv_config(rng, d, g, s, lift, transpose=transpose, **fixed))
            if len(out) >= n and len(out) >= len(combos):
                break
    return out


POOL_COMBOS = [
    (o.DIM[g], g, s) for g in o.NAMES[2] + o.NAMES[3] for s in o.SUBGROUPS[g]
]


def pool_round(rng, n, **fixed):
    out = []
    k = 0
    while len(out) < n:
        for i in rng.permutation(len(POOL_COMBOS)):
            d, g, s = POOL_COMBOS[int(i)]
            kind = ["max", "average"][k % 2]
            k += 1
            out.append(pool_config(rng, d, g, s, kind, **fixed))
            if len(out) >= n and len(out) >= 2 * len(POOL_COMBOS):
                break
        k += 1
    return out
