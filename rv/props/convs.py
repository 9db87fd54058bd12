"""C06-C10: values and symmetries of (transposed) group convolutions."""
import numpy as np

from rv import build as B
from rv import oracle as o
from rv.core import ints, pick, rng_for


def observe(c, ctx, rng, x=None):
    """Builds the layer of a case, gives it integer weights, and calls it."""
    layer = ctx.call(B.make_conv, c)
    if x is None:
        x = B.make_input(c, rng)
    xl = B.layout(x, c)
    ctx.call(layer.build, xl.shape)
    if not ctx.check(
        tuple(layer.kernel.shape) == B.kernel_shape(c),
        f"kernel shape {tuple(layer.kernel.shape)}, expected {B.kernel_shape(c)}",
    ):
        return None
    kernel, bias = B.set_weights(layer, c, rng)
    y = B.unlayout(ctx.call(layer, xl), c)
    sig(c, ctx)
    return layer, x, kernel, bias, y


def sig(c, ctx):
    ctx.sig(*[c.get(k) for k in (
        "kind", "dims", "group", "subgroup", "lift", "transpose", "kernel_size", "strides", "dilation", "size",
        "padding", "groups", "cin", "filters", "data_format", "use_bias", "activation", "allow")])
    ctx.count(f"group_{c['group']}")
    ctx.count("lifting" if c.get("lift") else "group_convolutions")


def act_input(c, g, x):
    """Element g (index in the full group) acting on a channels_last input."""
    d = c["dims"]
    axes = tuple(range(1, d + 1))
    if c.get("lift"):
        return o.act_grid(o.ELEMENTS[c["group"]][g], x, axes)
    domain = (c.get("subgroup") or c["group"]) if c.get("transpose") else c["group"]
    return o.act_group_one(c["group"], g, x, axes, d + 1, domain)


def act_output(c, g, y):
    d = c["dims"]
    return o.act_group_one(c["group"], g, y, tuple(range(1, d + 1)), d + 1, B.acting_name(c))


def symmetry(c):
    """Indices in the group of the elements the layer is promised to be equivariant to."""
    sub = c.get("subgroup") or c["group"]
    if c.get("transpose") and c.get("lift"):
        sub = c["group"]
    return o.sub_indices(c["group"], sub)


def check_equivariance(c, ctx, layer, x, y, rng, limit=8, tol=0.0, what="convolution"):
    elements = symmetry(c)
    if len(elements) > limit:
        elements = [elements[int(i)] for i in rng.permutation(len(elements))[:limit]]
    moved = [act_input(c, g, x) for g in elements]
    if any(m.shape != x.shape for m in moved):
        raise RuntimeError("signal is not on a symmetric grid")
    batch = np.concatenate(moved, axis=0)
    out = B.unlayout(ctx.call(layer, B.layout(batch, c)), c)
    b = x.shape[0]
    if not ctx.check(out.shape == (b * len(elements),) + y.shape[1:], f"output shape {out.shape}"):
        return
    for i, g in enumerate(elements):
        want = act_output(c, g, y)
        ctx.eq(out[i * b : (i + 1) * b], want, f"{what} after vs before acting with element {g}", tol)
        ctx.count("transformations")


class _Conv:
    transpose = False

    @classmethod
    def gen(cls, seed, tier):
        rng = rng_for(cls.id, seed)
        n = cls.n_quick if tier == "quick" else cls.n_quick * 12
        return B.conv_round(rng, n, transpose=cls.transpose) + cls.large(rng, tier)

    @classmethod
    def large(cls, rng, tier):
        """As many weights, or filters, as real networks have: more than small integers can index."""
        out = []
        sizes = [(2**15, 2**15 + 9000), (2**16, 2**16 + 9000)]
        if tier != "quick":
            sizes += [(2**15, 2**17), (2**17, 2**19), (2**24, 2**24 + 2**20)]
        for lo, hi in sizes:
            for g, k, lift in [("P2", 1, False), ("P4M", 3, False), ("P4", 3, True), ("D4", 2, False)]:
                if hi > 2**20 and g != "P2":
                    continue
                d = o.DIM[g]
                per = k**d * (1 if lift else o.order(g))
                cin = int(rng.integers(20, 60)) if hi < 2**20 else 2900
                c = B.conv_config(rng, d, g, g, lift, transpose=cls.transpose, kernel_size=k, strides=1, dilation=1,
                                  cin=cin, filters=int(rng.integers(lo, hi)) // (per * cin) + 2, groups=1, batch=1,
                                  size=[k] * d, padding="valid", values="small", activation=None)
                out.append(c)
        c = B.conv_config(rng, 2, "PMh", "PMh", True, transpose=cls.transpose, kernel_size=1, strides=1, dilation=1,
                          cin=1, filters=int(rng.integers(2**15, 2**15 + 3000)), groups=1, batch=1, size=[1, 1],
                          padding="valid", values="small", activation=None, use_bias=True)
        return out + [c]


class C06(_Conv):
    id = "C06"
    n_quick = 310
    minima = {"transformations": 700, "group_convolutions": 100, "lifting": 100}
    rule = "distinct layer configurations whose output was observed under every sampled group element"

    @classmethod
    def run(cls, c, ctx):
        rng = rng_for(c["seed"])
        r = observe(c, ctx, rng)
        if r is None:
            return
        layer, x, _, _, y = r
        check_equivariance(c, ctx, layer, x, y, rng)


class C07(_Conv):
    id = "C07"
    n_quick = 400
    minima = {"evaluations": 300, "values": 10000, "group_convolutions": 100, "lifting": 100}
    rule = "distinct layer configurations whose every output value was compared to the reference"

    @classmethod
    def run(cls, c, ctx):
        rng = rng_for(c["seed"])
        r = observe(c, ctx, rng)
        if r is None:
            return
        layer, x, kernel, bias, y = r
        ctx.eq(y, o.conv(x, kernel, bias, c), "output vs plain convolutions with transformed kernels")
        n_par = kernel.size + (0 if bias is None else bias.size)
        ctx.check(layer.count_params() == n_par, f"{layer.count_params()} parameters, expected {n_par}")


class C09(C06):
    id = "C09"
    transpose = True
    n_quick = 260
    minima = {"transformations": 500, "group_convolutions": 80, "lifting": 80}
    rule = "distinct transposed layer configurations observed under every sampled group element"


class C10(C07):
    id = "C10"
    transpose = True
    n_quick = 330
    minima = {"evaluations": 250, "values": 10000, "group_convolutions": 80, "lifting": 80}
    rule = "distinct transposed configurations whose every output value was compared to the reference"


class C08:
    id = "C08"
    minima = {"shifts": 250, "perturbations": 250, "evaluations": 600, "shifts_with_visible_effect": 150, "taints": 150}
    rule = "distinct (layer configuration, shift / perturbed pixel) observed"

    @staticmethod
    def gen(seed, tier):
        rng = rng_for("C08", seed)
        n = 270 if tier == "quick" else 3000
        cases = []
        conv = B.conv_round(rng, n * 2 // 3, transpose=False)
        conv = [c for c in conv]
        pools = B.pool_round(rng, n // 3)
        for c in conv + pools:
            d = c["dims"]
            c["shift_axis"] = int(rng.integers(d))
            c["shift"] = int(pick(rng, [-2, -1, 1, 2]))
            c["what"] = "conv" if c["kind"] == "conv" else "pool"
            cases.append(c)
        for c in B.conv_round(rng, n // 4, transpose=True, strides=1):
            c["shift_axis"] = int(rng.integers(c["dims"]))
            c["shift"] = int(pick(rng, [-2, -1, 1, 2]))
            c["what"] = "transposed"
            cases.append(c)
        for c in cases:
            if rng.random() < 0.08 and int(np.prod(c["size"])) <= 200 and o.order(c["group"]) <= 16:
                c["batch"] = int(pick(rng, [33, 65, 130, 257]))
        return cases

    @staticmethod
    def run(c, ctx):
        rng = rng_for(c["seed"])
        d = c["dims"]
        if c["what"] == "pool":
            layer = ctx.call(B.make_pool, c)
            ks = o.tup(c["pool_size"], d)
            s = o.tup(c["strides"], d) if c["strides"] is not None else ks
            dl = (1,) * d
            shape0 = (c["batch"], *c["size"], o.order(c["group"]), c["cin"])
        else:
            layer = ctx.call(B.make_conv, c)
            ks, s, dl = (o.tup(c[k], d) for k in ("kernel_size", "strides", "dilation"))
            shape0 = B.signal_shape(c)
        ke = [(k - 1) * q + 1 for k, q in zip(ks, dl)]
        ctx.call(layer.build, B.layout(np.zeros(shape0, "float32"), c).shape)
        if c["what"] != "pool":
            kernel, bias = B.set_weights(layer, c, rng)
        sig(c, ctx)

        # 1. translations: a blob away from the border, moved by a multiple of the stride
        ax, t = c["shift_axis"], c["shift"]
        step = s[ax] * t
        size = []
        for i in range(d):
            margin = ke[i] + 1
            need = 2 * margin + 2 + (abs(step) if i == ax else 0)
            # same residue as the size in the case, so the padding is acceptable as well
            n = c["size"][i]
            while n < need:
                n += 2 * s[i]
            size.append(n)
        if int(np.prod(size)) <= (4000 if d == 3 else 3000):
            shape = list(shape0)
            shape[1 : 1 + d] = size
            x = np.zeros(shape, "float32")
            src, dst = [slice(None)], [slice(None)]
            for i in range(d):
                a, b = ke[i] + 1, size[i] - ke[i] - 1
                lo = a + (max(-step, 0) if i == ax else 0)
                hi = b - (max(step, 0) if i == ax else 0)
                src.append(slice(lo, hi))
                off = step if i == ax else 0
                dst.append(slice(lo + off, hi + off))
            blob = ints(rng, x[tuple(src)].shape, 1, 9)
            x[tuple(src)] = blob
            x2 = np.zeros_like(x)
            x2[tuple(dst)] = blob
            y = B.unlayout(ctx.call(layer, B.layout(x, c)), c)
            y2 = B.unlayout(ctx.call(layer, B.layout(x2, c)), c)
            yz = B.unlayout(ctx.call(layer, B.layout(np.zeros_like(x), c)), c)
            out_step = t if c["what"] != "transposed" else step
            want = np.roll(y, out_step, axis=1 + ax)
            edge = [slice(None)] * y.ndim
            edge[1 + ax] = slice(0, out_step) if out_step > 0 else slice(out_step, None)
            want[tuple(edge)] = yz[tuple(edge)]
            ctx.eq(y2, want, f"shifting the input by {step} along axis {ax}",
                   0.0 if c["what"] != "pool" else 1e-6)
            ctx.count("shifts")
            ctx.count("shifts_with_visible_effect", int(not np.array_equal(y, y2)))

        # 2. locality: one changed pixel only changes outputs whose window contains it
        x = ints(rng, shape0, -9, 9)
        y = B.unlayout(ctx.call(layer, B.layout(x, c)), c)
        pix = tuple(int(rng.integers(n)) for n in shape0)
        x2 = x.copy()
        x2[pix] += 100 if rng.random() < 0.5 else -100
        y2 = B.unlayout(ctx.call(layer, B.layout(x2, c)), c)
        allowed = np.zeros(y.shape, bool)
        if c["what"] == "transposed":
            one = np.zeros((1, *c["size"], 1))
            one[(0, *pix[1 : 1 + d], 0)] = 1
            case1 = dict(c, group="P1" if d == 2 else "D4", subgroup="", lift=True, groups=1,
                         activation=None, kernel_size=list(ks))
            k1 = np.ones(tuple(ks) + (1, 1))
            reach = o.conv(one, k1, None, case1)[0, ..., 0, 0] != 0
        else:
            pads = o.spec_padding(c["size"], ke, s, c.get("padding") or "valid_equiv", c.get("allow"))
            reach = np.ones(y.shape[1 : 1 + d], bool)
            for i in range(d):
                p = np.arange(y.shape[1 + i])[:, None] * s[i] + np.arange(ks[i])[None] * dl[i] - pads[i][0]
                hit = (p == pix[1 + i]).any(1)
                sh = [1] * d
                sh[i] = -1
                reach &= hit.reshape(sh)
        allowed[pix[0]] = reach[..., None, None]
        changed = y != y2
        ctx.check(
            not (changed & ~allowed).any(),
            f"changing pixel {pix} changed outputs elsewhere, e.g. at "
            f"{tuple(np.argwhere(changed & ~allowed)[0]) if (changed & ~allowed).any() else ()}",
        )
        ctx.count("perturbations")
        ctx.count("changed_outputs", int(changed.sum()))
        # values that overwhelm everything they are mixed with, however slightly
        x2[pix] = pick(rng, [np.nan, np.inf, -np.inf, 1e30])
        y2 = B.unlayout(ctx.call(layer, B.layout(x2, c)), c)
        tainted = ~(y == y2)
        ctx.check(
            not (tainted & ~allowed).any(),
            f"{x2[pix]} in pixel {pix} changed outputs elsewhere, e.g. at "
            f"{tuple(np.argwhere(tainted & ~allowed)[0]) if (tainted & ~allowed).any() else ()}",
        )
        ctx.count("taints", int(tainted.any()))
