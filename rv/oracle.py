"""
Reference semantics, written in plain numpy (float64) from the documentation of GroCo alone.

Nothing in here imports GroCo or Keras.  Point group elements are signed permutation matrices,
everything else (composition, inverses, subgroups, actions, convolutions, pooling, padding) is
derived from those.
"""
import itertools

import numpy as np

# --------------------------------------------------------------------------------------------
# point groups: lists of matrices A, acting on a signal as (g s)(x) = s(A^-1 x), x centred
# --------------------------------------------------------------------------------------------
_e = np.eye(2, dtype=int)
_R = np.array([[0, -1], [1, 0]])  # np.rot90
_Fw = np.diag([1, -1])  # flips the width (second spatial axis)
_Fh = np.diag([-1, 1])  # flips the height (first spatial axis)


def _p(m, n):
    return np.linalg.matrix_power(m, n)


def _oh():
    flips = [[], [1, 2], [0, 2], [0, 1], [2], [1], [0], [0, 1, 2]]
    perms = [(0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1), (2, 1, 0), (1, 0, 2)]
    mats = []
    for perm, flip in itertools.product(perms, flips):
        # first flip, then np.transpose(., perm): out[y] = in[x], x_perm[i] = +-y_i
        inv = np.zeros((3, 3), dtype=int)
        for i, p in enumerate(perm):
            inv[p, i] = -1 if p in flip else 1
        mats.append(inv.T)  # orthogonal
    return mats


_OH = _oh()
_det1 = [m for m in _OH if round(np.linalg.det(m)) == 1]
_d4h = [m for m in _OH if abs(m[2, 2]) == 1]

ELEMENTS = {
    "P4M": [_p(_R, i) for i in range(4)] + [_p(_R, i) @ _Fw for i in range(4)],
    "P4": [_p(_R, i) for i in range(4)],
    "P2MM": [_e, _Fw, _Fh, -_e],
    "PMh": [_e, _Fh],
    "PMw": [_e, _Fw],
    "P2": [_e, -_e],
    "P1": [_e],
    "Oh": _OH,
    "O": _det1,
    "D4h": _d4h,
    "D4": [m for m in _d4h if round(np.linalg.det(m)) == 1],
}
DIM = {name: m[0].shape[0] for name, m in ELEMENTS.items()}
NAMES = {2: ["P4M", "P4", "P2MM", "PMh", "PMw", "P2", "P1"], 3: ["Oh", "O", "D4h", "D4"]}


def key(m):
    return tuple(np.asarray(m).astype(int).ravel().tolist())


INDEX = {name: {key(m): i for i, m in enumerate(mats)} for name, mats in ELEMENTS.items()}


def order(name):
    return len(ELEMENTS[name])


def mult(name, g, h):
    return INDEX[name][key(ELEMENTS[name][g] @ ELEMENTS[name][h])]


MULT = {
    n: np.array([[mult(n, g, h) for h in range(order(n))] for g in range(order(n))])
    for n in ELEMENTS
}
INV = {n: np.array([INDEX[n][key(m.T)] for m in ELEMENTS[n]]) for n in ELEMENTS}


def sub_indices(group, sub):
    """Indices within `group` of the elements of `sub`, in the order of `sub`; None if not contained."""
    idx = [INDEX[group].get(key(m)) for m in ELEMENTS[sub]]
    return None if any(i is None for i in idx) else idx


def subgroups(group):
    return [
        n for n in ELEMENTS if DIM[n] == DIM[group] and sub_indices(group, n) is not None
    ]


SUBGROUPS = {n: subgroups(n) for n in ELEMENTS}


def mixed_axes(name):
    """Partition of the spatial axes into classes mixed by the group."""
    d = DIM[name]
    cls = list(range(d))
    for m in ELEMENTS[name]:
        for i in range(d):
            for j in range(d):
                if m[i, j] != 0:
                    a, b = cls[i], cls[j]
                    cls = [min(a, b) if c in (a, b) else c for c in cls]
    return cls


# --------------------------------------------------------------------------------------------
# actions
# --------------------------------------------------------------------------------------------
def act_grid(mat, arr, axes):
    """(g s)(x) = s(A^-1 x) on the spatial `axes` of arr."""
    inv = np.asarray(mat).T
    axes = [a % arr.ndim for a in axes]
    order_ = list(range(arr.ndim))
    flips = []
    for i in range(len(axes)):
        j = int(np.nonzero(inv[i])[0][0])  # x_i = +- y_j
        order_[axes[j]] = axes[i]
        if inv[i, j] < 0:
            flips.append(axes[j])
    out = np.transpose(arr, order_)
    for f in flips:
        out = np.flip(out, f)
    return out


def act_grid_all(group, arr, axes, acting=None):
    """List of transformed signals, one per element of acting (a subgroup name)."""
    acting = acting or group
    return [act_grid(ELEMENTS[acting][i], arr, axes) for i in range(order(acting))]


def act_group_one(group, g, arr, axes, group_axis, domain=None):
    """Act with element g (index in group) on a signal on the domain (zero outside of it)."""
    domain = domain or group
    group_axis = group_axis % arr.ndim
    dom = sub_indices(group, domain)
    pos = {e: i for i, e in enumerate(dom)}
    moved = act_grid(ELEMENTS[group][g], arr, axes)
    out = np.zeros_like(moved)
    ginv = INV[group][g]
    for i, h in enumerate(dom):
        src = pos.get(int(MULT[group][ginv, h]))
        if src is not None:
            sl_out = [slice(None)] * arr.ndim
            sl_in = [slice(None)] * arr.ndim
            sl_out[group_axis], sl_in[group_axis] = i, src
            out[tuple(sl_out)] = moved[tuple(sl_in)]
    return out


def act_group_all(group, arr, axes, group_axis, acting=None, domain=None):
    acting = acting or group
    return [
        act_group_one(group, g, arr, axes, group_axis, domain) for g in sub_indices(group, acting)
    ]


# --------------------------------------------------------------------------------------------
# padding
# --------------------------------------------------------------------------------------------
class Refuse(Exception):
    """The documentation promises a ValueError for this configuration."""


def tup(v, d):
    return tuple(int(x) for x in v) if isinstance(v, (list, tuple)) else (int(v),) * d


def axis_padding(n, k, s, padding, allow=False, transpose=False):
    """
    For one axis with effective kernel size k: returns (before, after, mode),
    mode "plain" for padding as in plain Keras without any extra, "extra" if extra padding was added.
    """
    base = padding.lower().replace("_equiv", "")
    if base == "same":
        built_in = max(k - s + (-n) % s, 0)
    else:
        built_in = max(s - k, 0) if transpose else 0
    if not padding.lower().endswith("_equiv") and allow:
        return built_in // 2, built_in - built_in // 2, 0
    for extra in range(0, 2 * s + 1):
        if (n + built_in + extra - k) % s == 0 and (built_in + extra) % 2 == 0:
            break
    else:
        raise Refuse("no even padding")
    if extra and not padding.lower().endswith("_equiv"):
        raise Refuse("needs extra padding")
    total = built_in + extra
    return total // 2, total // 2, extra


def spec_padding(spatial, k_eff, strides, padding, allow=False):
    return [axis_padding(n, k, s, padding, allow) for n, k, s in zip(spatial, k_eff, strides)]


# --------------------------------------------------------------------------------------------
# layers.  Signals are channels_last here: (batch, *spatial, [group], channels)
# --------------------------------------------------------------------------------------------
def to_last(x, data_format, d, grouped):
    if data_format == "channels_last":
        return x
    # (b, c, *spatial, [g]) -> (b, *spatial, [g], c)
    return np.moveaxis(x, 1, -1)


def from_last(x, data_format):
    return x if data_format == "channels_last" else np.moveaxis(x, -1, 1)


def transformed_kernels(group, domain, acting, kernel, d, lift):
    """
    kernel: (*spatial, dom * cin, f) -> list over acting of (*spatial, dom, cin, f)
    """
    axes = tuple(range(d))
    if lift:
        return [
            np.expand_dims(act_grid(ELEMENTS[acting][i], kernel, axes), d)
            for i in range(order(acting))
        ]
    n_dom = order(domain)
    k = kernel.reshape(kernel.shape[:d] + (n_dom, kernel.shape[d] // n_dom, kernel.shape[-1]))
    return [
        act_group_one(group, g, k, axes, d, domain) for g in sub_indices(group, acting)
    ]


def correlate(x, kernel, strides, dilation, d):
    """x (b, *sp, c), kernel (*k, c, f), valid."""
    k = kernel.shape[:d]
    out_sp = [
        (x.shape[1 + i] - ((k[i] - 1) * dilation[i] + 1)) // strides[i] + 1 for i in range(d)
    ]
    if min(out_sp) <= 0:
        return np.zeros((x.shape[0],) + tuple(max(o, 0) for o in out_sp) + kernel.shape[-1:])
    out = np.zeros((x.shape[0],) + tuple(out_sp) + (kernel.shape[-1],))
    for off in itertools.product(*[range(n) for n in k]):
        sl = tuple(
            slice(o * dl, o * dl + (n - 1) * s + 1, s)
            for o, dl, n, s in zip(off, dilation, out_sp, strides)
        )
        out += np.tensordot(x[(slice(None),) + sl], kernel[off], axes=(-1, 0))
    return out


def scatter(x, kernel, strides, dilation, d):
    """Full transposed convolution; kernel (*k, c, f)."""
    k = kernel.shape[:d]
    n = x.shape[1 : 1 + d]
    out_sp = [
        (n[i] - 1) * strides[i] + (k[i] - 1) * dilation[i] + 1 for i in range(d)
    ]
    out = np.zeros((x.shape[0],) + tuple(out_sp) + (kernel.shape[-1],))
    for off in itertools.product(*[range(m) for m in k]):
        sl = tuple(
            slice(o * dl, o * dl + (m - 1) * s + 1, s)
            for o, dl, m, s in zip(off, dilation, n, strides)
        )
        out[(slice(None),) + sl] += np.tensordot(x, kernel[off], axes=(-1, 0))
    return out


ACT = {
    None: lambda y: y,
    "linear": lambda y: y,
    "relu": lambda y: np.maximum(y, 0),
    "tanh": np.tanh,
    "leaky_relu": lambda y: np.where(y > 0, y, 0.2 * y),
}


def conv(x, kernel, bias, c):
    """
    x: channels_last input; c: case with dims, group, subgroup, lift, transpose, strides, dilation,
    kernel_size, padding, allow, groups, activation.
    Returns (b, *spatial, acting, filters); raises Refuse.
    """
    d, group = c["dims"], c["group"]
    sub = c.get("subgroup") or group
    transpose = c.get("transpose", False)
    domain, acting = (sub, group) if transpose else (group, sub)
    lift = c["lift"]
    s = tup(c.get("strides", 1), d)
    dl = tup(c.get("dilation", 1), d)
    ks = tup(c["kernel_size"], d)
    k_eff = tuple((a - 1) * b + 1 for a, b in zip(ks, dl))
    G = c.get("groups", 1)
    x = np.asarray(x, dtype=float)
    kernel = np.asarray(kernel, dtype=float)
    if transpose:
        kernel = np.swapaxes(kernel, -1, -2)
    spatial = x.shape[1 : 1 + d]
    pads = [
        axis_padding(n, k, st, c.get("padding") or "valid_equiv", c.get("allow", False), transpose)
        for n, k, st in zip(spatial, k_eff, s)
    ]
    if lift:
        x = np.expand_dims(x, -2)
    kernels = transformed_kernels(group, domain, acting, kernel, d, lift)
    cin = x.shape[-1]
    filters = kernel.shape[-1]
    outs = []
    for kg in kernels:
        per_group = []
        for j in range(G):
            xj = x[..., j * (cin // G) : (j + 1) * (cin // G)]
            kj = kg[..., j * (filters // G) : (j + 1) * (filters // G)]
            xj = xj.reshape(xj.shape[: 1 + d] + (-1,))
            kj = kj.reshape(kj.shape[:d] + (-1, kj.shape[-1]))
            if not transpose:
                xj = np.pad(xj, [(0, 0)] + [(p[0], p[1]) for p in pads] + [(0, 0)])
                per_group.append(correlate(xj, kj, s, dl, d))
            else:
                per_group.append(_transposed(xj, kj, s, dl, d, pads, k_eff, c))
        outs.append(np.concatenate(per_group, axis=-1))
    y = np.stack(outs, axis=-2)
    if bias is not None:
        y = y + np.asarray(bias, dtype=float)
    return ACT[c.get("activation")](y)


def _transposed(x, k, s, dl, d, pads, k_eff, c):
    """
    Documented regime only, per axis: stride 1, or stride == kernel size with valid padding.
    Stride 1: the total of built-in + extra padding is what 'same' crops, minus what extra adds.
    """
    base = (c.get("padding") or "valid_equiv").lower().replace("_equiv", "")
    pre, crop = [], []
    for n, p, st, ke in zip(x.shape[1 : 1 + d], pads, s, k_eff):
        extra = p[2]
        if st == 1:
            built = ke - 1 if base == "same" else 0
            pre.append((0, 0))
            total = built - extra
            if c.get("allow") and not extra:
                crop.append((total // 2, total - total // 2))
            else:
                crop.append((total // 2, total // 2))
        else:
            pre.append((extra // 2, extra // 2))
            crop.append((0, 0))
    x = np.pad(x, [(0, 0)] + pre + [(0, 0)])
    y = scatter(x, k, s, dl, d)
    sl = [slice(None)]
    for i, (a, b) in enumerate(crop):
        if a < 0 or b < 0:
            w = [(0, 0)] * y.ndim
            w[1 + i] = (max(-a, 0), max(-b, 0))
            y = np.pad(y, w)
            a, b = max(a, 0), max(b, 0)
        sl.append(slice(a, y.shape[1 + i] - b))
    return y[tuple(sl)]


def pool_group(x, group, sub, cosets, kind):
    """x (b, *sp, G, c): pooled[h] = pool over coset representatives r of x[h r]."""
    idx = np.array([[MULT[group][h, r] for r in cosets] for h in sub_indices(group, sub)])
    g = x[..., idx, :]  # (b, *sp, H, C, c)
    return g.max(-2) if kind == "max" else g.mean(-2)


def pool(x, c, cosets):
    """x: (b, *sp, G, c) -> (b, *sp', H, c)"""
    d, group = c["dims"], c["group"]
    sub = c.get("subgroup") or group
    x = pool_group(np.asarray(x, dtype=float), group, sub, cosets, c["kind"])
    ps = tup(c["pool_size"], d)
    s = tup(c["strides"], d) if c.get("strides") is not None else ps
    spatial = x.shape[1 : 1 + d]
    pads = [
        axis_padding(n, k, st, c.get("padding") or "valid_equiv", c.get("allow", False))
        for n, k, st in zip(spatial, ps, s)
    ]
    # built-in 'same' padding leaves the padding out of maxima and averages, extra padding is with
    # zeros and then all padding is
    fill = 0.0 if any(p[2] for p in pads) else np.nan
    widths = [(0, 0)] + [(p[0], p[1]) for p in pads] + [(0, 0)] * (x.ndim - 1 - d)
    x = np.pad(x, widths, constant_values=fill)
    out_sp = [(x.shape[1 + i] - ps[i]) // s[i] + 1 for i in range(d)]
    windows = []
    for off in itertools.product(*[range(n) for n in ps]):
        sl = tuple(
            slice(o, o + (n - 1) * st + 1, st) for o, n, st in zip(off, out_sp, s)
        )
        windows.append(x[(slice(None),) + sl])
    w = np.stack(windows)
    return np.nanmax(w, 0) if c["kind"] == "max" else np.nanmean(w, 0)


def global_pool(x, d, kind):
    axes = tuple(range(1, d + 2))
    x = np.asarray(x, dtype=float)
    return x.max(axes) if kind == "max" else x.mean(axes)
