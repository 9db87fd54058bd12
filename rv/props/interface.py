"""C16-C20: data formats, shapes, history independence, purity, threads."""
import threading

import numpy as np

from rv import build as B
from rv import oracle as o
from rv.core import ints, pick, rng_for
from rv.props.convs import act_input, act_output, sig, symmetry
from rv.props.pools import pool_sig


def make(c):
    if c["kind"] == "conv":
        return B.make_conv(c)
    if c["kind"] == "global":
        return make_global(c)
    return B.make_pool(c)


def make_global(c):
    import groco.layers as GL

    name = "Max" if c["pool"] == "max" else "Average"
    kw = {"keepdims": c["keepdims"]} if c.get("keepdims") is not None else {}
    if c["data_format"] != "channels_last":
        kw["data_format"] = c["data_format"]
    for k in ("dtype", "name"):
        if c.get(k):
            kw[k] = c[k]
    return getattr(GL, f"GlobalGroup{name}Pooling{c['dims']}D")(**kw)


def global_config(rng, group=None):
    g = group or pick(rng, o.NAMES[2] + o.NAMES[3])
    d = o.DIM[g]
    return {
        "kind": "global", "pool": pick(rng, ["max", "average"]), "dims": d, "group": g,
        "keepdims": pick(rng, [None, True, False]), "data_format": pick(rng, ["channels_last", "channels_first"]),
        "size": list(o.tup(B.classes_value(rng, o.mixed_axes(g), list(range(1, 7)), iso=0.3), d)),
        "cin": int(rng.integers(1, 4)), "batch": int(rng.integers(1, 4)), "seed": int(rng.integers(2**31)),
    }


def mixed_cases(rng, n, **fixed):
    """convolutions, transposed ones, pooling and global pooling"""
    out = B.conv_round(rng, int(n * 0.4), **fixed)
    out += B.conv_round(rng, int(n * 0.25), transpose=True, **fixed)
    out += B.pool_round(rng, int(n * 0.25), **fixed)
    out += [dict(global_config(rng), **fixed) for _ in range(int(n * 0.1))]
    return out


def in_shape(c, batch=None, size=None):
    if c["kind"] == "conv":
        return B.signal_shape(c, batch, size)
    return (batch or c["batch"], *(size or c["size"]), o.order(c["group"]), c["cin"])


def prepare(c, ctx, rng):
    """layer, input (channels_last), weights (possibly empty)"""
    layer = ctx.call(make, c)
    x = B.values(rng, in_shape(c), c, -9, 9)
    ctx.call(layer.build, B.layout(x, c).shape)
    ws = ()
    if c["kind"] == "conv":
        ws = B.set_weights(layer, c, rng)
        sig(c, ctx)
    else:
        pool_sig(c, ctx)
    return layer, x, ws


def reference(c, x, ws):
    """channels_last reference output"""
    if c["kind"] == "conv":
        return o.conv(x, ws[0], ws[1], c)
    if c["kind"] == "global":
        y = o.global_pool(x, c["dims"], c["pool"])
        if c.get("keepdims"):
            y = y.reshape((x.shape[0],) + (1,) * (c["dims"] + 1) + (x.shape[-1],))
        return y
    return o.pool(x, c, B.cosets(c))


def tolerance(c):
    return 2e-6 if "average" in (c["kind"], c.get("pool")) else 0.0


def output(y, c):
    y = np.asarray(y)
    if c["kind"] == "global" and not c.get("keepdims"):
        return y
    return B.unlayout(y, c)


class C16:
    id = "C16"
    minima = {"evaluations": 250, "values": 5000, "by_keras_config": 40}
    rule = "distinct layer configurations observed in both data formats"

    @staticmethod
    def gen(seed, tier):
        rng = rng_for("C16", seed)
        return mixed_cases(rng, 300 if tier == "quick" else 3600, data_format="channels_last")

    @staticmethod
    def run(c, ctx):
        import keras

        rng = rng_for(c["seed"])
        state = rng.bit_generator.state
        layer, x, ws = prepare(c, ctx, rng)
        y = output(ctx.call(layer, x), c)
        rng.bit_generator.state = state
        cf = dict(c, data_format="channels_first")
        by_config = c["seed"] % 3 == 0
        if by_config:
            # the format is not given, but configured as the default of keras
            ctx.count("by_keras_config")
            before = keras.config.image_data_format()
            keras.config.set_image_data_format("channels_first")
            try:
                first = ctx.call(make, dict(c, style=4))
            finally:
                keras.config.set_image_data_format(before)
        else:
            first = ctx.call(make, cf)
        xf = B.layout(x, cf)
        ctx.call(first.build, xf.shape)
        if c["kind"] == "conv":
            first.set_weights([w for w in ws if w is not None])
        yf = np.asarray(ctx.call(first, xf))
        y2 = output(yf, cf)
        ctx.eq(y2, y, "channels_first vs channels_last", tolerance(c))
        want = B.layout(y, cf).shape if y.ndim > 2 else y.shape
        ctx.check(yf.shape == want, f"channels_first shape {yf.shape}, expected {want}")


class C17:
    id = "C17"
    minima = {"shapes": 900}
    rule = "distinct layer configurations whose predicted, symbolic and actual shapes were observed"

    @staticmethod
    def gen(seed, tier):
        rng = rng_for("C17", seed)
        return mixed_cases(rng, 330 if tier == "quick" else 4000)

    @staticmethod
    def run(c, ctx):
        import keras

        rng = rng_for(c["seed"])
        fresh = ctx.call(make, c)
        xs = B.layout(np.zeros(in_shape(c), "float32"), c).shape
        layer, x, ws = prepare(c, ctx, rng)
        y = np.asarray(ctx.call(layer, B.layout(x, c)))
        want = reference(c, x, ws) if x.size < 4000 else None
        if want is not None:
            w = want.shape if want.ndim <= 2 else B.layout(want, c).shape
            ctx.check(y.shape == w, f"output shape {y.shape}, documented {w}")
        shapes = []  # keras itself does not ask pooling layers for their shapes
        if c["kind"] == "conv":
            shapes = [("built", layer, xs), ("built, any batch", layer, (None,) + tuple(xs[1:])),
                      ("not yet built", fresh, xs)]
        for what, lay, s in shapes:
            got = tuple(ctx.call(lay.compute_output_shape, s))
            w = (s[0],) + y.shape[1:]
            ctx.count("shapes")
            ctx.check(got == w, f"shape predicted when {what}: {got}, actual {w}")
        # asking about another size than the one built with
        other = [n + 2 * st for n, st in zip(c["size"], strides_of(c))]
        x2 = ints(rng, in_shape(c, 2, other), -9, 9)
        xl2 = B.layout(x2, c)
        act = np.asarray(ctx.call(layer, xl2)).shape
        if c["kind"] == "conv":
            got = tuple(ctx.call(layer.compute_output_shape, xl2.shape))
        else:
            got = tuple(ctx.call(layer, keras.Input(batch_shape=xl2.shape)).shape)
        ctx.count("shapes")
        ctx.check(got == act, f"shape predicted for another size: {got}, actual {act}")
        # symbolic
        inp = keras.Input(shape=tuple(xs[1:]))
        sym = ctx.call(ctx.call(make, c), inp)
        ctx.count("shapes")
        ctx.check(tuple(sym.shape) == (None,) + y.shape[1:], f"symbolic shape {sym.shape}, actual {y.shape}")


def strides_of(c):
    d = c["dims"]
    if c["kind"] == "conv":
        return o.tup(c.get("strides", 1), d)
    if c["kind"] == "global":
        return (1,) * d
    return o.tup(c["strides"] if c["strides"] is not None else c["pool_size"], d)


def valid_size(c, size):
    cc = dict(c, size=list(size))
    try:
        if c["kind"] == "conv":
            if min(B.out_sizes(cc)) < 1:
                return False
            d = c["dims"]
            ks, dl = o.tup(c["kernel_size"], d), o.tup(c["dilation"], d)
            if not c.get("transpose") and (c["padding"] or "valid").lower().startswith("valid"):
                return all(n >= (k - 1) * q + 1 for n, k, q in zip(size, ks, dl))
            return True
        if c["kind"] == "global":
            return True
        ps = o.tup(c["pool_size"], c["dims"])
        pads = o.spec_padding(size, ps, strides_of(c), c["padding"] or "valid_equiv", c["allow"])
        if (c["padding"] or "valid").lower().startswith("valid") and any(
            n < k for n, k in zip(size, ps)
        ):
            return False
        return all(n + p[0] + p[1] >= k for n, p, k in zip(size, pads, ps))
    except o.Refuse:
        return None


class C18:
    id = "C18"
    minima = {"evaluations": 600, "sizes": 350, "batch": 150, "refused": 20, "weights": 200, "crowded": 100}
    rule = "distinct (layer configuration, history of input sizes) observed"

    @staticmethod
    def gen(seed, tier):
        rng = rng_for("C18", seed)
        n = 230 if tier == "quick" else 2800
        crowds = [{"kind": "crowd", "layers": C18.crowd(rng, i), "seed": int(rng.integers(2**31))} for i in range(n // 10)]
        return mixed_cases(rng, n) + crowds

    @staticmethod
    def crowd(rng, i):
        """Layers that differ in nothing but the symmetry, the direction or the layout: all kernels have the same shape."""
        d, m = (2, 8) if i % 4 else (3, 16)
        names = [g for g in o.NAMES[d] if m % o.order(g) == 0]
        k, size = int(pick(rng, [1, 3])), [int(rng.integers(3, 6))] * d
        home, out = pick(rng, names), []
        for j in range(7 if d == 2 else 5):
            g = home if rng.random() < 0.6 else pick(rng, names)
            sub, lift = pick(rng, o.SUBGROUPS[g]), bool(rng.random() < 0.25)
            transpose, groups = bool(rng.random() < 0.4), int(pick(rng, [1, 2], [0.75, 0.25]))
            if transpose:
                groups = 1
            domain = 1 if lift else o.order(sub if transpose else g)
            out.append(B.conv_config(
                rng, d, g, sub, lift, transpose=transpose, groups=groups, filters=m, cin=m * groups // domain,
                kernel_size=k, strides=1, dilation=1, size=size, padding=pick(rng, ["same_equiv", "valid_equiv"]),
            ))
        return out

    @staticmethod
    def run_crowd(c, ctx):
        rng = rng_for(c["seed"])
        made = []
        for q in c["layers"]:
            layer, x, ws = prepare(q, ctx, rng)
            made.append((q, layer, x, ws, B.kernel_shape(q)))
            if rng.random() < 0.5:
                ctx.call(layer, B.layout(x, q))
        ctx.check(len({m[4] for m in made}) == 1, "harness: the kernels do not have the same shape")
        for j in rng.permutation(len(made)):
            q, layer, x, ws, _ = made[int(j)]
            y = output(ctx.call(layer, B.layout(x, q)), q)
            ctx.eq(y, reference(q, x, ws), f"one of {len(made)} similar layers", tolerance(q))
            ctx.count("crowded")
        ctx.sig("crowd", c["seed"])

    @staticmethod
    def run(c, ctx):
        if c["kind"] == "crowd":
            return C18.run_crowd(c, ctx)
        rng = rng_for(c["seed"])
        layer, x, ws = prepare(c, ctx, rng)
        first = output(ctx.call(layer, B.layout(x, c)), c)
        classes = o.mixed_axes(c["group"])
        hist = []
        for step in range(4):
            hi = 10 if c["dims"] == 2 else 6
            size = list(o.tup(B.classes_value(rng, classes, list(range(1, hi + 1)), iso=0.3), c["dims"]))
            ok = valid_size(c, size)
            if ok is False:
                continue
            batch = int(rng.integers(1, 4))
            x2 = ints(rng, in_shape(c, batch, size), -9, 9)
            hist.append(size)
            if ok is None:
                refused, res = ctx.refused(layer, B.layout(x2, c))
                ctx.count("refused")
                ctx.check(refused, f"size {size} has no equivariant padding, accepted after {hist}")
                continue
            y2 = output(ctx.call(layer, B.layout(x2, c)), c)
            ctx.eq(y2, reference(c, x2, ws), f"after inputs of sizes {hist}", tolerance(c))
            ctx.count("sizes")
            ctx.sig("sizes", c["seed"], tuple(size))
        again = output(ctx.call(layer, B.layout(x, c)), c)
        ctx.check(np.array_equal(first, again), "same input, different output after other calls")
        if c["kind"] == "conv":
            # not on former weights either
            old = [np.asarray(w) for w in layer.get_weights()]
            for how in ("set_weights", "assign"):
                new = B.values(rng, ws[0].shape, c, -6, 6, 2)
                if how == "assign":
                    layer.kernel.assign(new)
                    now = (new, None if ws[1] is None else now[1])
                else:
                    now = (new, None if ws[1] is None else B.values(rng, ws[1].shape, c, -6, 6, 2))
                    layer.set_weights([w for w in now if w is not None])
                y3 = output(ctx.call(layer, B.layout(x, c)), c)
                ctx.eq(y3, reference(c, x, now), f"after {how} of other weights", tolerance(c))
                ctx.count("weights")
            layer.set_weights(old)
        none = output(ctx.call(layer, B.layout(x[:0], c)), c)
        ctx.eq(none, first[:0], "an empty batch", tolerance(c))
        # items in a batch do not see each other
        if x.shape[0] > 1:
            ctx.count("batch")
            perm = rng.permutation(x.shape[0])
            yp = output(ctx.call(layer, B.layout(x[perm], c)), c)
            ctx.eq(yp, first[perm], "permuting the batch", tolerance(c))
            alone = output(ctx.call(layer, B.layout(x[:1], c)), c)
            ctx.eq(alone, first[:1], "first item of the batch on its own", tolerance(c))
        else:
            ctx.count("batch")
            big = ints(rng, in_shape(c, 7), -9, 9)
            big[5] = x[0]
            yb = output(ctx.call(layer, B.layout(big, c)), c)
            ctx.eq(yb[5], first[0], "same item within a larger batch", tolerance(c))


def group_state():
    from groco.groups import group_dict

    state = {}
    for k, g in group_dict.items():
        state[k] = (
            g.name,
            int(g.order),
            np.asarray(g.composition).tobytes(),
            np.asarray(g.inverses).tobytes(),
            str({a: [int(i) for i in b] for a, b in g.subgroup.items()}),
            str({a: [int(i) for i in b] for a, b in g.cosets.items()}),
            id(g.parent),
        )
    return state


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


class C19:
    id = "C19"
    minima = {"states": 600, "faults": 400, "fault_kinds": 1}
    rule = "distinct (layer configuration, fault) after which the state was observed"

    @staticmethod
    def gen(seed, tier):
        rng = rng_for("C19", seed)
        n = 230 if tier == "quick" else 2800
        return (
            B.conv_round(rng, int(n * 0.45))
            + B.conv_round(rng, int(n * 0.35), transpose=True)
            + B.pool_round(rng, int(n * 0.2))
        )

    @staticmethod
    def snapshot(layer, c):
        s = {
            "weights": [w.copy() for w in map(np.asarray, layer.get_weights())],
            "paths": [v.path for v in layer.weights],
            "ids": [id(v) for v in layer.weights],
            "trainable": [id(v) for v in layer.trainable_weights],
            "config": repr(layer.get_config()),
        }
        if c["kind"] == "conv":
            s["attr"] = (id(layer.kernel), id(layer.bias), layer.filters, tuple(layer.kernel.shape))
        return s

    @staticmethod
    def same(a, b):
        if set(a) != set(b):
            return "attributes"
        for k in a:
            if k == "weights":
                if len(a[k]) != len(b[k]) or not all(np.array_equal(p, q) for p, q in zip(a[k], b[k])):
                    return "weights"
            elif a[k] != b[k]:
                return f"{k}: {str(a[k])[:100]} -> {str(b[k])[:100]}"
        return None

    @staticmethod
    def run(c, ctx):
        import keras
        from keras import ops

        rng = rng_for(c["seed"])
        armed = {"on": None}
        if c["kind"] == "conv":
            base = c["activation"]

            def activation(y):
                if armed["on"] is not None:
                    raise armed["on"]
                return keras.activations.get(base)(y)

            layer = ctx.call(make, dict(c, activation=activation))
        else:
            layer = ctx.call(make, c)
        x = ints(rng, in_shape(c), -9, 9)
        xl = B.layout(x, c)
        ctx.call(layer.build, xl.shape)
        if c["kind"] == "conv":
            ws = B.set_weights(layer, c, rng)
            sig(c, ctx)
        else:
            ws = ()
            pool_sig(c, ctx)
        s0, g0 = C19.snapshot(layer, c), group_state()
        want = reference(c, x, ws)
        keep = xl.copy()

        def observe(after):
            ctx.count("states")
            diff = C19.same(s0, C19.snapshot(layer, c))
            ctx.check(diff is None, f"{after} changed the layer: {diff}")
            ctx.check(g0 == group_state(), f"{after} changed a group")

        y = ctx.call(layer, xl)
        observe("a call")
        ctx.eq(output(y, c), want, "first call", tolerance(c))
        ctx.check(np.array_equal(keep, xl), "the input was modified")

        faults = []
        if c["kind"] == "conv":
            faults += [("raising activation", Boom("x")), ("interrupt", BaseBoom("x"))]
        faults += [("wrong channels", None), ("wrong rank", None), ("not a tensor", None), ("backend failure", None)]
        for i in rng.permutation(len(faults))[:3]:
            what, exc = faults[int(i)]
            ctx.sig("fault", what, c["kind"], c.get("transpose"), c["group"], c.get("subgroup"))
            ctx.count("fault_kinds")
            undo = []
            arg = xl
            if exc is not None:
                armed["on"] = exc
            elif what == "wrong channels":
                xx = np.concatenate([x, x[..., :1]], axis=-1)
                arg = B.layout(xx, c)
            elif what == "wrong rank":
                arg = xl[0]
            elif what == "not a tensor":
                arg = None
            elif what == "backend failure":
                # whichever operation, out of all those of a call, fails
                import keras.src.ops as src_ops

                seen = {"n": 0, "fail": None}

                def counted(name, real):
                    def operation(*a, **k):
                        seen["n"] += 1
                        if seen["n"] == seen["fail"]:
                            raise Boom(name)
                        return real(*a, **k)

                    return operation

                for mod in (ops, src_ops):
                    for name, real in list(vars(mod).items()):
                        if callable(real) and not name.startswith("_") and not isinstance(real, type):
                            undo.append((mod, name, real))
                            setattr(mod, name, counted(name, real))
                try:
                    ctx.call(layer, xl)
                finally:
                    if not seen["n"]:
                        ctx.count("no_operations")
                seen["fail"] = int(rng.integers(1, seen["n"] + 1)) if seen["n"] else None
                seen["n"] = 0
            try:
                layer(arg)
                ctx.count("survived_faults")
            except (Exception, BaseBoom):
                ctx.count("faults")
            finally:
                armed["on"] = None
                for mod, name, real in undo:
                    setattr(mod, name, real)
            observe(f"a call failing with {what}")
            ctx.eq(output(ctx.call(layer, xl), c), want, f"call after one failing with {what}", tolerance(c))
        # other uses of the layer that are not calls
        if c["kind"] == "conv":
            ctx.call(layer.compute_output_shape, xl.shape)
        ctx.call(layer.get_config)
        ctx.call(layer.count_params)
        if c["seed"] % 2:
            sym = keras.Input(shape=tuple(xl.shape[1:]))
            ctx.call(layer, sym)
        observe("asking for shape and config")


class C20:
    id = "C20"
    minima = {"concurrent_calls": 2500, "overlapping": 300, "evaluations": 2000, "preempted": 120, "preempted_tasks": 60, "concurrent_tasks": 90}
    rule = "distinct overlap patterns (sequences of call starts and ends over threads) observed"

    @staticmethod
    def gen(seed, tier):
        rng = rng_for("C20", seed)
        n = 80 if tier == "quick" else 800
        cases = []
        for i in range(n):
            what = ["one_layer", "preempt", "tasks", "many_layers", "sizes", "one_layer", "preempt_other", "tasks"][i % 8]
            layers = []
            if what == "tasks":
                cases.append({"what": what, "tasks": C20.task_configs(rng), "threads": int(rng.integers(2, 6)),
                              "layers": [], "seed": int(rng.integers(2**31))})
                continue
            for j in range({"many_layers": 4, "preempt_other": 2}.get(what, 1)):
                d, g, s, lift = B.COMBOS[int(rng.integers(len(B.COMBOS)))]
                if d == 3:
                    d, g, s, lift = (3, "D4", "D4", lift) if rng.random() < 0.5 else (2, "P4M", "P4M", lift)
                r = rng.random()
                layers.append(C20.layer_config(rng, d, g, s, lift, r < 0.8, 0.5 < r < 0.8))
            cases.append({"what": what, "layers": layers, "threads": int(rng.integers(3, 9)),
                          "calls": 14, "seed": int(rng.integers(2**31))})
        return cases

    @staticmethod
    def run(case, ctx):
        import sys
        import time

        from rv.core import MONITOR

        rng = rng_for(case["seed"])
        items = []
        if case["what"] == "tasks":
            return C20.tasks(case, ctx, rng)
        if case["what"] == "preempt_other":  # another layer of the same kind
            case["layers"][1] = dict(case["layers"][0], seed=case["layers"][1]["seed"])
        for c in case["layers"]:
            layer, x, ws = prepare(c, ctx, rng)
            inputs = []
            if case["what"] == "sizes":
                for k in (1, 2):
                    size = [n + 2 * k * s for n, s in zip(c["size"], strides_of(c))]
                    inputs.append(ints(rng, in_shape(c, 1, size), -9, 9))
            inputs += [x, ints(rng, x.shape, -9, 9), ints(rng, x.shape, -9, 9)]
            refs = [reference(c, xi, ws) for xi in inputs]
            for xi in inputs:  # compile first, so that the threads really overlap
                ctx.call(layer, B.layout(xi, c))
            items.append((c, layer, [B.layout(xi, c) for xi in inputs], refs, C19.snapshot(layer, c)))
        MONITOR.drain()
        if case["what"].startswith("preempt"):
            return C20.preempt(case, ctx, rng, items)
        plan = []
        for t in range(case["threads"]):
            plan.append([
                (int(rng.integers(len(items))), int(rng.integers(len(items[0][2]))), float(rng.random()))
                for _ in range(case["calls"])
            ])
        results, errors = [], []
        start = threading.Barrier(case["threads"])

        # schedule perturbation: yield at random lines of the layer code
        def tracer_for(seed):
            r = np.random.default_rng(seed)

            def local(frame, event, arg):
                if event == "line" and r.random() < 0.15:
                    time.sleep(0.0003)
                return local

            def tracer(frame, event, arg):
                return local if "/groco/" in frame.f_code.co_filename else None

            return tracer

        def work(t):
            sys.settrace(tracer_for(case["seed"] + t))
            start.wait()
            for li, xi, pause in plan[t]:
                c, layer, inputs, refs, _ = items[li]
                xi %= len(inputs)
                try:
                    y = np.asarray(layer(inputs[xi]))
                    results.append((t, li, xi, y))
                except Exception as err:
                    errors.append((t, li, xi, f"{type(err).__name__}: {str(err)[:200]}"))
                if pause < 0.3:
                    time.sleep(0.0002)

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            threads = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(case["threads"])]
            for t in threads:
                t.start()
            for t in threads:
                t.join(timeout=120)
            stuck = [t for t in threads if t.is_alive()]
        finally:
            sys.setswitchinterval(old)
        ctx.check(not stuck, "concurrent calls did not finish (deadlock)")
        events = MONITOR.drain()
        ctx.count("concurrent_calls", len(events))
        spans = sorted((e["seq"], e["end"], e["thread"]) for e in events)
        over = sum(
            1 for a, b in zip(spans, spans[1:]) if b[0] < a[1] and a[2] != b[2]
        )
        ctx.count("overlapping", over)
        ids = {}
        pattern = []
        for seq, tid in sorted([(e["seq"], e["thread"]) for e in events] + [(e["end"], e["thread"]) for e in events]):
            pattern.append(ids.setdefault(tid, len(ids)))
        ctx.sig(pattern)
        for t, li, xi, msg in errors[:3]:
            ctx.check(False, f"concurrent call failed: {msg}")
        for t, li, xi, y in results:
            c, layer, inputs, refs, _ = items[li]
            ctx.eq(output(y, c), refs[xi], f"result of a concurrent call (thread {t})", tolerance(c))
        ctx.check(len(results) + len(errors) == len(plan) * case["calls"] or bool(stuck), "calls were lost")
        for c, layer, inputs, refs, s0 in items:
            diff = C19.same(s0, C19.snapshot(layer, c))
            ctx.check(diff is None, f"concurrent calls changed the layer: {diff}")
            for xl, ref in zip(inputs, refs):
                ctx.eq(output(ctx.call(layer, xl), c), ref, "call after concurrent calls", tolerance(c))

    @staticmethod
    def preempt(case, ctx, rng, items):
        """
        One thread is stopped before a line of the layer code, while another one does a whole call, as
        far as it is not made to wait for the first.
        """
        import sys

        lines = {"n": 0, "stop": None}
        bag = []
        (c, layer, inputs, refs, _), (_, layer2, inputs2, refs2, _) = items[0], items[-1]

        def other(k):
            try:
                bag.append((k, np.asarray(layer2(inputs2[k])), None))
            except Exception as err:
                bag.append((k, None, err))

        def local(frame, event, arg):
            if event == "line":
                lines["n"] += 1
                if lines["n"] == lines["stop"]:
                    lines["where"] = (frame.f_code.co_filename[-24:], frame.f_lineno)
                    t = threading.Thread(target=other, args=(lines["k"],), daemon=True)
                    lines["thread"] = t
                    t.start()
                    t.join(0.25)
            return local

        def tracer(frame, event, arg):
            return local if "/groco/" in frame.f_code.co_filename else None

        def traced(stop, k):
            lines.update(n=0, stop=stop, thread=None, where=None, k=k)
            sys.settrace(tracer)
            try:
                return np.asarray(layer(inputs[0]))
            finally:
                sys.settrace(None)

        traced(None, 0)
        total = lines["n"]
        for stop in sorted(int(i) + 1 for i in rng.permutation(total)[:14]):
            k = int(rng.integers(len(inputs2)))
            y = ctx.call(traced, stop, k)
            t = lines["thread"]
            if t is not None:
                t.join(60)
                if not ctx.check(not t.is_alive(), "a call in another thread never returns"):
                    return
            ctx.count("preempted", int(t is not None))
            ctx.sig("preempt", c["kind"], c.get("transpose"), lines["where"])
            ctx.eq(output(y, c), refs[0], f"call that was interrupted at {lines['where']}", tolerance(c))
            for k2, y2, err in bag:
                if ctx.check(err is None, f"call by another thread failed: {err}"):
                    ctx.eq(output(y2, c), refs2[k2], "call by another thread in between", tolerance(c))
            bag.clear()
        for c, layer, inputs, refs, s0 in items:
            diff = C19.same(s0, C19.snapshot(layer, c))
            ctx.check(diff is None, f"interleaved calls changed the layer: {diff}")
            for xl, ref in zip(inputs, refs):
                ctx.eq(output(ctx.call(layer, xl), c), ref, "call after interleaved calls", tolerance(c))

    @staticmethod
    def layer_config(rng, d, g, s, lift, conv, transpose):
        """a layer whose calls are cheap enough to make many of them"""
        while True:
            if conv:
                c = B.conv_config(rng, d, g, s, lift, transpose=transpose)
            else:
                c = B.pool_config(rng, d, g, s, pick(rng, ["max", "average"]))
            scale = np.prod(strides_of(c)) if transpose else 1
            if np.prod(c["size"]) * scale * c["batch"] * o.order(g) * c["cin"] * c.get("filters", 1) < 1e5:
                return c

    # whole uses of groups and new layers, rather than calls of existing layers
    @staticmethod
    def task_configs(rng):
        out = []
        like = None
        for j in range(3):
            what = pick(rng, ["action", "action", "signal", "layer", "symmetry"]) if j != 1 else like["what"]
            same = j == 1 and rng.random() < 0.7
            d, g, s, lift = B.COMBOS[int(rng.integers(len(B.COMBOS)))]
            if what == "action" and rng.random() < 0.3:
                d, g, s = 3, "Oh", pick(rng, o.SUBGROUPS["Oh"])
            if same:
                g, s, d = like["group"], like["sub"], o.DIM[like["group"]]
            t = {"what": what, "group": g, "sub": s, "seed": int(rng.integers(2**31))}
            if what == "layer":
                if d == 3 and o.order(g) > 12:  # for the time it takes
                    d, g, s, lift = 3, "D4", "D4", lift
                elif same:
                    lift = like["lift"]
                t.update(group=g, sub=s, lift=lift)
                r = rng.random()
                t["layer"] = C20.layer_config(rng, d, g, s, lift, r < 0.75, r < 0.3)
            like = like or t
            out.append(t)
        return out

    @staticmethod
    def task(t, ctx):
        """A function that does the whole of it, and what it has to return."""
        from groco.groups import group_dict
        from groco.utils import check_equivariance

        rng = rng_for(t["seed"])
        g, s = t["group"], t["sub"]
        group, d = group_dict[g], o.DIM[g]
        axes = tuple(range(1, d + 1))
        if t["what"] == "action":
            x = ints(rng, (2, *[int(rng.integers(1, 4))] * d, 2))
            new = int(rng.integers(0, d + 3))
            want = np.stack(o.act_grid_all(g, x, axes, s), axis=new)

            def do():
                return np.asarray(group.action(x, spatial_axes=axes, new_group_axis=new, acting_group=s, domain_group=None))
        elif t["what"] == "signal":
            n = o.order(s)
            x = ints(rng, (1, *[int(rng.integers(1, 4))] * d, n, 2))
            kw = dict(spatial_axes=axes, group_axis=d + 1, new_group_axis=0, acting_group=s, domain_group=s)
            want = np.asarray(ctx.call(group.action, x, **kw))

            def do():
                return np.asarray(group.action(x, **kw))
        elif t["what"] == "symmetry":
            x = ints(rng, (1, *[int(rng.integers(2, 4))] * d, o.order(s), 2))
            weights = ints(rng, x.shape[1:])
            kw = dict(group=group, spatial_axes=axes, group_axis=d + 1, acting_group=s, domain_group=s, target_group=s)

            def layer(signal):
                return signal * weights

            want = np.asarray(ctx.call(check_equivariance, layer, x, **kw))

            def do():
                return np.asarray(check_equivariance(layer, x, **kw))
        else:
            c = t["layer"]
            x = B.values(rng, in_shape(c), c, -9, 9)
            ws = [w for w in prepare(c, ctx, rng)[1:][1] if w is not None]
            want = np.asarray(reference(c, x, (*ws, None) if len(ws) == 1 else ws))

            def do():
                layer = make(c)
                layer.build(B.layout(x, c).shape)
                if ws:
                    layer.set_weights(ws)
                return output(layer(B.layout(x, c)), c)
        return do, want, tolerance(t["layer"]) if "layer" in t else 2e-6 if t["what"] == "symmetry" else 0.0

    @staticmethod
    def tasks(case, ctx, rng):
        import sys
        import time

        made = [C20.task(t, ctx) for t in case["tasks"]]
        names = [(t["what"], t["group"], t["sub"]) for t in case["tasks"]]
        for (do, want, tol), name in zip(made, names):
            ctx.eq(ctx.call(do), want, f"{name} on its own", tol)
        (first, want, tol), (second, want2, tol2) = made[0], made[1]
        state = {"n": 0, "stop": None, "thread": None, "where": None}
        bag = []

        def other():
            try:
                bag.append((second(), None))
            except Exception as err:
                bag.append((None, err))

        def local(frame, event, arg):
            if event == "line":
                state["n"] += 1
                if state["n"] == state["stop"]:
                    state["where"] = (frame.f_code.co_filename[-24:], frame.f_lineno)
                    state["thread"] = threading.Thread(target=other, daemon=True)
                    state["thread"].start()
                    state["thread"].join(3)
            return local

        def tracer(frame, event, arg):
            return local if "/groco/" in frame.f_code.co_filename else None

        def traced(stop):
            state.update(n=0, stop=stop, thread=None, where=None)
            sys.settrace(tracer)
            try:
                return first()
            finally:
                sys.settrace(None)

        ctx.call(traced, None)
        total = state["n"]
        for stop in sorted(int(i) + 1 for i in rng.permutation(total)[:8]):
            y = ctx.call(traced, stop)
            t = state["thread"]
            if t is not None:
                t.join(60)
                if not ctx.check(not t.is_alive(), "use in another thread never ends"):
                    return
            ctx.count("preempted_tasks", int(t is not None))
            ctx.sig("tasks", names[0], names[1], state["where"])
            ctx.eq(y, want, f"{names[0]} interrupted at {state['where']} by {names[1]}", tol)
            for y2, err in bag:
                if ctx.check(err is None, f"{names[1]} in another thread failed: {err}"):
                    ctx.eq(y2, want2, f"{names[1]} while {names[0]} was at {state['where']}", tol2)
            bag.clear()

        # all of them at once
        results = []
        start = threading.Barrier(case["threads"])

        def yielding(seed):
            r = np.random.default_rng(seed)

            def line(frame, event, arg):
                if event == "line" and r.random() < 0.1:
                    time.sleep(0.0003)
                return line

            return lambda frame, event, arg: line if "/groco/" in frame.f_code.co_filename else None

        def work(t):
            sys.settrace(yielding(case["seed"] + t))
            start.wait()
            for k in range(3):
                i = (t + k) % len(made)
                try:
                    results.append((i, made[i][0](), None))
                except Exception as err:
                    results.append((i, None, err))

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            threads = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(case["threads"])]
            for t in threads:
                t.start()
            for t in threads:
                t.join(timeout=120)
        finally:
            sys.setswitchinterval(old)
        if not ctx.check(not any(t.is_alive() for t in threads), "concurrent uses did not finish"):
            return
        ctx.check(len(results) == 3 * case["threads"], "uses were lost")
        for i, y, err in results:
            ctx.count("concurrent_tasks")
            if ctx.check(err is None, f"{names[i]} failed among others: {err}"):
                ctx.eq(y, made[i][1], f"{names[i]} among others", made[i][2])
