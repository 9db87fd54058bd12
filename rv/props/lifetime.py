"""C33: what repeated use leaves behind."""
import gc
import tracemalloc
import weakref

import numpy as np

from rv import build as B
from rv import oracle as o
from rv.core import ints, pick, rng_for
from rv.props.interface import in_shape, mixed_cases, output, prepare, reference, tolerance


class C33:
    """
    The same work in several rounds: whatever is alive after a round beyond what was after the one before it,
    round after round, is accumulated.  What is kept once, such as a compiled function or a table, is not.
    """

    id = "C33"
    minima = {"rounds": 500, "calls": 2000, "freed_inputs": 400, "freed_layers": 200, "failed": 100, "failed_late": 40, "trained": 8,
              "actions": 300, "sizes": 100}
    rule = "distinct (workload, configuration) observed over repeated rounds"
    ROUNDS = 5

    @staticmethod
    def gen(seed, tier):
        rng = rng_for("C33", seed)
        k = 1 if tier == "quick" else 10
        cases = []
        kinds = ["calls", "calls", "layers", "layers", "failing", "jit", "fit", "sizes"]
        pool = [c for c in mixed_cases(rng, 170 * k) if np.prod(c["size"]) * c["batch"] < 2500]
        for i, c in enumerate(pool):
            cases.append(dict(c, work=kinds[i % 8] if c["kind"] == "conv" or i % 8 != 6 else "layers"))
        for i in range(36 * k):
            g = pick(rng, o.NAMES[2] + o.NAMES[3])
            subs = o.SUBGROUPS[g]
            cases.append({"work": "actions" if i % 3 else "groups", "group": g, "acting": pick(rng, subs),
                          "domain": pick(rng, [None, *subs]), "seed": int(rng.integers(2**31))})
        return cases

    @staticmethod
    def alive():
        import jax
        import keras

        from groco.groups import Group
        from groco.layers.group_transforms import GroupTransforms

        gc.collect()
        objects = gc.get_objects()
        arrays = jax.live_arrays()
        return {
            "arrays": len(arrays),
            "bytes of arrays": sum(a.nbytes for a in arrays),
            "layers": sum(isinstance(v, keras.layers.Layer) for v in objects if not isinstance(v, weakref.ProxyTypes)),
            "groups": sum(type(v) is Group or type(v) is GroupTransforms for v in objects),
            **C33.buffers(),
        }

    @staticmethod
    def buffers():
        """Memory of numpy arrays, which does not include any other Python objects."""
        domain = tracemalloc.DomainFilter(True, np.lib.tracemalloc_domain)
        traces = tracemalloc.take_snapshot().filter_traces([domain]).traces
        return {"numpy arrays": len(traces), "bytes of numpy arrays": sum(t.size for t in traces)}

    @staticmethod
    def run(c, ctx):
        gc.collect()
        gc.freeze()  # leaves out all there was before, which makes it fast
        tracemalloc.start()
        try:
            C33.rounds(c, ctx)
        finally:
            tracemalloc.stop()
            gc.unfreeze()

    @staticmethod
    def rounds(c, ctx):
        rng = rng_for(c["seed"])
        work = getattr(C33, c["work"])(c, ctx, rng)
        n = next(work)  # how often a round repeats it
        history = []
        for _ in range(C33.ROUNDS):
            next(work)
            history.append(C33.alive())
            ctx.count("rounds")
        work.close()
        ctx.sig(c["work"], c.get("group"), c.get("subgroup"), c.get("kind"), c.get("transpose"), c.get("dims"), c.get("seed"))
        ctx.count("evaluations")
        for what in history[0]:
            values = [h[what] for h in history]
            growth = [b - a for a, b in zip(values, values[1:])][-3:]
            ctx.check(min(growth) < 1, f"{what} after each round of {n} times the same work ({c['work']}): {values}")

    # each of these yields the number of repetitions per round, and then after every round
    @staticmethod
    def calls(c, ctx, rng):
        """One layer, called over and over."""
        import jax.numpy as jnp

        layer, x, ws = prepare(c, ctx, rng)
        want = reference(c, x, ws)
        n = 6
        yield n
        while True:
            refs = []
            for i in range(n):
                xl = np.array(B.layout(x, c)) if i % 2 else jnp.array(B.layout(x, c))
                y = ctx.call(layer, xl)
                ctx.count("calls")
                refs += [weakref.ref(xl), weakref.ref(y)]
            ctx.eq(output(y, c), want, "repeated call", tolerance(c))
            del xl, y
            gc.collect()
            kept = sum(r() is not None for r in refs)
            ctx.check(not kept, f"{kept} of the {2 * n} inputs and outputs of the calls are still alive")
            ctx.count("freed_inputs", len(refs) - kept)
            yield

    @staticmethod
    def sizes(c, ctx, rng):
        """One layer, called with inputs of several sizes in turn."""
        layer, x, ws = prepare(c, ctx, rng)
        inputs = [x]
        for b in (1, 2, 4):
            inputs.append(np.concatenate([x] * b, 0)[: x.shape[0] * b])
        steps = o.tup(c.get("strides") or c.get("pool_size") or 1, c["dims"])
        if c["kind"] != "global":  # as equivariant as the one it was built with
            inputs.append(np.concatenate([x] * (2 * steps[0] + 1), 1) if min(x.shape[1 : 1 + c["dims"]]) > 1 else x)
        good = []
        for z in inputs:
            try:
                layer(B.layout(z, c))
                good.append(z)
            except ValueError:
                continue
        ctx.count("sizes", len(good))
        yield len(good)
        while True:
            for z in good:
                ctx.call(layer, B.layout(z, c))
                ctx.count("calls")
            yield

    @staticmethod
    def layers(c, ctx, rng):
        """Layers that are made, built, called and dropped."""
        state = rng.bit_generator.state
        n = 2
        yield n
        while True:
            refs = []
            for _ in range(n):
                rng.bit_generator.state = state
                layer, x, ws = prepare(c, ctx, rng)
                ctx.call(layer, B.layout(x, c))
                ctx.call(layer, B.layout(x, c))
                ctx.call(layer.get_config)
                refs.append(weakref.ref(layer))
                del layer
            gc.collect()
            kept = sum(r() is not None for r in refs)
            ctx.check(not kept, f"{kept} of {n} layers are still alive after the last reference to them")
            ctx.count("freed_layers", n - kept)
            yield

    @staticmethod
    def failing(c, ctx, rng):
        """Calls that are rejected, or fail half way, in between of ones that are not."""
        import jax
        import jax.numpy as jnp
        import keras

        class Late(Exception):
            pass

        armed = []
        inner = keras.activations.get(c.get("activation"))

        def activation(z):
            if armed:
                raise Late
            return inner(z)

        layer, x, ws = prepare(c, ctx, rng)
        ctx.call(layer, B.layout(x, c))
        bad = B.layout(x, c)[..., None]
        if c["kind"] == "conv":
            layer.activation = activation
        n = 4
        yield n
        first = True
        while True:
            refs = []
            gc.collect()
            before = len(jax.live_arrays())
            for i in range(n):
                late = c["kind"] == "conv" and i % 2 == 1
                z = jnp.array(B.layout(x, c) if late else bad)
                if late:
                    armed.append(1)
                refused, err = ctx.refused(layer, z, exc=Exception)
                if late:
                    armed.clear()
                    ctx.count("failed_late", int(refused))
                ctx.count("failed", int(refused))
                refs.append(weakref.ref(z))
                del z, err
            gc.collect()
            kept = sum(r() is not None for r in refs)
            ctx.check(not kept, f"{kept} of the {n} inputs of calls that failed are still alive")
            more = len(jax.live_arrays()) - before
            # the first round may leave something for later use
            ctx.check(first or more <= 0, f"{more} more arrays are alive after {n} calls that failed than before them")
            first = False
            for i in range(n):
                ctx.call(layer, B.layout(x, c))
                ctx.count("calls")
            ctx.count("freed_inputs", n - kept)
            yield

    @staticmethod
    def jit(c, ctx, rng):
        """One layer within functions that are compiled anew, differentiated, and dropped."""
        import jax
        import jax.numpy as jnp

        layer, x, ws = prepare(c, ctx, rng)
        xl = jnp.asarray(B.layout(x, c))
        ctx.call(layer, xl)
        n = 1
        yield n
        while True:
            f = jax.jit(lambda z: layer(z))
            ref = weakref.ref(ctx.call(f, xl))
            ctx.call(jax.grad(lambda z: jnp.sum(layer(z))), xl)
            ctx.count("calls", 2)
            del f
            gc.collect()
            ctx.check(ref() is None, "the result of a compiled call is still alive")
            yield

    @staticmethod
    def fit(c, ctx, rng):
        """Epochs of training."""
        import keras

        layer, x, ws = prepare(dict(c, activation=None), ctx, rng)
        xl = B.layout(x, c)
        y = np.zeros(ctx.call(layer, xl).shape, "float32")
        model = keras.Sequential([keras.Input(xl.shape[1:]), layer])
        model.compile(optimizer=keras.optimizers.SGD(1e-6), loss="mse")
        n = 2
        yield n
        while True:
            ctx.call(model.fit, xl, y, batch_size=1, epochs=n, verbose=0)
            ctx.call(model.predict, xl, verbose=0)
            ctx.count("trained")
            yield

    @staticmethod
    def actions(c, ctx, rng):
        """A group acting, and the check of equivariance of a function."""
        import jax.numpy as jnp

        from groco.groups import group_dict
        from groco.utils import check_equivariance

        g = group_dict[c["group"]]
        d = o.DIM[c["group"]]
        shape = (2, *[3] * d, *([o.order(c["domain"])] if c["domain"] else []), 1)
        x = ints(rng, shape, -9, 9)
        n = 3
        kw = dict(spatial_axes=tuple(range(1, d + 1)), group_axis=d + 1 if c["domain"] else None,
                  acting_group=c["acting"], domain_group=c["domain"])
        yield n
        while True:
            refs = []
            for i in range(n):
                s = np.array(x) if i % 2 else jnp.array(x)
                y = ctx.call(g.action, s, new_group_axis=0, **kw)
                dev = ctx.call(check_equivariance, lambda z: z * 2, s, group=g, target_group=c["domain"], **kw)
                ctx.check(float(dev) == 0, f"deviation {float(dev)} of doubling")
                refs += [weakref.ref(s), weakref.ref(y)]
                ctx.count("actions")
            del s, y, dev
            gc.collect()
            kept = sum(r() is not None for r in refs)
            ctx.check(not kept, f"{kept} of {2 * n} signals are still alive after they were acted on")
            ctx.count("freed_inputs", len(refs) - kept)
            yield

    @staticmethod
    def groups(c, ctx, rng):
        """Groups derived from a named one, used and dropped."""
        from groco.groups import Group, group_dict

        parent = group_dict[c["group"]]
        sub = c["acting"]
        d = o.DIM[c["group"]]
        x = ints(rng, (1, *[2] * d, 1), -9, 9)
        n = 2
        yield n
        while True:
            refs = []
            for _ in range(n):
                g = ctx.call(Group, name=sub, order=o.order(sub), parent=parent)
                ctx.call(g.action, x, spatial_axes=tuple(range(1, d + 1)), new_group_axis=0, domain_group=None)
                refs.append(weakref.ref(g))
                ctx.count("actions")
                del g
            gc.collect()
            kept = sum(r() is not None for r in refs)
            ctx.check(not kept, f"{kept} of {n} groups are still alive after the last reference to them")
            yield
