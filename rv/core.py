"""Shared machinery: environment, monitors, contexts, random case generation helpers."""
import hashlib
import itertools
import json
import os
import sys
import threading
import time
import traceback

REPO = os.environ.get("GROCO_REPO", "/repo")


def setup_env(backend="jax"):
    os.environ["KERAS_BACKEND"] = backend
    os.environ["JAX_PLATFORMS"] = "cpu"
    os.environ.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false")
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ.setdefault(v, "1")
    os.environ["TF_CPP_MIN_LOG_LEVEL"] = "3"
    sys.dont_write_bytecode = True
    # a keras.json of the machine must not matter
    os.environ["KERAS_HOME"] = os.environ.get("RV_SCRATCH", "/nonexistent") + "/keras"
    if backend == "numpy":
        _stub_torch()
    sys.path.insert(0, REPO)


def _stub_torch():
    """keras 3.0's numpy backend imports torch for one unrelated function; stand in for it."""
    import importlib.machinery
    import types

    class _M(types.ModuleType):
        def __getattr__(self, n):
            if n.startswith("__"):
                raise AttributeError(n)
            m = _M(self.__name__ + "." + n)
            setattr(self, n, m)
            return m

        def __call__(self, *a, **k):
            return self

        def __mro_entries__(self, b):
            return (object,)

    class F:
        def find_spec(self, name, path=None, target=None):
            if name == "torch" or name.startswith("torch."):
                return importlib.machinery.ModuleSpec(name, self, is_package=True)

        def create_module(self, spec):
            m = _M(spec.name)
            m.__path__ = []
            return m

        def exec_module(self, m):
            pass

    sys.meta_path.insert(0, F())


class RepoFailure(Exception):
    """The code under test failed where the property says it has to work."""


class Violation(Exception):
    pass


class Ctx:
    """Collects what one case observed."""

    def __init__(self, prop, case):
        self.prop, self.case = prop, case
        self.counts = {}
        self.sigs = set()
        self.violations = []
        self.sample = None

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sig(self, *parts):
        self.sigs.add(hashlib.md5(json.dumps(parts, default=str).encode()).hexdigest()[:12])

    def fail(self, msg, mech=""):
        self.violations.append({"msg": str(msg)[:600], "mech": mech})

    def check(self, cond, msg, mech=""):
        self.count("evaluations")
        if not cond:
            self.fail(msg, mech)
        return bool(cond)

    def eq(self, got, want, msg, tol=0.0, mech=""):
        """Elementwise comparison; tol is relative to the scale of `want`, 0 means exact."""
        import numpy as np

        self.count("evaluations")
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.fail(f"{msg}: shape {got.shape}, expected {want.shape}", mech)
            return False
        if got.size == 0:
            return True
        if np.iscomplexobj(got) or np.iscomplexobj(want):
            got, want = (np.stack([np.real(v), np.imag(v)]) for v in (got, want))
        got = got.astype(float)
        want = want.astype(float)
        self.count("values", int(got.size))
        scale = max(1.0, float(np.max(np.abs(want[np.isfinite(want)]), initial=0.0)))
        bad = ~(np.abs(got - want) <= tol * scale)
        bad &= ~((got == want) | (np.isnan(got) & np.isnan(want)))
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            self.fail(
                f"{msg}: {int(bad.sum())} of {got.size} values differ, e.g. at {i}: "
                f"{got[i]!r}, expected {want[i]!r}",
                mech,
            )
            return False
        return True

    def call(self, fn, *a, **k):
        """Call into the code under test where it has to work."""
        try:
            return fn(*a, **k)
        except Exception as err:
            tb = traceback.format_exc().strip().splitlines()[-4:]
            raise RepoFailure(f"{type(err).__name__}: {str(err)[:300]} | {' '.join(tb)[:300]}")

    def refused(self, fn, *a, exc=Exception, **k):
        """(refused?, result) of a call that may be refused with an exception of type exc."""
        try:
            return False, fn(*a, **k)
        except exc as err:
            return True, err


# --------------------------------------------------------------------------------------------
# monitor at the boundary: every call of a GroCo layer becomes an event
# --------------------------------------------------------------------------------------------
class Monitor:
    def __init__(self):
        self.events = []
        self.lock = threading.Lock()
        self.on_event = None
        self.seq = itertools.count()

    def install(self):
        import keras
        import groco.layers as GL
        from groco.layers import pooling

        classes = [
            c
            for c in list(vars(GL).values()) + list(vars(pooling).values())
            if isinstance(c, type)
            and issubclass(c, keras.layers.Layer)
            and c.__module__.startswith("groco")
        ]
        monitor = self
        for cls in set(classes):
            if "__call__" in vars(cls):
                continue

            def make(cls):
                def __call__(self, *a, **k):
                    if type(self) is not cls:  # only the outermost class records
                        return super(cls, self).__call__(*a, **k)
                    ev = {
                        "layer": cls.__name__,
                        "seq": next(monitor.seq),
                        "thread": threading.get_ident(),
                        "in": tuple(getattr(a[0], "shape", ())) if a else None,
                    }
                    try:
                        out = super(cls, self).__call__(*a, **k)
                        ev["out"] = tuple(getattr(out, "shape", ()))
                        return out
                    except BaseException as err:
                        ev["error"] = type(err).__name__
                        raise
                    finally:
                        ev["end"] = next(monitor.seq)
                        with monitor.lock:
                            monitor.events.append(ev)

                return __call__

            cls.__call__ = make(cls)

    def drain(self):
        with self.lock:
            ev, self.events = self.events, []
        return ev


MONITOR = Monitor()


# --------------------------------------------------------------------------------------------
# case helpers
# --------------------------------------------------------------------------------------------
def rng_for(*parts):
    import numpy as np

    h = hashlib.sha256(json.dumps(parts, default=str).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "little"))


def pick(rng, seq, p=None):
    return seq[int(rng.choice(len(seq), p=p))]


def ints(rng, shape, lo=-9, hi=9, dtype="float32"):
    return rng.integers(lo, hi + 1, size=shape).astype(dtype)


def brief(case):
    return {k: v for k, v in case.items() if v not in (None, "", False) and k != "seed"}
