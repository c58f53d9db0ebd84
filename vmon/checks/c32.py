"""Work done by each operation: lines of the library executed, primitives executed and compiled, sizes of intermediates."""
import sys
import jax.core
from vmon.checks._prog import *  # noqa
from vmon import boot

SRC = boot.REPO + "/src/jax_act/"


def nested(params):
    for v in params.values():
        for x in (v if isinstance(v, (list, tuple)) else [v]):
            if isinstance(x, jax.core.ClosedJaxpr):
                yield x.jaxpr
            elif isinstance(x, jax.core.Jaxpr):
                yield x


class Meter:
    """Counts while it is entered."""

    def __enter__(self):
        self.lines, self.prims, self.biggest = 0, 0, 0
        self.old, self.tracer = jax.core.EvalTrace.process_primitive, sys.gettrace()
        meter = self

        def process(trace, prim, args, params):
            for j in nested(params):
                meter.jaxpr(j, params.get("length", 1) if prim.name == "scan" else 1)
            meter.prims += 1
            out = meter.old(trace, prim, args, params)
            for o in out if isinstance(out, (list, tuple)) else [out]:
                meter.size(np.size(o) if not hasattr(o, "size") else o.size)
            return out
        jax.core.EvalTrace.process_primitive = process

        def local(frame, event, arg):
            if event == "line":
                meter.lines += 1
            return local

        def trace(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(SRC) else None
        sys.settrace(trace)
        return self

    def __exit__(self, *exc):
        sys.settrace(self.tracer)
        jax.core.EvalTrace.process_primitive = self.old

    def size(self, n):
        self.biggest = max(self.biggest, int(n))

    def jaxpr(self, j, times=1):
        for eqn in j.eqns:
            self.prims += times
            for v in eqn.outvars:
                self.size(np.prod(v.aval.shape) if hasattr(v.aval, "shape") else 0)
            for sub in nested(eqn.params):
                self.jaxpr(sub, times * (eqn.params.get("length", 1) if eqn.primitive.name == "scan" else 1))


def measure(f):
    with Meter() as m:
        f()
    return m.lines, m.prims, m.biggest


def compiled(f, *a):
    m = Meter()
    m.lines, m.prims, m.biggest = 0, 0, 0
    m.jaxpr(jax.make_jaxpr(f)(*a).jaxpr)
    return 0, m.prims, m.biggest


class Plan:
    """A structure whose sizes are still open."""

    def __init__(self, rng, naccs):
        self.rank = int(rng.integers(1, 3))
        self.dtype = pick(rng, [F32, F32, BF16])
        self.seed = int(rng.integers(1 << 31))
        self.features = [[int(rng.integers(0, 3)) for _ in range(int(rng.integers(1, 4)))] for _ in range(naccs)]
        self.eps = float(pick(rng, [1e-4, 0.05]))

    def batch(self, size):
        return tuple([size, max(2, size // 4)][:self.rank])

    def tree(self, i, size, value):
        """The tree of an accumulator: a list of tensors, features of the given ranks."""
        b = self.batch(size)
        return [jnp.full(b + tuple(2 + (size > 8) for _ in range(r)), value, self.dtype) for r in self.features[i]]

    def build(self, size):
        b = ControllerBuilder.new_builder(list(self.batch(size)), self.dtype, self.eps)
        for i in range(len(self.features)):
            b = b.define_accumulator_directly(f"a{i}", self.tree(i, size, 0.5))
        return b.build()

    def ups(self, size, value=1.0):
        return {f"a{i}": self.tree(i, size, value) for i in range(len(self.features))}

    def half(self, size, value=0.25):
        return jnp.full(self.batch(size), value, self.dtype)


def operations(p, k, size, value=1.0, h=None):
    """name -> thunk; all arguments are prepared outside."""
    ups, h = p.ups(size, value), p.half(size, 0.25) if h is None else h
    pending = k
    for n, u in ups.items():
        pending = pending.cache_update(n, u)
    view, builder = k.make_viewer(), ControllerBuilder(k.save())
    silent, strict = TensorEditor.edit_controller(k, "silence"), TensorEditor.edit_controller(k)
    half, tree0 = p.half(size), p.tree(0, size, 0.25)
    mask = jnp.ones(p.batch(size), bool)
    spec = [list(x.shape) for x in tree0]
    return dict(cache=lambda: k.cache_update("a0", ups["a0"]), commit=lambda: pending.iterate_act(h), reset=lambda: k.reset_batches(),
                halted=lambda: view.halted_only(), mask=lambda: view.mask_data(mask), transform=lambda: view.transform(lambda x: x),
                status=lambda: (k.halted_batches, k.is_completely_halted, k.is_any_halted, pending.updates_ready_to_commit, k.has_cached_updates),
                edit=lambda: silent.set_probabilities(half).set_accumulator("a0", tree0).build(),
                checked=lambda: strict.set_probabilities(half).set_defaults("a0", tree0).build(),
                define=lambda: builder.define_accumulator_directly("new", tree0), by_shape=lambda: builder.define_accumulator_by_shape("new", spec, p.dtype),
                delete=lambda: builder.define_accumulator_directly("a0", tree0).build(),
                roundtrip=lambda: jax.tree_util.tree_map(lambda x: x, k), save=lambda: ACT_Controller.load(k.save()).make_viewer().save())


def within(ctx, a, b, what, key):
    """b, of the larger case, is no more work than a."""
    for name, x, y in zip(("lines of the library", "primitives"), a, b):
        ctx.check(y <= 1.05 * x + 5, f"{key}: {y} {name} executed where it were {x} {what}")
        ctx.count("comparisons")


def make(ctx, rng, b):
    return None


def run(p, k, size, rng, T):
    """A history."""
    long = rng.random() < 0.5      # nothing halts, the iterations add up
    for t in range(T):
        for n, u in p.ups(size, float(rng.integers(1, 4))).items():
            k = k.cache_update(n, u)
        k = k.iterate_act(p.half(size, 0.002 if long else float(rng.integers(0, 5)) / 8))
        if not long and rng.random() < 0.3:
            k = k.reset_batches()
    return k


def episode(ctx, c, rng, e):
    with ctx.other("building"):
        p = Plan(rng, int(rng.integers(1, 4)))
        small, large = 3, int(rng.integers(24, 64))
        ctx.note["config"] = f"batch {p.batch(small)} and {p.batch(large)}, {p.dtype}, features of ranks {p.features}"
        ks, kl = p.build(small), p.build(large)
        T = int(rng.integers(20, 40))
        base = operations(p, ks, small)
        late = run(p, ks, small, rng, T)
        cases = [("of a larger batch", operations(p, kl, large)), (f"after {T} iterations", operations(p, late, small)),
                 ("with special values", operations(p, ks, small, pick(rng, [0.0, float("nan"), float("inf")]), p.half(small, pick(rng, [0.0, 1.0, -1.0, float("inf")])))),
                 ("where all has halted", operations(p, halted(p, ks, small), small))]
        for f in base.values():
            f()     # what is set up at first use is not counted
    total = lambda k: sum(x.size for x in jax.tree_util.tree_leaves(k) if hasattr(x, "size"))
    for key, f in base.items():
        with ctx.subject(key):
            a = measure(f)
        for what, ops in cases:
            with ctx.subject(f"{key} {what}"):
                ops[key]()
                b = measure(ops[key])
            within(ctx, a, b, what + " than for a small new one", key)
            room = 4 * total(kl if "larger" in what else ks) + 256
            ctx.check(b[2] <= room, f"{key} {what}: an intermediate of {b[2]} elements, where all tensors have {room // 4} together")
        ctx.count("operations_measured")
        ctx.count("lines_seen", a[0])
        ctx.count("primitives_seen", a[1])
        ctx.seen(key, p.rank, str(p.features), str(p.dtype))
    # the compiled form
    with ctx.subject("tracing an iteration"):
        def it(k, u, h):
            return step(k, h, u).reset_batches()
        a = compiled(it, ks, p.ups(small), p.half(small))
        b = compiled(it, kl, p.ups(large), p.half(large))
    within(ctx, a, b, "for a larger batch", "a compiled iteration and reset")
    ctx.check(b[2] <= 4 * total(kl) + 256, f"a compiled iteration has an intermediate of {b[2]} elements, where all tensors have {total(kl)} together")
    if rng.random() < 0.6:
        growth(ctx, rng, e)
    loops(ctx, rng, p, ks, kl, small, large)
    ctx.sample(config=ctx.note["config"])


def halted(p, k, size):
    for n, u in p.ups(size).items():
        k = k.cache_update(n, u)
    return k.iterate_act(p.half(size, 1.0))


def growth(ctx, rng, e):
    """The work is linear in the number of accumulators, and of tensors of one."""
    one = [int(rng.integers(0, 3))]
    many = rng.random() < 0.6
    counts = {}
    seed = int(rng.integers(1 << 31))
    for n in (4, 8, 16):
        with ctx.other("building"):
            p = Plan(np.random.default_rng(seed), 1)
            p.features = [one] * n if many else [one * n]
            ops = operations(p, p.build(3), 3)
            for f in ops.values():
                f()
        for key, f in ops.items():
            with ctx.subject(key):
                counts[key, n] = measure(f)
    for key in ops:
        for i, name in enumerate(("lines of the library", "primitives")):
            d1, d2 = counts[key, 8][i] - counts[key, 4][i], counts[key, 16][i] - counts[key, 8][i]
            ctx.check(d2 <= 2.1 * max(d1, 0) + 8, f"{key}: the {name} executed grow faster than the number of {'accumulators' if many else 'tensors'}",
                      counts={n: counts[key, n][i] for n in (4, 8, 16)})
            ctx.count("growths")


class L(ReplayLayer):
    def __init__(self, p, k, size):
        self.p, self.k, self.ups, self.h, self.n = p, k, p.ups(size), p.half(size, 0.0), 0

    def make_controller(self, initial_state, depression_constant, *args, **kwargs):
        return self.k

    def setup_lazy_parameters(self, controller, state):
        pass

    def run_iteration(self, controller, state):
        self.n += 1
        return step(controller, self.h, self.ups), state


def loops(ctx, rng, p, ks, kl, small, large):
    """execute_act compiles to the same size whatever the bound, and each iteration of an untraced loop costs the same."""
    n = int(pick(rng, [4, 8, 12, 20, 60]))
    check = bool(rng.integers(2))
    s = jnp.zeros(2)

    def size_of(k, size, bound):
        layer = L(p, k, size)
        j = compiled(lambda s: layer.execute_act(s, 1.0, bound, check), s)
        return (layer.n, j[1]), j[2]
    with ctx.subject("tracing execute_act"):
        (a, _), (b, _), (l, big) = size_of(ks, small, 2), size_of(ks, small, n), size_of(kl, large, n)
    for got, what in ((b, f"a bound of {n} iterations"), (l, f"a bound of {n} iterations and a larger batch")):
        ctx.check(got[0] <= a[0] + 1, f"execute_act: run_iteration is called {got[0]} times while tracing with {what}, and {a[0]} times with a bound of 2")
        ctx.check(got[1] <= 1.05 * a[1] + 5, f"execute_act compiles to {got[1]} operations with {what}, and to {a[1]} with a bound of 2")
        ctx.count("comparisons", 2)
    ctx.count("loops_measured")
    if rng.random() < 0.4:
        cost = {}
        with ctx.subject("execute_act untraced"), jax.disable_jit():
            L(p, ks, small).execute_act(s, 1.0, 2, check)
            for m in (4, 8, 16):
                layer = L(p, ks, small)
                cost[m] = measure(lambda: layer.execute_act(s, 1.0, m, check))
                ctx.check(layer.n == m, f"{layer.n} iterations were run with a bound of {m} and no halting")
        for i, name in enumerate(("lines of the library", "primitives")):
            d1, d2 = cost[8][i] - cost[4][i], cost[16][i] - cost[8][i]
            ctx.check(d2 <= 2.1 * max(d1, 0) + 8, f"execute_act: the {name} executed grow faster than the number of iterations", counts={m: v[i] for m, v in cost.items()})
        ctx.count("untraced_loops_measured")
