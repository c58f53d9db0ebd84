"""execute_act against the documented Python loop, the layer itself being instrumented."""
import threading
from vmon.checks._prog import *  # noqa
from vmon.checks.c09 import compare, Margin, decisive
from vmon.probe import snap, is_tracer
from src.jax_act import AbstractACTTemplate


def make(ctx, rng, b):
    c = config(rng, ctx.x64, b, core=pick(rng, [None, None, F32, BF16] + ([F64] if ctx.x64 else [])),
               leaf_dtypes=[F32, F32, F32, BF16] + ([F64] if ctx.x64 else []), naccs=int(rng.integers(1, 4)))
    if c.core == F16:
        c.core_arg, c.core = None, F64 if ctx.x64 else F32
    for nm in c.names:
        c.uspecs[nm] = c.specs[nm]
    if c.dep == 0:
        c.dep = 1.0
    c.jit = b % 2 == 1
    c.eps_choices = [1e-4, 0.5, 0.1, 1e-9, 0.875]
    ctx.note["config"] = describe(c)
    return c


def long(ctx, c, rng):
    """As many iterations as no counter of few bits can hold."""
    n = int(pick(rng, [300, 3000, 33000, 40000, 66000, 70000]))
    early = bool(rng.integers(2))
    halts = int(n * 0.9) if early else n + 7
    init = jnp.asarray(0)

    class Long(AbstractACTTemplate):
        def make_controller(self, initial_state, *args, **kwargs):
            return self.new_builder(2).define_accumulator_by_shape("a", [2]).build()

        def setup_lazy_parameters(self, controller, state):
            pass

        def run_iteration(self, controller, state):
            h = jnp.where(state + 1 >= halts, 1.0, 0.0)
            return controller.cache_update("a", jnp.ones(2, F32)).iterate_act(jnp.stack([h, h]) * jnp.ones(2)), state + 1
    with ctx.subject(f"execute_act over {n} iterations"):
        out = {}

        def work():
            try:
                out["r"] = jax.block_until_ready(Long().execute_act(init, max_iterations=n))
            except Exception as err:
                out["error"] = err
        th = threading.Thread(target=work, daemon=True)
        th.start()
        th.join(120)
        if "error" in out:
            raise out["error"]
    if th.is_alive():
        ctx.report(f"execute_act over at most {n} iterations does not end", halting_at=halts)
    k, s = out["r"]
    want = min(n, halts)
    ctx.check(int(s) == want, f"execute_act ran {int(s)} iterations instead of {want} (bound {n})", halting_at=halts)
    ctx.check(bool(np.all(np.asarray(k.iterations) == want)), f"the iterations are {np.asarray(k.iterations)} after {want}", bound=n)
    ctx.count("long_executions")
    ctx.seen("long", n, early)


def defaults(ctx, c, rng):
    """Options which are not given, and the builder a layer offers."""
    given = {}
    if rng.random() < 0.4:
        given["depression_constant"] = float(pick(rng, [0.5, 2.0, 1.0]))
    if rng.random() < 0.4:
        given["max_iterations"] = int(pick(rng, [3, 11, 25]))
    if rng.random() < 0.3:
        given["check_for_errors"] = bool(rng.integers(2))
    fault = rng.random() < 0.3
    seen = []
    options = {}
    if rng.random() < 0.5:
        options["core_dtype"] = pick(rng, [F32, BF16, None, jnp.float32])
    if rng.random() < 0.5:
        options["epsilon"] = float(pick(rng, c.eps_choices))
    if rng.random() < 0.5:
        options["depression_constant"] = float(pick(rng, [0.5, 1.0, 3.0]))
    batch = pick(rng, [2, [2], [2, 3], 0, [], 1, [3, 1]])

    class Plain(AbstractACTTemplate):
        def make_controller(self, initial_state, depression_constant, *args, **kwargs):
            seen.append(depression_constant)
            return self.new_builder(3, depression_constant=depression_constant).define_accumulator_by_shape("a", [3]).build()

        def setup_lazy_parameters(self, controller, state):
            pass

        def run_iteration(self, controller, state):
            q = controller.cache_update("a", jnp.ones(3, F32))
            return q if fault else q.iterate_act(jnp.full(3, 2.0 ** -6)), state + 1
    layer = Plain()
    with ctx.subject("the builder of a layer"):
        a, b = layer.new_builder(batch, **options), ControllerBuilder.new_builder(batch, **options)
        positional = [options[x] for x in ("core_dtype", "epsilon", "depression_constant") if x in options] if len(options) == 3 else None
        same = [(a, b)] + ([(layer.new_builder(batch, *positional), b)] if positional else [])
        for x, y in same:
            ctx.check(type(x) is ControllerBuilder, f"the builder of a layer is a {type(x)}")
            ctx.same(tr.diff_tree(num(snap(x)), num(snap(y))), "the builder of a layer is not that of ControllerBuilder with the same arguments", batch=str(batch), options=str(options))
            for got, want in ((x.state.epsilon, options.get("epsilon", 1e-4)), (x.state.depression_constant, options.get("depression_constant", 1.0))):
                ctx.check(float(got) == want, f"a builder has {got} where {want} was asked for, or is the default", options=str(options))
    ctx.count("builders_of_layers")
    if fault:
        f = lambda: layer.execute_act(jnp.asarray(0), **given)
        if given.get("check_for_errors", True):
            ctx.raises("executing a layer which breaks its contract, with nothing said about checks", Exception, f)
            ctx.count("checked_by_default")
        return
    with ctx.subject(f"execute_act with only {sorted(given)} given"):
        k, s = layer.execute_act(jnp.asarray(0), **given)
        n, dep = int(s), given.get("depression_constant", 1.0)
    ctx.check(n == given.get("max_iterations", 10), f"{n} iterations were run with only {given} given", given=given)
    ctx.check([float(x) for x in seen] == [dep], f"make_controller was given depression constants {seen} with only {given} given")
    ctx.check(bool(np.all(tr.f64(k.probabilities) == n * dep * 2.0 ** -6)), f"the probabilities are {k.probabilities} with only {given} given")
    ctx.count("options_left_out", 3 - len(given))
    ctx.seen("defaults", tuple(sorted(given.items())), str(options), str(batch))


def stateless(ctx, c, rng):
    """Layers with no state, or hardly any."""
    state = pick(rng, [None, None, (), {}, [], {"a": None, "b": ()}, (None, [None]), 3, 2.5, True, False, 0, np.float32(1.5), jnp.asarray(2), jnp.zeros((0,)),
                       np.arange(3), tr.Pair(None, jnp.ones(1)), tr.Pair((), None)])
    bound, jit = int(rng.integers(0, 5)), bool(rng.integers(2))
    seen = []
    kind = lambda t: (tr.skeleton(tr.tmap(lambda x: 0, t)), [("tensor" if isinstance(x, jax.Array) else type(x).__name__) for _, x in tr.leaves(t)])

    class Bare(AbstractACTTemplate):
        def make_controller(self, initial_state, depression_constant, *args, **kwargs):
            seen.append(("make_controller", kind(initial_state)))
            return self.new_builder(2).define_accumulator_by_shape("a", [2, 2]).build()

        def setup_lazy_parameters(self, controller, state):
            seen.append(("setup_lazy_parameters", kind(state)))

        def run_iteration(self, controller, state):
            seen.append(("run_iteration", kind(state)))
            return controller.cache_update("a", jnp.ones((2, 2), F32)).iterate_act(jnp.asarray([0.25, 0.375])), state
    with ctx.subject(f"execute_act with the state {state!r}"):
        f = lambda s: Bare().execute_act(s, 1.0, bound)
        k, s = (jax.jit(f) if jit else f)(state)
    want = min(bound, 4)
    ctx.check(float(k.iterations[0]) == want, f"{k.iterations} iterations with the state {state!r} and bound {bound}")
    ctx.check(tr.skeleton(tr.tmap(lambda x: 0, s)) == tr.skeleton(tr.tmap(lambda x: 0, state)), f"the state {state!r} came back as {s!r}")
    ctx.check(all(np.array_equal(np.asarray(x), np.asarray(y)) for (_, x), (_, y) in zip(tr.leaves(s), tr.leaves(state))), f"the state {state!r} came back as {s!r}")
    given = kind(jax.tree_util.tree_map(jnp.asarray, state)) if jit else kind(state)
    for who, got in seen:
        ctx.check(got == given if who != "run_iteration" else got[0] == given[0], f"{who} was given a state of {got} instead of {state!r}", jit=jit)
    ctx.count("hardly_any_state")
    ctx.seen("stateless", repr(state), bound, jit)


class Probe:
    """What the layer saw."""
    def __init__(self):
        self.calls, self.runs, self.limit = [], 0, 10 ** 9

    def tick(self, *_):
        self.runs += 1
        if self.runs > self.limit:
            raise RuntimeError("VMON-RUNAWAY: more iterations than the bound allows")


class Layer(AbstractACTTemplate):
    def __init__(self, c, probe, starts, hs, gains, prehalt, counts=None, resets=False):
        self.counts, self.resets = counts, resets
        self.c, self.probe, self.starts, self.hs, self.gains, self.prehalt = c, probe, starts, hs, gains, prehalt

    def make_controller(self, initial_state, depression_constant, *args, **kwargs):
        self.probe.calls.append(("make", initial_state, depression_constant, args, kwargs))
        c = self.c
        b = self.new_builder(list(c.bshape), c.core_arg, c.eps, depression_constant)
        for n in c.names:
            b = b.define_accumulator_directly(n, self.starts[n])
        k = b.build()
        if self.prehalt is not None:
            k = TensorEditor.edit_controller(k, "silence").set_probabilities(self.prehalt).build()
        if self.counts is not None:
            k = TensorEditor.edit_controller(k, "silence").set_iterations(self.counts).build()
        self.probe.calls.append(("made", k))
        return k

    def setup_lazy_parameters(self, controller, state):
        self.probe.calls.append(("lazy", controller, state))

    def run_iteration(self, controller, state):
        self.probe.calls.append(("run",))
        jax.debug.callback(self.probe.tick, state["t"], ordered=True)
        t = state["t"]
        h = jnp.asarray(self.hs)[t % len(self.hs)]
        x = state["x"]
        for n in self.c.names:
            g = self.gains[n]
            controller = controller.cache_update(n, jax.tree_util.tree_map(
                lambda a: (jnp.ones(a.shape, a.dtype) * (1 + t % 7).astype(a.dtype) * jnp.asarray(g, a.dtype)), self.starts[n]))
        controller = controller.iterate_act(h)
        if self.resets:
            controller = controller.reset_batches()
        other = jax.tree_util.tree_map(lambda a: a[::-1] if a.ndim else a, state["other"])
        extra = {"host": state["host"]} if "host" in state else {}
        return controller, dict(**extra, t=t + 1, x=x * 0.5 + jnp.sum(controller.probabilities.astype(x.dtype)), other=other)


def loop(layer, init, dep, bound, args, kwargs):
    """The documented loop, in Python."""
    k = layer.make_controller(init, dep, *args, **kwargs)
    s, n = init, 0
    p = np.asarray(k.probabilities)
    while n < bound and not bool(np.all((tr.f64(p) > 1 - layer.c.eps) | (tr.f64(p) >= 1))):
        k, s = layer.run_iteration(k, s)
        p = np.asarray(k.probabilities)
        n += 1
    return k, s, n


KEYWORDS = ["alpha", "beta", "name", "state", "context", "controller", "layer", "config", "settings", "mode", "default", "update", "func", "function",
            "msg", "message", "params", "options", "rng", "key", "train", "dtype", "shape", "batch_shape", "epsilon", "prefix", "validate", "strict", "debug",
            "verbose", "wrapper", "batch", "result", "cls", "kwargs", "args", "metadata", "builder", "data", "x", "n", "mask", "deterministic"]


def rand_args(rng):
    args = [pick(rng, [1, "text", None, jnp.arange(3), (1, {"k": 2}), 2.5]) for _ in range(int(rng.integers(0, 4)))]
    kwargs = {k: pick(rng, [1, "v", None, [1, 2], jnp.ones(2)]) for k in rng.permutation(KEYWORDS)[:int(rng.integers(0, 4))]}
    return args, kwargs


def episode(ctx, c, rng, e):
    if e == 0 and rng.random() < 0.3:
        long(ctx, c, rng)
    if rng.random() < 0.5:
        stateless(ctx, c, rng)
    defaults(ctx, c, rng)
    starts = {}
    for nm in c.names:
        starts[nm] = start_tree(rng, c.specs[nm], "dyadic")
    nh = int(rng.integers(1, 6))
    kind = pick(rng, ["uniform", "small", "ones", "zeros", "hetero", "dyadic"])
    hs = np.stack([np.asarray(halting(rng, c, kind)) for _ in range(nh)])
    hs = jnp.asarray(hs, dtype=c.core)
    gains = {n: float(pick(rng, [0.25, 0.5, 1.0, -2.0])) for n in c.names}
    prehalt = None
    if rng.random() < 0.2:
        prehalt = jnp.asarray(np.asarray(rng.choice([1.0, 1.0, 0.0], c.bshape) if rng.random() < 0.5 else np.ones(c.bshape)), dtype=c.core)
    counts = jnp.asarray(np.asarray(rng.integers(0, 30, c.bshape)), dtype=c.core) if rng.random() < 0.25 else None
    resets = rng.random() < 0.2
    bound = int(pick(rng, [0, -1, -4, 1, 2, 3, 5, 10, 10, 17, 60, 200]))
    use_default = rng.random() < 0.15
    if use_default:
        bound = 10
    init = dict(t=jnp.asarray(int(rng.integers(0, 3))), x=jnp.asarray(rng.normal(size=(2,)), dtype=jnp.float32),
                other=pick(rng, [(), {"a": jnp.arange(3)}, [jnp.ones(2, bool), (jnp.asarray(3), jnp.ones((2, 2), jnp.bfloat16))],
                                 jnp.arange(4, dtype=jnp.uint32)]))
    if rng.random() < 0.4:      # leaves which are not arrays of jax
        init = dict(init, host=pick(rng, [3, 2.5, True, np.arange(3.0), np.float32(1.5), [1, (2.0, np.ones(2, np.int32))], {"n": 7, "w": np.ones((2, 2))},
                                          np.arange(4, dtype=np.uint8)]))
        ctx.count("states_with_host_leaves")
    check = bool(rng.integers(2))
    args, kwargs = rand_args(rng)
    dep = c.dep
    w = dict(bound=bound, check=check, jit=c.jit, hs=tr.short(hs), prehalt=tr.short(prehalt), counts=tr.short(counts), resets=resets)

    ref, probe = Probe(), Probe()
    m = Margin(ctx)
    HUB.start([m])
    try:
        with ctx.other("the documented loop"):
            k1, s1, n = loop(Layer(c, ref, starts, hs, gains, prehalt, counts, resets), init, dep, bound, args, kwargs)
            settle()
            want, want_s = snap(k1), tr.tmap(lambda x: np.asarray(jnp.asarray(x)), s1)
    finally:
        HUB.enabled = False
    if not decisive(ctx, c, m):
        return
    layer = Layer(c, probe, starts, hs, gains, prehalt, counts, resets)
    probe.limit = bound + 5
    variant = pick(rng, ["static", "traced bound", "traced depression"]) if c.jit else "eager"
    with ctx.subject(f"execute_act ({variant}, {n} iterations of at most {bound})"):
        if c.jit:
            if variant == "traced bound":
                k2, s2 = jax.jit(lambda s, mi: layer.execute_act(s, dep, mi, check, *args, **kwargs))(init, bound)
            elif variant == "traced depression":
                k2, s2 = jax.jit(lambda s, d: layer.execute_act(s, d, bound, check, *args, **kwargs))(init, dep)
            else:
                k2, s2 = jax.jit(lambda s: layer.execute_act(s, dep, bound, check, *args, **kwargs))(init)
        elif use_default and not args:
            k2, s2 = layer.execute_act(init, depression_constant=dep, check_for_errors=check, **kwargs)
        elif rng.random() < 0.3 and not args:
            k2, s2 = layer.execute_act(init, max_iterations=bound, check_for_errors=check, depression_constant=dep, **kwargs)
        else:
            k2, s2 = layer.execute_act(init, dep, bound, check, *args, **kwargs)
        jax.block_until_ready(k2.probabilities)
        settle()
        got, got_s = snap(k2), tr.tmap(np.asarray, s2)
    ctx.check(probe.runs == n, f"execute_act ran {probe.runs} iterations, the documented loop {n}", **w)
    ctx.check(type(k2) is ACT_Controller, f"execute_act gives a {type(k2)} as the controller")
    compare(ctx, c, want, got, f"execute_act against the documented loop ({n} iterations of at most {bound})", n, m.sizes)
    d = tr.close_trees(want_s, got_s, 1e-5 if c.core != BF16 else 1e-2, 1e-5 if c.core != BF16 else 1e-2)
    ctx.check(d is None, f"the final state differs: {d}", **w)
    calls(ctx, c, probe, init, dep, args, kwargs, variant)
    ctx.count("executions")
    ctx.count("iterations_observed", probe.runs)
    ctx.count("stopped_by_bound" if n == bound > 0 else "stopped_by_halting" if n else "no_iterations")
    ctx.seen(variant, check, bound, n, c.batch, str(c.core), kind)
    ctx.sample(config=ctx.note["config"], **w)


def calls(ctx, c, probe, init, dep, args, kwargs, variant):
    ks = [x[0] for x in probe.calls]
    ctx.check(ks.count("make") == 1, f"make_controller was called {ks.count('make')} times", calls=ks)
    ctx.check(ks.count("lazy") == 1, f"setup_lazy_parameters was called {ks.count('lazy')} times", calls=ks)
    ctx.check(ks[:3] == ["make", "made", "lazy"], "the controller is made and lazy parameters set up before the loop", calls=ks)
    _, s, d, a, kw = probe.calls[0]
    same = lambda x, y: x is y or not is_tracer(x) and tr.diff_tree(num(x), num(y)) is None
    if variant == "eager":
        ctx.check(tr.diff_tree(num(s), num(init)) is None, "make_controller was given another initial state")
        ctx.check(kinds(s) == kinds(init), "make_controller was given an initial state with leaves of other types", got=kinds(s), want=kinds(init))
    if variant != "traced depression":
        ctx.check(not is_tracer(d) and float(d) == float(dep), f"make_controller was given depression constant {d}, not {dep}")
    ctx.check(len(a) == len(args) and all(same(x, y) for x, y in zip(a, args)), "make_controller was given other arguments",
              got=str(a), want=str(args))
    ctx.check(sorted(kw) == sorted(kwargs) and all(same(kw[x], kwargs[x]) for x in kw), "make_controller was given other keyword "
              "arguments", got=str(kw), want=str(kwargs))
    made, lazy = probe.calls[1], probe.calls[2]
    if variant == "eager":
        ctx.same(tr.diff_tree(snap(made[1]), snap(lazy[1])), "setup_lazy_parameters was given another controller")
        ctx.same(tr.diff_tree(num(lazy[2]), num(init)), "setup_lazy_parameters was given another state")
        ctx.check(kinds(lazy[2]) == kinds(init), "setup_lazy_parameters was given a state with leaves of other types", got=kinds(lazy[2]), want=kinds(init))
    else:
        ctx.check(type(lazy[1]) is ACT_Controller and tr.tmap(lambda x: 0, lazy[2]) == tr.tmap(lambda x: 0, init),
                  "setup_lazy_parameters was given something else")


def num(t):
    return tr.tmap(lambda x: np.asarray(x) if hasattr(x, "dtype") else x, t)


def kinds(t):
    """The types of the leaves, all kinds of tensors of jax being one."""
    return [("tensor" if isinstance(x, jax.Array) else type(x).__name__) for _, x in tr.leaves(t)]
