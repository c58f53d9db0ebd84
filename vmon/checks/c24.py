"""Flax ACT layers against a float64 NumPy model of their cell and of ACT."""
import functools
import flax
from flax import linen as nn
from vmon.checks._prog import *  # noqa
from vmon.probe import is_tracer
from vmon.trees import f64, lb
from src.jax_act.frameworks.flax import FlaxACTLayer

COUNT = dict(concrete=0, shapes=[])


def counting(init):
    def f(key, shape, dtype=jnp.float32):
        out = init(key, shape, dtype)
        if not is_tracer(out):
            COUNT["concrete"] += 1
            COUNT["shapes"].append(tuple(shape))
        return out
    return f


def dense(n, bias=None):
    b = nn.initializers.normal(0.3) if bias is None else nn.initializers.constant(bias)
    return nn.Dense(n, kernel_init=counting(nn.initializers.normal(0.6)), bias_init=counting(b))


class Inner(nn.Module):
    """A module with inline definitions, used inside a layer."""
    d: int
    o: int
    hb: float

    @nn.compact
    def __call__(self, s):
        t = nn.tanh(dense(self.d)(s))
        return t, dense(self.o)(t), dense(1, self.hb)(t)


class Base(FlaxACTLayer):
    d: int
    o: int
    hb: float
    bound: int
    eps: float
    checks: bool

    def make_controller(self, initial_state, depression_constant, scale=0.0, *, shift=0.0):
        s = initial_state["s"] if isinstance(initial_state, dict) else initial_state
        b = self.new_builder(list(s.shape[:-1]), jnp.float32, self.eps, depression_constant)
        b = b.define_accumulator_directly("state", jnp.full(s.shape, scale, jnp.float32))
        b = b.define_accumulator_directly("out", {"y": jnp.full(s.shape[:-1] + (self.o,), shift, jnp.float32), "h": jnp.zeros(s.shape[:-1], jnp.float32)})
        return b.build()

    def run_iteration(self, controller, state):
        packed = isinstance(state, dict)
        s, y, logit = self.cell(state["s"] if packed else state)
        h = nn.sigmoid(jnp.squeeze(logit, -1))
        controller = controller.cache_update("out", {"y": y, "h": h}).cache_update("state", s).iterate_act(h)
        return controller, (dict(s=s, n=state["n"] + 1) if packed else s)

    def __call__(self, x, dep=1.0, scale=0.0, shift=0.0, packed=False):
        s = self.project(x)
        k, f = self.execute_act(dict(s=s, n=jnp.asarray(0)) if packed else s, dep, self.bound, self.checks, scale, shift=shift)
        return dict(y=k["out"]["y"], h=k["out"]["h"], state=k["state"], p=k.probabilities, r=k.residuals, n=k.iterations,
                    final=f["s"] if packed else f)

    def by_hand(self, x):
        """One iteration, without the loop."""
        s = self.project(x)
        k = self.make_controller(s, 1.0)
        return self.run_iteration(k, s)[0].probabilities


class Plain(Base):
    def setup(self):
        self.project = dense(self.d)
        self.rec = dense(self.d)
        self.read = dense(self.o)
        self.halt = dense(1, self.hb)

    def cell(self, s):
        t = nn.tanh(self.rec(s))
        return t, self.read(t), self.halt(t)


class Nested(Base):
    def setup(self):
        self.project = dense(self.d)
        self.inner = Inner(self.d, self.o, self.hb)

    def cell(self, s):
        return self.inner(s)


class Raw(Base):
    def setup(self):
        self.project = dense(self.d)
        g = counting(nn.initializers.normal(0.6))
        self.w = self.param("w", g, (self.d, self.d))
        self.v = self.param("v", g, (self.d, self.o))
        self.u = self.param("u", g, (self.d, 1))
        self.hbias = self.param("hbias", counting(nn.initializers.constant(self.hb)), (1,))

    def cell(self, s):
        t = nn.tanh(s @ self.w)
        return t, t @ self.v, t @ self.u + self.hbias


class Several(Base):
    def setup(self):
        self.project = dense(self.d)
        self.layers = [dense(self.d), dense(self.d)]
        self.read = dense(self.o)
        self.halt = dense(1, self.hb)

    def cell(self, s):
        t = s
        for l in self.layers:
            t = nn.tanh(l(t))
        return t, self.read(t), self.halt(t)


class Attribute(nn.Module):
    """A layer used as part of another module, given as an attribute."""
    layer: nn.Module
    twice: bool = False

    def __call__(self, *args):
        if self.twice:
            self.layer(*args)
        return self.layer(*args)

    def by_hand(self, x):
        return self.layer.by_hand(x)


class Setup(nn.Module):
    """The same, made in setup, and deeper."""
    make: object
    twice: bool = False

    def setup(self):
        self.layer = self.make()

    def __call__(self, *args):
        if self.twice:
            self.layer(*args)
        return self.layer(*args)

    def by_hand(self, x):
        return self.layer.by_hand(x)


class Inline(nn.Module):
    """The same, made inline."""
    make: object
    twice: bool = False

    @nn.compact
    def __call__(self, *args, hand=False):
        layer = self.make(name="layer")
        if hand:
            return layer.by_hand(*args)
        if self.twice:
            layer(*args)
        return layer(*args)

    def by_hand(self, x):
        return self(x, hand=True)


def spec(kind, di, d, o):
    D = lambda a, b: {"kernel": (a, b), "bias": (b,)}
    out = {"project": D(di, d)}
    if kind is Plain:
        out.update(rec=D(d, d), read=D(d, o), halt=D(d, 1))
    elif kind is Nested:
        out.update(inner={"Dense_0": D(d, d), "Dense_1": D(d, o), "Dense_2": D(d, 1)})
    elif kind is Raw:
        out.update(w=(d, d), v=(d, o), u=(d, 1), hbias=(1,))
    else:
        out.update(layers_0=D(d, d), layers_1=D(d, d), read=D(d, o), halt=D(d, 1))
    return out


def np_cell(kind, P):
    aff = lambda q, s: s @ f64(q["kernel"]) + f64(q["bias"])
    if kind is Plain:
        def cell(s):
            t = np.tanh(aff(P["rec"], s))
            return t, aff(P["read"], t), aff(P["halt"], t)
    elif kind is Nested:
        def cell(s):
            t = np.tanh(aff(P["inner"]["Dense_0"], s))
            return t, aff(P["inner"]["Dense_1"], t), aff(P["inner"]["Dense_2"], t)
    elif kind is Raw:
        def cell(s):
            t = np.tanh(s @ f64(P["w"]))
            return t, t @ f64(P["v"]), t @ f64(P["u"]) + f64(P["hbias"])
    else:
        def cell(s):
            t = s
            for i in (0, 1):
                t = np.tanh(aff(P[f"layers_{i}"], t))
            return t, aff(P["read"], t), aff(P["halt"], t)
    return cell


def model(kind, P, x, m, dep, scale, shift):
    """The layer in NumPy. Returns the outputs, the margin to the threshold and the number of iterations."""
    s = f64(x) @ f64(P["project"]["kernel"]) + f64(P["project"]["bias"])
    b = s.shape[:-1]
    p, r, n = np.zeros(b), np.zeros(b), np.zeros(b)
    acc = dict(y=np.full(b + (m.o,), shift), h=np.zeros(b), state=np.full(s.shape, scale))
    thr, margin, it = 1 - m.eps, np.inf, 0
    cell = np_cell(kind, P)
    while it < m.bound and not np.all((p > thr) | (p >= 1)):
        s, y, logit = cell(s)
        h = 1 / (1 + np.exp(-logit[..., 0]))
        live = p < 1
        t = p + dep * h
        if live.any():
            margin = min(margin, float(np.abs(np.where(live, t - thr, 9.0)).min()), float(np.abs(np.where(live, t - 1, 9.0)).min()))
        halt = live & ((t > thr) | (t >= 1))
        q = np.where(live, np.where(halt, 1.0, t), p)
        w = q - p
        for key, u in (("y", y), ("h", h), ("state", s)):
            acc[key] = acc[key] + lb(w, u.ndim) * u
        r = np.where(halt, 1 - p, r)
        n = n + live
        p = q
        it += 1
    return dict(acc, p=p, r=r, n=n, final=s), margin, it


def make(ctx, rng, b):
    class C:
        pass
    c = C()
    c.kind = [Plain, Nested, Raw, Several, Plain, Raw, Several, Plain, Several, Raw][(b + b // 8) % 10]
    c.d, c.o, c.di = (int(x) for x in rng.integers(1, 6, 3))
    c.batch = pick(rng, [(1,), (3,), (5,), (2, 3), (4, 1)])
    c.bound = int(pick(rng, [0, 1, 2, 3, 10, 10, 25]))
    c.hb = float(pick(rng, [-4.0, -2.0, -1.0, 0.0, 1.0, 6.0]))
    c.eps = float(pick(rng, [1e-4, 1e-2, 0.1, 0.3]))
    c.m = c.kind(c.d, c.o, c.hb, c.bound, c.eps, bool(rng.integers(2)))
    c.outer = [None, Attribute, None, Setup, None, Inline, None][(b + b // 7) % 7]
    if c.outer and c.kind is not Nested:
        kw = dict(d=c.d, o=c.o, hb=c.hb, bound=c.bound, eps=c.eps, checks=c.m.checks)
        twice = bool(rng.integers(2))
        c.m = Attribute(c.m, twice) if c.outer is Attribute else c.outer(functools.partial(c.kind, **kw), twice)
    else:
        c.outer = None
    ctx.note["config"] = f"{c.kind.__name__} in {c.outer.__name__ if c.outer else None} batch={c.batch} d={c.d} o={c.o} bound={c.bound} eps={c.eps} halting bias={c.hb}"
    return c


def episode(ctx, c, rng, e):
    m, kind, outer = c.m, c.kind, c.outer
    inside = (lambda p: p["layer"]) if outer else (lambda p: p)
    x = jnp.asarray(rng.normal(size=c.batch + (c.di,)), dtype=jnp.float32)
    key = jax.random.PRNGKey(int(rng.integers(1 << 30)))
    COUNT.update(concrete=0, shapes=[])
    if kind is Nested:
        try:
            m.init(key, x)
        except flax.errors.JaxTransformError as err:
            ctx.finding("inline-submodule-in-loop", "a layer whose iteration uses a module which constructs its submodules inline "
                        f"cannot be initialised: {type(err).__name__}", config=ctx.note["config"])
            return
        COUNT.update(concrete=0, shapes=[])
    with ctx.subject("initialising a Flax layer"):
        v = m.init(key, x)
    want = spec(kind, c.di, c.d, c.o)
    if outer:
        want = {"layer": want}
        ctx.count("as part of another module")
    params = v["params"]
    ctx.check(sorted(v) == ["params"], f"initialising made the collections {sorted(v)}")
    shapes = jax.tree_util.tree_map(lambda a: tuple(a.shape), flax.core.unfreeze(params) if hasattr(params, "unfreeze") else dict(params))
    ctx.check(shapes == want, "the parameters are not those the iteration uses", got=shapes, want=want)
    ctx.check(all(not is_tracer(a) for a in jax.tree_util.tree_leaves(v)), "a parameter is a tracer: made inside the loop")
    n = len(jax.tree_util.tree_leaves(params))
    ctx.check(COUNT["concrete"] == n, f"{COUNT['concrete']} parameter initialisations for {n} parameters", shapes=COUNT["shapes"])
    with ctx.other("initialising by hand"):
        direct = m.init(key, x, method=(outer or kind).by_hand)
    ctx.check(bits(direct) == bits(v), "the parameters differ from those of a single iteration by hand")
    ctx.count("initialisations")
    if e == 0:
        with ctx.subject("initialising a Flax layer under jit"):
            jv = jax.jit(m.init)(key, x)
        ctx.check(jax.tree_util.tree_map(lambda a: tuple(a.shape), jv["params"]) == jax.tree_util.tree_map(lambda a: tuple(a.shape), v["params"]),
                  "initialising under jit makes other parameters")
        close(ctx, jv, v, "parameters initialised under jit")

    if rng.random() < 0.5:
        COUNT.update(concrete=0, shapes=[])
        everything = pick(rng, [["params"], True])
        with ctx.subject("making the parameters while applying"):
            out, made = m.apply({}, x, mutable=everything, rngs={"params": key})
        ctx.check(all(not is_tracer(a) for a in jax.tree_util.tree_leaves((out, made))), "applying gives tracers")
        ctx.check(bits(made) == bits(v), "the parameters made while applying differ from those of initialising")
        ctx.check(COUNT["concrete"] == n, f"{COUNT['concrete']} parameter initialisations for {n} parameters while applying", shapes=COUNT["shapes"])
        again = m.apply(v, x)
        ctx.check(all(np.allclose(f64(out[q]), f64(again[q]), rtol=1e-5, atol=1e-6) for q in again), "the results with parameters just made differ")
        ctx.count("made_while_applying")

    dep = float(pick(rng, [1.0, 1.0, 0.5, 1.5]))
    scale, shift, packed = float(pick(rng, [0.0, 1.0])), float(pick(rng, [0.0, -2.0])), bool(rng.integers(2))
    before = bits(v)
    if rng.random() < 0.6:      # parameters as after training
        v = jax.tree_util.tree_map(lambda a: a + jnp.asarray(rng.normal(size=a.shape) * 0.2, a.dtype), v)
        before = bits(v)
    want, margin, it = model(kind, inside(v["params"]), x, c, dep, scale, shift)
    if margin < 1e-4:
        ctx.count("skipped_near_threshold")
        return
    how = ["apply", "jit", "mutable", "vmap", "apply"][int(rng.integers(5))]
    args = (x, dep, scale, shift)
    with ctx.subject(f"applying a Flax layer ({how})"):
        if how == "apply":
            got = m.apply(v, *args, packed)
        elif how == "jit":
            got = jax.jit(lambda w, x: m.apply(w, x, dep, scale, shift, packed))(v, x)
        elif how == "mutable":
            got, upd = m.apply(v, *args, packed, mutable=["params"])
            ctx.check(bits(upd) == before, "applying with mutable parameters changes them")
        else:
            other = m.init(jax.random.PRNGKey(5), x)
            both = jax.tree_util.tree_map(lambda a, b: jnp.stack([a, b]), v, other)
            out = jax.vmap(lambda w: m.apply(w, x, dep, scale, shift, packed))(both)
            got = {k: a[0] for k, a in out.items()}
            want2, margin2, _ = model(kind, inside(other["params"]), x, c, dep, scale, shift)
            if margin2 > 1e-4:
                judge(ctx, {k: a[1] for k, a in out.items()}, want2, how)
        got = {k: np.asarray(a) for k, a in got.items()}
    judge(ctx, got, want, how)
    ctx.check(bits(v) == before, "applying a layer changed its parameters")
    ctx.count("applications")
    ctx.count("iterations_modelled", it)
    ctx.count("how: " + how)
    ctx.count("stopped_by_bound" if it == c.bound else "stopped_by_halting")
    ctx.seen(ctx.note["config"], how, it, dep, packed, tr.short(want["n"]))
    ctx.sample(config=ctx.note["config"], iterations=it)
    refuse(ctx, c, rng, x)


def bits(v):
    return [(str(p), tr.bits(a)) for p, a in jax.tree_util.tree_flatten_with_path(v)[0]]


def close(ctx, a, b, what):
    ok = all(np.allclose(f64(x), f64(y), rtol=1e-5, atol=1e-6) for x, y in zip(jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)))
    ctx.check(ok, what + " differ")


def judge(ctx, got, want, how):
    for k in want:
        g = f64(got[k])
        tol = 1e-9 if k == "n" else 2e-3
        ctx.check(g.shape == want[k].shape and np.allclose(g, want[k], rtol=tol, atol=tol), f"{k} differs from iterating the cell by hand ({how})",
                  got=tr.short(got[k]), want=tr.short(want[k]))


class NoSetup(FlaxACTLayer):
    d: int = 2

    def make_controller(self, s, dep):
        return self.new_builder(list(s.shape)).define_accumulator_by_shape("x", list(s.shape)).build()

    def run_iteration(self, k, s):
        h = nn.sigmoid(nn.Dense(1)(s[..., None]))[..., 0]
        return k.cache_update("x", s).iterate_act(h), s

    @nn.compact
    def __call__(self, s):
        return self.execute_act(s)[0]["x"]


class NoSetupNoLayers(NoSetup):
    def run_iteration(self, k, s):
        return k.cache_update("x", s).iterate_act(jnp.full(s.shape, 0.5)), s

    def __call__(self, s):
        return self.execute_act(s)[0]["x"]


def refuse(ctx, c, rng, x):
    s = jnp.ones(c.batch)
    key = jax.random.PRNGKey(0)
    for cls in (NoSetup, NoSetupNoLayers):
        ctx.raises(f"initialising {cls.__name__}, which does not define setup", NotImplementedError, lambda: cls().init(key, s))
        ctx.raises(f"applying {cls.__name__}, which does not define setup", NotImplementedError, lambda: cls().apply({}, s))
        ctx.count("setup_refusals", 2)
