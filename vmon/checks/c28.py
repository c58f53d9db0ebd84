"""execute_act inside JAX's transformations, control flow and other ACT layers, against a float64 NumPy model."""
from vmon.checks._prog import *  # noqa
from vmon.trees import f64, lb
from src.jax_act import AbstractACTTemplate

HOW = ["vmap", "nested", "scan", "vmap of jit", "disable_jit", "checkpoint", "pmap", "jvp", "fori", "cond", "eval_shape", "sharded", "twice",
       "vmap", "nested", "traced bound", "reused", "vmap bounds", "aot", "vmap depression", "nested vmap", "donate", "linearize", "map"]


def make(ctx, rng, b):
    class C:
        pass
    c = C()
    c.how = HOW[(b + b // 8) % len(HOW)]
    c.batch = pick(rng, [(), (2,), (3,), (2, 3), (4,), (1,)])
    if c.how == "sharded":
        c.batch = pick(rng, [(2,), (4,), (2, 3)])
    c.eps = float(pick(rng, [1e-4, 1e-2, 0.1, 0.3]))
    c.dep = float(pick(rng, [1.0, 1.0, 0.5, 1.5]))
    c.bound = int(pick(rng, [0, 1, 3, 6, 10, 10]))
    c.check = bool(rng.integers(2))
    c.counted = int(pick(rng, [0, 0, 0, 50, 7, 2]))
    c.nh = int(rng.integers(1, 5))
    ctx.note["config"] = f"{c.how} batch={c.batch} eps={c.eps} dep={c.dep} bound={c.bound} checks={c.check} counted={c.counted}"
    return c


class Layer(AbstractACTTemplate):
    """The update is made from the state, the halting probabilities are part of the state."""
    bad = False

    def __init__(self, c):
        self.c = c

    def make_controller(self, state, depression_constant, offset=0.0):
        x = state["x"]
        b = self.new_builder(list(x.shape), jnp.float32, self.c.eps, depression_constant)
        b = b.define_accumulator_directly("a", jnp.stack([x * 0, x * 0 + 1], -1) + offset)
        k = b.define_accumulator_by_shape("b", {"u": list(x.shape)}).build()
        if self.c.counted:      # iterations of before, which are no concern of the bound
            k = TensorEditor.edit_controller(k, "silence").set_iterations(k.iterations + self.c.counted).build()
        return k

    def setup_lazy_parameters(self, controller, state):
        pass

    def run_iteration(self, controller, state):
        x, t = state["x"], state["t"]
        if self.bad:
            return controller, state
        h = state["hs"][t % state["hs"].shape[0]]
        controller = controller.cache_update("a", jnp.stack([x, 2 * x], -1)).cache_update("b", {"u": x + t.astype(x.dtype)})
        controller = controller.iterate_act(h)
        return controller, dict(state, x=jnp.tanh(1.3 * x + 0.2), t=t + 1)

    def __call__(self, hs, x, dep=None, offset=0.0, bound=None, check=None):
        c = self.c
        k, s = self.execute_act(dict(hs=hs, x=x, t=jnp.asarray(0)), c.dep if dep is None else dep, c.bound if bound is None else bound,
                                c.check if check is None else check, offset)
        return dict(a=k["a"], u=k["b"]["u"], p=k.probabilities, r=k.residuals, n=k.iterations, x=s["x"], t=s["t"])


class Outer(AbstractACTTemplate):
    """Each iteration runs a whole ACT process of another layer."""
    def __init__(self, c, inner):
        self.c, self.inner = c, inner

    def make_controller(self, state, depression_constant):
        b = self.new_builder(list(state["x"].shape), jnp.float32, self.c.eps, depression_constant)
        return b.define_accumulator_by_shape("o", list(state["x"].shape) + [2]).define_accumulator_by_shape("n", list(state["x"].shape)).build()

    def setup_lazy_parameters(self, controller, state):
        pass

    def run_iteration(self, controller, state):
        t = state["t"]
        i = self.inner(state["hs"], state["x"])
        controller = controller.cache_update("o", i["a"]).cache_update("n", i["n"])
        controller = controller.iterate_act(state["ho"][t % state["ho"].shape[0]])
        return controller, dict(state, x=i["x"], t=t + 1)

    def __call__(self, hs, ho, x):
        k, s = self.execute_act(dict(hs=hs, ho=ho, x=x, t=jnp.asarray(0)), self.c.dep, self.c.bound, self.c.check)
        return dict(o=k["o"], n2=k["n"], p=k.probabilities, r=k.residuals, n=k.iterations, x=s["x"], t=s["t"])


class NpAct:
    """ACT in NumPy."""
    def __init__(self, c, b, accs, dep, n=0):
        self.p, self.r, self.n, self.acc = np.zeros(b), np.zeros(b), np.zeros(b) + n, accs
        self.thr, self.dep, self.margin = 1 - c.eps, dep, np.inf

    def done(self):
        return bool(np.all((self.p > self.thr) | (self.p >= 1)))

    def go(self, h, ups):
        live = self.p < 1
        t = self.p + self.dep * np.clip(h, 0, 1)
        if live.any():
            self.margin = min(self.margin, float(np.min(np.where(live, np.minimum(np.abs(t - self.thr), np.abs(t - 1)), 9.0))))
        halt = live & ((t > self.thr) | (t >= 1))
        q = np.where(live, np.where(halt, 1.0, t), self.p)
        for k, u in ups.items():
            self.acc[k] = self.acc[k] + lb(q - self.p, u.ndim) * u
        self.r = np.where(halt, 1 - self.p, self.r)
        self.n, self.p = self.n + live, q


def model(c, hs, x, dep=None, offset=0.0, bound=None):
    bound = c.bound if bound is None else bound
    hs, x, t = f64(hs), f64(x), 0
    A = NpAct(c, x.shape, n=c.counted, accs=dict(a=np.stack([x * 0, x * 0 + 1], -1) + offset, u=x * 0), dep=c.dep if dep is None else dep)
    while t < bound and not A.done():
        A.go(hs[t % len(hs)], dict(a=np.stack([x, 2 * x], -1), u=x + t))
        x, t = np.tanh(1.3 * x + 0.2), t + 1
    return dict(A.acc, p=A.p, r=A.r, n=A.n, x=x, t=np.asarray(t)), A.margin


def model_outer(c, hs, ho, x):
    ho, x, t = f64(ho), f64(x), 0
    A = NpAct(c, x.shape, dict(o=np.zeros(x.shape + (2,)), n2=np.zeros(x.shape)), c.dep)
    m = np.inf
    while t < c.bound and not A.done():
        i, mi = model(c, hs, x)
        A.go(ho[t % len(ho)], dict(o=i["a"], n2=i["n"]))
        x, t, m = i["x"], t + 1, min(m, mi)
    return dict(A.acc, p=A.p, r=A.r, n=A.n, x=x, t=np.asarray(t)), min(m, A.margin)


def judge(ctx, got, want, what):
    for k in want:
        g, w = f64(got[k]), want[k]
        ctx.check(g.shape == w.shape and np.allclose(g, w, rtol=1e-4, atol=1e-4), f"{k} of execute_act ({what}) is not that of the ACT process",
                  got=tr.short(got[k]), want=tr.short(w))
    ctx.count("results_judged")


def inputs(rng, c, lead=()):
    kind = int(rng.integers(4))
    shape = lead + (c.nh,) + c.batch
    h = rng.random(shape) * [1.0, 0.3, 0.1, 0.6][kind]
    if kind == 3:
        h = np.where(rng.random(shape) < 0.2, 1.0, h)
    x = rng.normal(size=lead + c.batch)
    return jnp.asarray(np.asarray(h), jnp.float32), jnp.asarray(np.asarray(x), jnp.float32)


def stacked(models):
    ms = [m for m, _ in models]
    return {k: np.stack([m[k] for m in ms]) for k in ms[0]}, min(g for _, g in models)


def reused(ctx, c, rng, L, hs, x):
    """Executions of one layer object, checked or not, with executions that break the contract in between."""
    rs = []
    for i in range(len(hs)):
        for _ in range(int(rng.integers(3))):
            L.bad, check = True, bool(rng.integers(2))
            try:
                r = L(hs[i], x[i], bound=3, check=check)
                ctx.check(not check, "an execution that breaks the contract is not refused although errors are checked, after other executions of the same layer")
                ctx.check(np.all(np.asarray(r["n"]) == L.c.counted), "an unchecked execution was changed by other executions of the same layer")
            except RuntimeError as err:
                ctx.check(check, f"an execution without checks was refused, after other executions of the same layer: {str(err)[:200]}")
            ctx.count("executions_in_between")
        L.bad = False
        rs.append(L(hs[i], x[i], check=bool(rng.integers(2))))
    return jax.tree_util.tree_map(lambda *a: jnp.stack(a), *rs)


def episode(ctx, c, rng, e):
    L = Layer(c)
    how = c.how
    many = how in ("vmap", "vmap of jit", "scan", "fori", "pmap", "vmap depression", "map", "nested vmap", "twice",
                   "vmap bounds", "reused")
    n = 2 if how == "pmap" else int(rng.integers(2, 5))
    hs, x = inputs(rng, c, (n,) if many else ())
    deps = jnp.asarray([float(pick(rng, [0.5, 1.0, 1.5])) for _ in range(n)], jnp.float32)
    f = lambda h, x: L(h, x)
    if how in ("scan", "fori", "twice"):
        want, y = [], f64(x[0])
        for i in range(len(hs)):
            w = model(c, hs[i], y)
            want.append(w)
            y = w[0]["x"]
        want, margin = stacked(want)
    elif how in ("nested", "nested vmap"):
        ho = jnp.asarray(np.asarray(rng.random(hs.shape[1:] if many else hs.shape) * 0.6), jnp.float32)
        if many:
            want, margin = stacked([model_outer(c, hs[i], ho, x[i]) for i in range(n)])
        else:
            want, margin = model_outer(c, hs, ho, x)
    elif how == "vmap bounds":
        bounds = [int(x) for x in rng.integers(0, 8, n)]
        want, margin = stacked([model(c, hs[i], x[i], bound=bounds[i]) for i in range(n)])
    elif how == "vmap depression":
        want, margin = stacked([model(c, hs[i], x[i], float(deps[i]), 0.5) for i in range(n)])
    elif many:
        want, margin = stacked([model(c, hs[i], x[i]) for i in range(n)])
    else:
        want, margin = model(c, hs, x)
    if margin < 1e-4:
        ctx.count("skipped_near_threshold")
        return

    with ctx.subject(f"execute_act ({how})"):
        if how == "vmap":
            got = jax.vmap(f)(hs, x)
        elif how == "vmap bounds":
            got = jax.vmap(lambda h, x, m: L(h, x, bound=m))(hs, x, jnp.asarray(bounds))
        elif how == "traced bound":
            got = (jax.jit(lambda h, x, m: L(h, x, bound=m)) if rng.random() < 0.7 else lambda h, x, m: L(h, x, bound=jnp.asarray(m)))(hs, x, c.bound)
        elif how == "reused":
            got = reused(ctx, c, rng, L, hs, x)
        elif how == "vmap of jit":
            got = jax.vmap(jax.jit(f))(hs, x)
        elif how == "vmap depression":
            got = jax.vmap(lambda h, x, d: L(h, x, d, 0.5))(hs, x, deps)
        elif how == "pmap":
            got = jax.pmap(f)(hs, x)
        elif how == "map":
            got = jax.lax.map(lambda a: f(*a), (hs, x))
        elif how == "nested":
            o = Outer(c, L)
            got = (jax.jit(o) if rng.random() < 0.5 else o)(hs, ho, x)
        elif how == "nested vmap":
            o = Outer(c, L)
            got = jax.vmap(lambda h, x: o(h, ho, x))(hs, x)
        elif how == "scan":
            def body(y, h):
                r = f(h, y)
                return r["x"], r
            got = jax.jit(lambda y, hs: jax.lax.scan(body, y, hs)[1])(x[0], hs)
        elif how == "twice":
            def run(y, hs):
                rs = []
                for i in range(n):
                    rs.append(f(hs[i], y))
                    y = rs[-1]["x"]
                return jax.tree_util.tree_map(lambda *a: jnp.stack(a), *rs)
            got = jax.jit(run)(x[0], hs) if rng.random() < 0.5 else run(x[0], hs)
        elif how == "fori":
            out0 = jax.tree_util.tree_map(lambda a: jnp.zeros((n,) + a.shape, a.dtype), jax.eval_shape(f, hs[0], x[0]))

            def fb(i, s):
                y, out = s
                r = f(hs[i], y)
                return r["x"], jax.tree_util.tree_map(lambda o, a: o.at[i].set(a), out, r)
            got = jax.lax.fori_loop(0, n, fb, (x[0], out0))[1]
        elif how == "disable_jit":
            with jax.disable_jit():
                got = f(hs, x)
        elif how == "checkpoint":
            got = jax.jit(jax.checkpoint(f))(hs, x)
        elif how == "jvp":
            got, tangent = jax.jvp(f, (hs, x), (jnp.ones_like(hs), jnp.ones_like(x)))
            finite = all(bool(jnp.all(jnp.isfinite(v))) for v in jax.tree_util.tree_leaves(tangent) if v.dtype == jnp.float32)
            ctx.check(finite, "tangents through execute_act are not finite", tangent=tangent)
        elif how == "linearize":
            got, lin = jax.linearize(lambda h: f(h, x)["p"], hs)
            got = {"p": got}
            want = {"p": want["p"]}
            _, t2 = jax.jvp(lambda h: f(h, x)["p"], (hs,), (jnp.ones_like(hs),))
            ctx.check(np.allclose(f64(lin(jnp.ones_like(hs))), f64(t2), atol=1e-5), "linearize and jvp through execute_act disagree")
        elif how == "cond":
            q = bool(rng.integers(2))
            other = Layer(c)
            got = jax.jit(lambda b, h, x: jax.lax.cond(b, lambda: f(h, x), lambda: jax.tree_util.tree_map(lambda a: a + 1 if a.dtype != jnp.int32 else a, other(h, x))))(
                q, hs, x)
            if not q:
                got = {k: v - 1 if v.dtype != jnp.int32 else v for k, v in got.items()}
        elif how == "eval_shape":
            shapes = jax.eval_shape(f, hs, x)
            got = f(hs, x)
            for k in got:
                ctx.check(shapes[k].shape == got[k].shape and shapes[k].dtype == got[k].dtype, f"eval_shape of execute_act says {shapes[k]} for {k}, which is "
                          f"{got[k].dtype}{got[k].shape}")
        elif how == "sharded":
            from jax.sharding import Mesh, NamedSharding, PartitionSpec as P
            mesh = Mesh(np.array(jax.devices()[:2]), ("d",))
            ctx.count("devices", len(mesh.devices))
            got = jax.jit(f)(jax.device_put(hs, NamedSharding(mesh, P(None, "d"))), jax.device_put(x, NamedSharding(mesh, P("d"))))
        elif how == "aot":
            got = jax.jit(f).lower(hs, x).compile()(hs, x)
        elif how == "donate":
            got = jax.jit(f, donate_argnums=(0, 1))(jnp.array(hs), jnp.array(x))
        else:
            raise KeyError(how)
        jax.block_until_ready(got)
        got = {k: np.asarray(v) for k, v in got.items()}
    judge(ctx, got, want, how)
    ctx.count("how: " + how)
    t = np.asarray(want.get("t", 0)).reshape(-1)
    ctx.count("iterations_modelled", int(t.sum()))
    if t.size > 1 and t.min() != t.max():
        ctx.count("examples_stopping_apart")
    ctx.seen(how, ctx.note["config"], t.tobytes(), tr.short(want["p"]))
    ctx.sample(config=ctx.note["config"], iterations=t.tolist())
