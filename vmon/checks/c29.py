"""JAX's own sanitizers on whole processes: checkify's NaN, division and index checks, debug_nans, debug_infs."""
import contextlib
from jax.experimental import checkify
from vmon.checks._prog import *  # noqa
from vmon.checks.c16 import has_half
from vmon.probe import snap

CHECKS = checkify.float_checks | checkify.index_checks | checkify.user_checks


def make(ctx, rng, b):
    c = config(rng, ctx.x64, b, naccs=int(rng.integers(1, 4)), leafless=0.05)
    for nm in c.names:      # updates of the accumulator's own dtypes
        c.uspecs[nm] = c.specs[nm]
    c.half = has_half(c)
    c.T = int(rng.integers(2, 6))
    ctx.note["config"] = describe(c)
    return c


def gentle(rng, c):
    """A program of finite, moderate numbers."""
    prog = program(rng, c, c.T, resets=0.3)
    for s in prog:
        h = np.clip(np.nan_to_num(tr.f64(s["h"]), nan=0.5, posinf=3.0, neginf=-2.0), -50, 50)
        s["h"] = jnp.asarray(h, dtype=c.core)
        s["ups"] = {nm: tr.tmap(lambda x: jnp.asarray(np.clip(tr.f64(x), -20, 20), dtype=x.dtype), t) for nm, t in s["ups"].items()}
    return prog


@contextlib.contextmanager
def strict():
    """Every primitive's result is looked at."""
    with contextlib.ExitStack() as st:
        st.enter_context(jax.debug_nans(True))
        st.enter_context(jax.debug_infs(True))
        yield


def use(ctx, c, rng, k, prog):
    """A process with viewers and edits on the way."""
    for s in prog:
        if s["reset"]:
            k = k.reset_batches()
        for nm in s["order"][:-1]:
            k = k.cache_update(nm, s["ups"][nm])
        v = k.make_viewer()
        v.halted_only(), v.unhalted_only().halted_only()
        v.transform(lambda x: x)
        k = k.cache_update(s["order"][-1], s["ups"][s["order"][-1]])
        k = k.iterate_act(s["h"])
        k.is_completely_halted, k.is_any_halted, k.updates_ready_to_commit
        if rng.random() < 0.4:
            ed = TensorEditor.edit_controller(k, pick(rng, ["standard", "silence"]))
            p = jnp.asarray(np.asarray(rng.integers(0, 9, c.bshape)) / 8.0, dtype=c.core)
            nm = pick(rng, c.names)
            ed = [lambda: ed.set_probabilities(p), lambda: ed.set_residuals(p), lambda: ed.set_iterations(p * 8),
                  lambda: ed.set_accumulator(nm, s["ups"][nm]), lambda: ed.set_defaults(nm, s["ups"][nm])][int(rng.integers(5))]()
            k = ed.build()
        ctx.count("iterations_under_sanitizers")
    return k.reset_batches()


def episode(ctx, c, rng, e):
    with ctx.other("preparing"):
        prog = gentle(rng, c)
        starts = {}
        for nm in c.names:
            starts[nm] = start_tree(rng, c.specs[nm], "dyadic")
        k0 = build(rng, c, starts)
        for nm in c.names if rng.random() < 0.5 else ():
            k0 = TensorEditor.edit_controller(k0, "silence").set_accumulator(nm, update_tree(rng, c, nm, 0.0, "dyadic")).build()
        plain = [dict(s, reset=False) for s in prog]
    with ctx.subject("a process of finite numbers with debug_nans and debug_infs on"):
        with strict():
            k = build(rng, c, starts)
            k = use(ctx, c, rng, k, prog)
            jax.block_until_ready(k.probabilities)
    ctx.count("eager_processes")
    for key, t in snap(k).items():
        for p, x in tr.leaves(t):
            ctx.check(bool(np.all(np.isfinite(tr.f64(x)))), f"{key}{p} is not finite after a process of finite numbers")
    ctx.seen("eager", c.batch, str(c.core), tr.skeleton(starts), c.eps, c.dep)
    if not c.half:
        kind = ["steps", "scan", "while", "act", "grad", "edit", "reset"][int(rng.integers(7))]
        traced(ctx, c, rng, kind, k0, plain)
    ctx.sample(config=ctx.note["config"])


def loss_of(c, k):
    tot = jnp.sum(k.residuals.astype(jnp.float32)) + jnp.sum(k.probabilities.astype(jnp.float32))
    for x in jax.tree_util.tree_leaves(k.accumulators):
        tot = tot + jnp.sum(x.astype(jnp.float32))
    return tot


def traced(ctx, c, rng, kind, k0, prog):
    xs = stack(prog)
    T = len(prog)

    def unrolled(k, xs):
        for t in range(T):
            h, u, _ = jax.tree_util.tree_map(lambda a: a[t], xs)
            k = step(k, h, u)
        return k

    def scanned(k, xs):
        return jax.lax.scan(lambda q, x: (step(q, x[0], x[1]), None), k, xs)[0]

    def looped(k, xs):
        def cond(s):
            return jnp.logical_and(~s[0].is_completely_halted, s[1] < T)

        def body(s):
            h, u, _ = jax.tree_util.tree_map(lambda a: a[s[1]], xs)
            return step(s[0], h, u), s[1] + 1
        return jax.lax.while_loop(cond, body, (k, 0))[0]

    def edits(k, xs):
        ed = TensorEditor.edit_controller(k).set_probabilities(jnp.clip(k.probabilities * 0.5, 0, 1))
        q = ed.set_residuals(k.residuals).set_iterations(k.iterations + 1).build()
        v = q.make_viewer()
        return q, v.halted_only(), v.unhalted_only(), v.mask_data(k.halted_batches), v.transform(lambda x: x * 2)

    fs = dict(steps=unrolled, scan=scanned, edit=edits, reset=lambda k, xs: unrolled(k, xs).reset_batches(),
              act=lambda k, xs: ReplayLayer(k).execute_act((jnp.asarray(0), xs), max_iterations=T)[0],
              grad=lambda k, xs: jax.grad(lambda h, u: loss_of(c, unrolled(k, (h, u, xs[2]))), argnums=(0, 1))(xs[0], xs[1]))
    fs["while"] = looped
    f = fs[kind]
    if kind != "edit":
        with ctx.subject(f"a process ({kind}) under checkify's sanitizers"):
            err, out = jax.jit(checkify.checkify(lambda k, xs: f(k, xs), errors=CHECKS))(k0, xs)
            msg = err.get()
        ctx.check(msg is None, f"checkify's sanitizers find fault with a process of finite numbers ({kind})", message=msg)
        ctx.count("checkified")
        ctx.count("checkified: " + kind)
    with ctx.subject(f"a compiled process ({kind}) with debug_nans and debug_infs on"):
        with strict():
            g = checkify.checkify(f, errors=checkify.user_checks) if kind == "edit" else f
            jax.block_until_ready(jax.tree_util.tree_leaves(jax.jit(g)(k0, xs)))
    ctx.count("compiled_processes")
    ctx.seen(kind, c.batch, str(c.core), tr.skeleton(k0.accumulators), T)
