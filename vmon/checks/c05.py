import math
from vmon.checks._prog import *  # noqa
from vmon.monitors import Status, judge_status
from vmon.probe import snap


def make(ctx, rng, b):
    kind = "progress" if b % 3 == 2 else "program"
    c = config(rng, ctx.x64, b, naccs=1 if b % 3 else None,
               epss=[1e-4, 1e-9, 1e-6, 1e-12, 0.5, 0.9, 1e-2, 1e-3, 1e-5, 1e-7] if kind == "progress" or b % 2 else None,
               deps=[1.0, 0.5, 2.0, 0.25] if kind == "progress" else None, leafless=0.15)
    c.kind = kind
    c.mode = mode_of(b, c)
    c.T = int(rng.integers(3, 10))
    ctx.note["config"] = describe(c) + f" mode={c.mode} T={c.T} {kind}"
    return c


def episode(ctx, c, rng, e):
    (progress if c.kind == "progress" else observed)(ctx, c, rng)


def crowd(ctx, c, rng):
    """Batches with more elements than the dtypes resolve, of which all but a few, or only a few, are halted."""
    core = pick(rng, [BF16, F16, F32])
    n = int(pick(rng, [257, 300, 511, 513, 1000, 2049, 2500, 4097, 6000, 70000]))
    shape = pick(rng, [[n], [n, 1], [3, n // 3], [2, n // 4, 2]])
    few = int(pick(rng, [0, 1, 1, 1, 2, 3]))
    sign = bool(rng.integers(2))
    odd = np.zeros(shape, bool)
    odd.reshape(-1)[rng.choice(odd.size, few, replace=False)] = True
    halted = odd if sign else ~odd
    with ctx.other("building"):
        k = ControllerBuilder.new_builder(shape, core, 0.125).define_accumulator_directly("a", jnp.zeros(shape, jnp.float32)).build()
        if rng.random() < 0.5:
            h = jnp.asarray(np.where(halted, 1.0, 0.25), core)
            f = lambda k, h: k.cache_update("a", jnp.ones(shape, jnp.float32)).iterate_act(h)
            k = f(k, h)
        else:
            ed = TensorEditor.edit_controller(k, "silence")
            k = ed.set_probabilities(jnp.asarray(np.where(halted, pick(rng, [1.0, 0.9375]), pick(rng, [0.0, 0.5])), core)).build()
    with ctx.subject("reporting the status"):
        s = snap(k, True)
        ctx.check(bool(np.array_equal(np.asarray(s["status"]["halted"]), halted)), "halted_batches does not match the probabilities of a large batch",
                  few=few, halted=not sign, shape=shape, core=core)
        judge_status(ctx, s, "of a large batch")
        if core == F16:              # jaxlib 0.4.23's cpu compiler crashes natively on some of these
            ctx.count("crowds")
            return
        f = jax.jit(lambda k: (k.halted_batches, k.is_completely_halted, k.is_any_halted, k.make_viewer().halted_batches))
        a, b, d, v = [np.asarray(x) for x in f(k)]
        ctx.check(bool(np.array_equal(a, halted)) and bool(np.array_equal(v, halted)) and bool(b) == bool(halted.all()) and bool(d) == bool(halted.any()),
                  "the status of a large batch reported when compiled does not match the probabilities", few=few, halted=not sign, shape=shape, core=core)
    ctx.count("crowds")
    ctx.seen("crowd", str(core), n, few, sign)


def flags(ctx, c, rng):
    """The flags are about the pending updates, whatever these and the other fields of the state are."""
    with ctx.other("building"):
        k = build(rng, c)
        s = k.save()
        if rng.random() < 0.5:
            odd = {nm: pick(rng, [None, s.defaults[nm], s.accumulators[nm], (), jnp.zeros(3)]) for nm in c.names}
            k = ACT_Controller.load(s.replace(defaults=odd))
        some = {nm: jax.tree_util.tree_leaves(s.accumulators[nm]) for nm in c.names if rng.random() < 0.6}
        some = {nm for nm in some if some[nm]}
        for nm in some:
            k = k.cache_update(nm, pick(rng, [s.defaults[nm], s.accumulators[nm], update_tree(rng, c, nm)]))
    with ctx.subject("asking for the pending updates"):
        any_, all_ = k.has_cached_updates, k.updates_ready_to_commit
    ctx.check(bool(any_) == bool(some) and bool(all_) == (len(some) == len(c.names)), f"has_cached_updates is {any_} and updates_ready_to_commit {all_} with "
              f"updates of {len(some)} of {len(c.names)} accumulators cached", cached=sorted(some))
    ctx.count("flags_judged")


def observed(ctx, c, rng):
    flags(ctx, c, rng)
    for _ in range(2):
        crowd(ctx, c, rng)
    if rng.random() < 0.4:
        landing(ctx, c, rng, "C05")
    with ctx.other("building"):
        ctrl = build(rng, c)
        if c.mode in ("eager", "jit"):
            ctrl = warm(ctx, c, rng, ctrl)
            if rng.random() < 0.2 and c.mode == "eager":
                p = np.minimum(np.asarray(rng.integers(0, 9, c.bshape)) / 8.0, 1.0)
                ctrl = TensorEditor.edit_controller(ctrl).set_probabilities(jnp.asarray(p, dtype=c.core)).build()
            if rng.random() < 0.1 and c.mode == "eager":
                ctrl = TensorEditor.edit_controller(ctrl).set_epsilon(float(pick(rng, [0.0, 1.0, 0.5, 1e-8]))).build()
    prog = program(rng, c, c.T, resets=0.1 if c.mode in ("eager", "jit", "scan") else 0)
    monitored(ctx, c, c.mode, rng, prog, [Status(ctx, c.dyadic)], status=True, ctrl=ctrl)
    ctx.sample(config=ctx.note["config"], h=[tr.short(s["h"]) for s in prog[:6]])


def progress(ctx, c, rng):
    """With effective halting probabilities of at least d, everything halts in about 1/d iterations and stays so."""
    if 0 in c.bshape:
        return
    ec = tr.feps(c.core)
    lo = float(rng.uniform(max(0.03, 10 * ec), 0.6))
    hi = float(rng.uniform(lo, 1.0))
    d = c.dep * lo
    if d < 10 * ec:
        return
    bound = math.ceil(1.0 / (d - 2 * ec)) + 2
    with ctx.other("building"):
        ctrl = build(rng, c)
    with ctx.subject("iterating to completion"):
        f = jax.jit(step) if not hasattr(c, "_f") else c._f
        c._f = f
        eager = c.core == F16 or (c.mode == "eager" and bound < 15)
        ups = {nm: update_tree(rng, c, nm) for nm in c.names}
        prev = np.zeros(c.bshape, bool)
        n = 0
        for n in range(bound):
            h = jnp.asarray(np.asarray(rng.uniform(lo, hi, c.bshape)), dtype=c.core)
            ctrl = step(ctrl, h, ups) if eager else f(ctrl, h, ups)
            now = np.asarray(ctrl.halted_batches)
            ctx.check(bool(np.all(~prev | now)), "a halted element became unhalted by iterating",
                      p=tr.short(ctrl.probabilities), eps=c.eps)
            prev = now
            judge_status(ctx, snap(ctrl, True), "while progressing")
            if prev.all():
                break
        ctx.check(bool(prev.all()), f"not halted after {bound} iterations with effective halting probabilities of at "
                  f"least {d:.4g}", p=tr.short(ctrl.probabilities), eps=c.eps, core=c.core, dep=c.dep)
        ctx.check(bool(ctrl.is_completely_halted), "all elements halted but not reported as completely halted")
        ctx.count("progress_runs")
        ctx.count("progress_iterations", n + 1)
        ctx.seen("progress", str(c.core), c.eps, c.dep, round(lo, 2))
