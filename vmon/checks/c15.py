"""Masking monitored on states in mid-process."""
from vmon.checks._prog import *  # noqa
from vmon.monitors import halted_of, _same_values
from vmon.probe import snap
from vmon.trees import f64, lb

TENSORS = ("probabilities", "residuals", "iterations", "accumulators", "defaults", "updates")


def make(ctx, rng, b):
    c = config(rng, ctx.x64, b, leafless=0.08)
    c.jit = b % 3 == 0 and c.core != F16 and not any(l.dtype == F16 for n in c.names for _, l in tr.leaves(c.specs[n]))
    ctx.note["config"] = describe(c)
    return c


def state(ctx, c, rng):
    """A controller in mid-process with special values and maybe pending updates."""
    with ctx.other("preparing a controller"):
        starts = None
        if rng.random() < 0.5:
            starts = {}
            for nm in c.names:
                starts[nm] = tr.tmap(lambda l: spoil(rng, rand_values(rng, l.shape, l.dtype), l.dtype), c.specs[nm])
        k = build(rng, c, starts)
        for s in program(rng, c, int(rng.integers(0, 5)), hostile=0.4):
            k = step(k, s["h"], s["ups"], s["order"])
        for nm in c.names:
            if rng.random() < 0.4:
                k = k.cache_update(nm, update_tree(rng, c, nm, 0.5))
        if rng.random() < 0.3:      # statistics which tell the elements apart
            ed = TensorEditor.edit_controller(k, "silence")
            n = int(np.prod(c.bshape))
            v = jnp.asarray(np.arange(1, n + 1, dtype=np.float64).reshape(c.bshape), dtype=c.core)
            k = ed.set_iterations(v).set_residuals(v / (n + 1)).build()
        if rng.random() < 0.25:
            k = half_halted(rng, c, k)
    return k


def spoil(rng, v, dt):
    if not v.size or rng.random() < 0.3:
        return v
    a = np.array(v)
    f = a.reshape(-1)
    for _ in range(1 + f.size // 3):
        f[int(rng.integers(f.size))] = pick(rng, [np.nan, np.inf, -np.inf, -0.0, 0.0])
    return jnp.asarray(f.reshape(a.shape), dtype=dt)


def judge(ctx, pre, post, mask, what, exact=True):
    """post must be pre where mask, zero elsewhere."""
    for key in TENSORS:
        ctx.check(tr.skeleton(pre[key]) == tr.skeleton(post[key]), f"{what}: structure, shape or dtype of {key} changed",
                  before=tr.skeleton(pre[key]), after=tr.skeleton(post[key]))
        for (path, a), (_, b) in zip(tr.leaves(pre[key]), tr.leaves(post[key])):
            m = np.broadcast_to(lb(mask, a.ndim), a.shape)
            ctx.check(_same_values(a[m], b[m]), f"{what}: {key}{path} changed where the mask is true",
                      mask=mask.tolist(), before=tr.short(a), after=tr.short(b))
            ctx.check(bool(np.all(f64(b)[~m] == 0)), f"{what}: {key}{path} is not zero where the mask is false",
                      mask=mask.tolist(), before=tr.short(a), after=tr.short(b))
            ctx.count("tensors_judged")
    for key in ("epsilon", "depression_constant"):
        a, b = float(pre[key]), float(post[key])
        ctx.check(a == b if exact else abs(a - b) <= 2e-7 * abs(a), f"{what}: {key} changed from {a} to {b}")


def rand_mask(rng, c, halted):
    k = int(rng.integers(6))
    if k == 0:
        m = np.ones(c.bshape, bool)
    elif k == 1:
        m = np.zeros(c.bshape, bool)
    elif k == 2 and c.bshape and np.prod(c.bshape):
        m = np.zeros(c.bshape, bool)
        m.reshape(-1)[int(rng.integers(m.size))] = True
    else:
        m = np.asarray(rng.random(c.bshape) < 0.5)
    return m


def run(ctx, c, what, fn, *args):
    with ctx.subject(what):
        if c.use_jit:
            ctx.count("jitted")
            return jax.jit(fn)(*args)
        return fn(*args)


def episode(ctx, c, rng, e):
    k = state(ctx, c, rng)
    v = k.make_viewer() if rng.random() < 0.7 else ACTViewer.load(k.save())
    pre = snap(v)
    keep = tr.tree_bits(pre)
    halted, unsure = halted_of(pre)
    c.use_jit = c.jit and e == 0
    ex = not c.use_jit
    m1, m2 = rand_mask(rng, c, halted), rand_mask(rng, c, halted)
    if any(u is not None and not tr.leaves(u) for u in pre["updates"].values()):
        ctx.count("pending_updates_without_tensors")
    w = f"{'jitted ' if c.use_jit else ''}mask_data"
    a = run(ctx, c, w, lambda q, m: q.mask_data(m), v, jnp.asarray(m1))
    judge(ctx, pre, snap(a), m1, w, ex)
    b = run(ctx, c, w, lambda q, m: q.mask_data(m), a, jnp.asarray(m2))
    judge(ctx, pre, snap(b), m1 & m2, "two masks in turn", ex)
    ctx.count("masks", 2)
    if not unsure.any():
        for nm, sel in (("halted_only", halted), ("unhalted_only", ~halted)):
            o = run(ctx, c, nm, lambda q: getattr(q, nm)(), v)
            judge(ctx, pre, snap(o), sel, ("jitted " if c.use_jit else "") + nm, ex)
            ctx.count("selections")
            if halted.any() and not halted.all():
                ctx.count("proper_selections")
        o = run(ctx, c, "halted_only of mask_data", lambda q, m: q.mask_data(m).halted_only(), v, jnp.asarray(m1))
        # masked elements have no probability: they are not halted, and so masked
        judge(ctx, pre, snap(o), m1 & halted, "halted_only of a masked viewer", ex)
        if not c.use_jit:
            o = run(ctx, c, "unhalted_only of halted_only", lambda q: q.halted_only().unhalted_only(), v)
            judge(ctx, pre, snap(o), np.zeros(c.bshape, bool), "unhalted_only of halted_only", ex)
    # on the viewer of a controller halfway a loop, the mask may come from the controller
    with ctx.subject("mask from the controller's flags"):
        o = v.mask_data(k.halted_batches)
    if not unsure.any():
        judge(ctx, pre, snap(o), halted, "mask_data of halted_batches")
    for _ in range(4):
        refuse(ctx, c, rng, v)
    ctx.check(tr.tree_bits(snap(v)) == keep, "the viewer changed while it was masked or a mask refused")
    ctx.seen(c.batch, str(c.core), m1.tobytes(), halted.tobytes(), tr.skeleton(pre["updates"]), tr.skeleton(pre["accumulators"]))
    ctx.sample(config=ctx.note["config"], mask=m1.tolist(), halted=halted.tolist())


def refuse(ctx, c, rng, v):
    b = c.bshape
    if rng.random() < 0.4:
        m = jnp.asarray(np.asarray(rng.integers(0, 2, b)), dtype=pick(rng, [jnp.int32, jnp.float32, jnp.uint8, c.core]))
        what = f"a mask of dtype {m.dtype}"
    else:
        cands = [b + (1,), b + (2,), (1,) + b, b + b if b else (1, 1)]
        if b:
            cands += [(), b[1:], b[:-1], (1,) * len(b), b[:-1] + (b[-1] + 1,), b[::-1]]
        shape = pick(rng, [x for x in cands if tuple(x) != tuple(b)])
        m = jnp.ones(shape, bool)
        what = f"a mask of shape {shape} for batch {b}"
    ctx.raises(what, ValueError, lambda: v.mask_data(m))
    if c.jit and rng.random() < 0.1:
        ctx.raises(what + " under jit", ValueError, lambda: jax.jit(lambda q, x: q.mask_data(x))(v, m))
    ctx.count("masks_refused")
