"""Shapes, dtypes, structure and configuration monitored at every operation in every mode."""
from vmon.checks._prog import *  # noqa
from vmon.monitors import Stability


def make(ctx, rng, b):
    c = config(rng, ctx.x64, b, leafless=0.05)
    c.mode = mode_of(b, c)
    c.T = int(rng.integers(2, 9)) if b % 7 else 120
    ctx.note["config"] = describe(c) + f" mode={c.mode} T={c.T}"
    return c


def episode(ctx, c, rng, e):
    with ctx.other("building"):
        ctrl = build(rng, c)
        if c.mode in ("eager", "jit") and e % 2:
            ctrl = warm(ctx, c, rng, ctrl)
    if c.mode == "eager" and c.core != F16 and rng.random() < 0.4:
        return foreign(ctx, c, rng, ctrl)
    prog = program(rng, c, c.T, resets=0.25 if c.mode in ("eager", "jit", "scan") else 0, hostile=0.1)
    out = monitored(ctx, c, c.mode, rng, prog, [Stability(ctx)], ctrl=ctrl)
    if out is not None:
        whole(ctx, c, ctrl, out)
    ctx.count("mode: " + c.mode)
    ctx.sample(config=ctx.note["config"])


def whole(ctx, c, a, b):
    """From end to end of the process."""
    from vmon.probe import snap
    a, b = snap(a), snap(b)
    for key in ("probabilities", "residuals", "iterations", "accumulators", "defaults"):
        ctx.check(tr.skeleton(a[key]) == tr.skeleton(b[key]), f"{key} has another structure, shape or dtype after the process",
                  before=tr.skeleton(a[key]), after=tr.skeleton(b[key]))
    ctx.same(tr.diff_tree(a["defaults"], b["defaults"]), "the defaults changed over the process")
    ctx.check(all(v is None for v in b["updates"].values()), "updates pending after the process")
    for k in ("epsilon", "depression_constant"):
        x, y = float(a[k]), float(b[k])
        ctx.check(abs(x - y) <= 2e-7 * abs(x), f"{k} changed from {x} to {y} over the process")
    ctx.count("processes_judged")


def foreign(ctx, c, rng, ctrl):
    """Updates and halting probabilities of any dtype: refused, or used without any drift."""
    from vmon.probe import snap
    dts = [F32, F16, BF16, np.dtype("int32"), np.dtype("int8"), np.dtype("uint8"), np.dtype("bool")] + ([F64, np.dtype("int64")] if c.x64 else [])
    first = ctrl
    HUB.start([Stability(ctx)], ordered=True)
    try:
        for t in range(int(rng.integers(2, 8))):
            before = snap(ctrl)
            p = tr.f64(before["probabilities"])
            h = halting(rng, c, pick(rng, ["uniform", "small", "ones", "hetero"]), p)
            which = int(rng.integers(3))
            if which != 1:
                h = jnp.asarray(np.nan_to_num(np.asarray(tr.f64(h))), dtype=pick(rng, dts))
                if rng.random() < 0.1:
                    h = np.asarray(h)
            ups = {}
            for nm in c.names:
                d = pick(rng, dts)
                u = update_tree(rng, c, nm)
                if which != 0:
                    u = tr.tmap(lambda x: (np.asarray if rng.random() < 0.1 else jnp.asarray)(np.asarray(tr.f64(x)).astype("float32").astype(
                        d if rng.random() < 0.8 else pick(rng, dts))), u)
                ups[nm] = u
            try:
                new = step(ctrl, h, ups)
                jax.block_until_ready(new.probabilities)
            except (TypeError, ValueError, RuntimeError):
                ctx.count("foreign_dtypes_refused")
                ctx.same(tr.diff_tree(before, snap(ctrl)), "a refused iteration changed the controller")
                continue
            ctx.count("foreign_dtypes_accepted")
            whole(ctx, c, first, new)
            ctrl = new
            if rng.random() < 0.3:
                ctrl = ctrl.reset_batches()
        settle()
    finally:
        HUB.enabled = False
