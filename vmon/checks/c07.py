from vmon.checks._prog import *  # noqa
from vmon.monitors import Reset, halted_of
from vmon.probe import snap


def make(ctx, rng, b):
    c = config(rng, ctx.x64, b)
    c.mode = pick(rng, ["eager", "eager", "eager", "jit", "scan"])
    if c.core == F16 and c.mode != "eager":
        c.mode = "eager"
    c.T = int(rng.integers(3, 12))
    ctx.note["config"] = describe(c) + f" mode={c.mode} T={c.T}"
    return c


def new_defaults(rng, c, ctrl):
    ed = TensorEditor.edit_controller(ctrl)
    for nm in c.names:
        if rng.random() < 0.5:
            ed = ed.set_defaults(nm, start_tree(rng, c.specs[nm]))
    return ed.build()


def episode(ctx, c, rng, e):
    with ctx.other("building"):
        ctrl = build(rng, c)
        if rng.random() < 0.6:
            ctrl = new_defaults(rng, c, ctrl)
        if c.mode == "eager" and e % 2:
            ctrl = warm(ctx, c, rng, ctrl)
    pat = pick(rng, ["spike", "hetero", "uniform", "near", "extreme"])
    prog = program(rng, c, c.T, resets=0.5, hostile=0.3 if e % 2 else 0, pattern=pat)
    out = monitored(ctx, c, c.mode, rng, prog, [Reset(ctx)], ctrl=ctrl)
    ctx.sample(config=ctx.note["config"], resets=[s["reset"] for s in prog], h=[tr.short(s["h"]) for s in prog[:4]])
    if e % 3 == 0:
        fresh(ctx, c, rng, out)


def fresh(ctx, c, rng, ctrl):
    """Reset elements behave like those of a freshly built controller, twice in a row."""
    s = snap(ctrl)
    halted, unsure = halted_of(s)
    sel = halted & ~unsure
    if not sel.any():
        return
    with ctx.subject("resetting and going on"):
        a = ctrl.reset_batches()
        with ctx.other("building"):
            b = ControllerBuilder.new_builder(list(c.bshape), c.core_arg, c.eps, c.dep)
            for nm in c.names:
                b = b.define_accumulator_directly(nm, ctrl.save().defaults[nm])
            b = b.build()
        prog = program(rng, c, int(rng.integers(1, 4)))
        fa, fb = run_eager(c, a, prog), run_eager(c, b, prog)
    for what, x, y in (("after a reset", snap(a), None), ("after a reset and further iterations", snap(fa), snap(fb))):
        if y is None:
            continue
        for key in ("probabilities", "residuals", "iterations", "accumulators"):
            for (p, u), (_, v) in zip(tr.leaves(x[key]), tr.leaves(y[key])):
                m = np.broadcast_to(tr.lb(sel, u.ndim), u.shape)
                d = np.allclose(tr.f64(u)[m], tr.f64(v)[m], rtol=8 * tr.feps(u.dtype), atol=0, equal_nan=True)
                ctx.check(bool(d), f"{key}{p} of reset elements differ from a freshly built controller {what}",
                          reset=tr.short(u), fresh=tr.short(v), selected=tr.short(sel))
    with ctx.subject("a second reset"):
        twice = snap(a.reset_batches())
    ctx.same(tr.diff_tree(snap(a), twice), "resetting again without iterating changed something")
    ctx.count("fresh_comparisons")
