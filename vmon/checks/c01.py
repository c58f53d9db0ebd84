from vmon.checks._prog import *  # noqa
from vmon.monitors import ProbabilityLaw


def make(ctx, rng, b):
    c = config(rng, ctx.x64, b, naccs=1 if b % 3 else None)
    c.mode = mode_of(b, c)
    c.T = int(rng.integers(3, 12)) if b % 5 else int(rng.integers(25, 60))
    c.creep = b % 8 == 5
    if c.creep:         # far more iterations than usual, before and without halting
        c = config(rng, ctx.x64, b, naccs=1, core=pick(rng, [F32, F32, None, BF16]))
        c.creep, c.mode, c.T = True, pick(rng, ["scan", "while", "scan", "act"]), int(rng.integers(80, 300))
    ctx.note["config"] = describe(c) + f" mode={c.mode} T={c.T}"
    ctx.seen("cfg", c.batch, str(c.core), c.eps, c.dep, c.mode)
    return c


def episode(ctx, c, rng, e):
    if rng.random() < 0.2:
        landing(ctx, c, rng, "C01")
    with ctx.other("building"):
        ctrl = build(rng, c)
        if c.mode in ("eager", "jit"):
            ctrl = warm(ctx, c, rng, ctrl)
    if c.creep:
        return creep(ctx, c, rng, ctrl)
    prog = program(rng, c, c.T, subst=0.15 if c.mode == "eager" else 0, resets=0.1 if c.mode in ("eager", "jit", "scan") else 0, hostile=0.1)
    if c.mode == "eager" and rng.random() < 0.3:
        return eager_mixed(ctx, c, rng, ctrl, prog)
    ctx.note["h"] = [tr.short(s["h"]) for s in prog[:8]]
    monitored(ctx, c, c.mode, rng, prog, [ProbabilityLaw(ctx, c.dyadic)], ctrl=ctrl)
    ctx.sample(config=ctx.note["config"], h=ctx.note["h"])


def creep(ctx, c, rng, ctrl):
    """Halting probabilities so small that elements stay unhalted for most of a very long process."""
    prog = program(rng, c, c.T, pattern="zeros")
    rate = rng.random(c.bshape) * pick(rng, [0.5, 1.0, 1.5]) / c.T / max(c.dep, 0.1)
    for s in prog:
        v = rate * rng.choice([0.0, 1.0, 2.0], c.bshape)
        s["h"] = jnp.asarray(np.asarray(np.round(v / c.grid) * c.grid if c.dyadic else v), dtype=c.core)
    ctx.note["h"] = [tr.short(s["h"]) for s in prog[:4]]
    monitored(ctx, c, c.mode, rng, prog, [ProbabilityLaw(ctx, c.dyadic)], ctrl=ctrl)
    ctx.count("long_processes")


def eager_mixed(ctx, c, rng, ctrl, prog):
    """Configuration changes, persistence and refused operations between the iterations."""
    HUB.start([ProbabilityLaw(ctx, c.dyadic)])
    try:
        for s in prog:
            with ctx.other("between iterations"):
                with HUB.paused():
                    k = int(rng.integers(6))
                    if k == 0:
                        dep = float(pick(rng, [0.25, 0.5, 1.0, 2.0]))
                        ctrl = ACT_Controller.load(ctrl.save().replace(depression_constant=dep))
                    elif k == 1:
                        ctrl = warm(ctx, c, rng, ctrl)
                    elif k == 2:
                        try:
                            ctrl.iterate_act(s["h"])
                        except RuntimeError:
                            pass
                    elif k == 3:
                        try:
                            ctrl.cache_update("never defined", 0)
                        except ValueError:
                            pass
            with ctx.subject("running the ACT program (eager, mixed)"):
                if s["reset"]:
                    ctrl = ctrl.reset_batches()
                ctrl = step(ctrl, s["h"], s["ups"], s["order"])
        settle()
    finally:
        HUB.enabled = False
