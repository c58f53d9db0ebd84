from vmon.checks._prog import *  # noqa
from vmon.monitors import Frozen


def make(ctx, rng, b):
    c = config(rng, ctx.x64, b, deps=[1.0, 1.0, 0.5, 2.0, 10.0])
    c.mode = mode_of(b, c)
    c.T = int(rng.integers(4, 14)) if b % 6 else 40
    ctx.note["config"] = describe(c) + f" mode={c.mode} T={c.T}"
    return c


def episode(ctx, c, rng, e):
    with ctx.other("building"):
        ctrl = build(rng, c)
        if c.mode in ("eager", "jit") and e % 2:
            ctrl = warm(ctx, c, rng, ctrl)
    # hostile updates from the start would make live elements NaN too, which is allowed
    prog = program(rng, c, c.T, subst=0.15 if c.mode == "eager" else 0, resets=0.05 if c.mode in ("eager", "jit", "scan") else 0, hostile=0.6 if e % 3 else 0.05,
                   pattern=pick(rng, ["spike", "hetero", "uniform", "extreme", "near", "ones"]))
    monitored(ctx, c, c.mode, rng, prog, [Frozen(ctx, c.dyadic)], ctrl=ctrl)
    ctx.sample(config=ctx.note["config"], h=[tr.short(s["h"]) for s in prog[:6]])
