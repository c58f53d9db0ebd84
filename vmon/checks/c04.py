from vmon.checks._prog import *  # noqa
from vmon.monitors import Bookkeeping


def make(ctx, rng, b):
    c = config(rng, ctx.x64, b, naccs=1 if b % 3 else None, deps=[1.0, 1.0, 0.5, 2.0, 0.1])
    c.mode = mode_of(b, c)
    c.T = int(rng.integers(3, 12)) if b % 5 else int(rng.integers(25, 60))
    ctx.note["config"] = describe(c) + f" mode={c.mode} T={c.T}"
    return c


def episode(ctx, c, rng, e):
    if rng.random() < 0.2:
        landing(ctx, c, rng, "C04")
    with ctx.other("building"):
        ctrl = build(rng, c)
        if c.mode in ("eager", "jit") and e % 2:
            ctrl = warm(ctx, c, rng, ctrl)
        elif c.mode in ("eager", "jit", "scan", "while") and rng.random() < 0.5:
            top = float(pick(rng, [300, 2040, 2100, 5000, 32760, 33000, 65530, 70000, 10 ** 6, 2 ** 23]))    # as after a long process
            v = np.minimum(top + rng.integers(0, 9, c.bshape), 0.5 / tr.feps(c.core))
            ctrl = TensorEditor.edit_controller(ctrl).set_iterations(jnp.asarray(v, dtype=c.core)).build()
            ctx.count("long_processes")
    prog = program(rng, c, c.T, subst=0.15 if c.mode == "eager" else 0, resets=0.15 if c.mode in ("eager", "jit", "scan") else 0, hostile=0.05,
                   pattern=pick(rng, ["small", "hetero", "uniform", "spike", "near", "negative", "tiny"]))
    monitored(ctx, c, c.mode, rng, prog, [Bookkeeping(ctx, c.dyadic)], ctrl=ctrl)
    ctx.sample(config=ctx.note["config"], h=[tr.short(s["h"]) for s in prog[:6]])
