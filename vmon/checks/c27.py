"""How often the functions using a controller are traced during a whole process."""
from vmon.checks._prog import *  # noqa
from vmon.checks.c16 import has_half


def make(ctx, rng, b):
    c = config(rng, ctx.x64, b, core=pick(rng, [None, F32, BF16, None] + ([F64] if ctx.x64 else [])),
               leaf_dtypes=[F32, F32, BF16] + ([F64] if ctx.x64 else []), leafless=0.03)
    for nm in c.names:
        c.uspecs[nm] = tr.tmap(lambda l: l if l.dtype != F16 else Leaf(l.shape, F32), c.uspecs[nm])
    if c.core == F16:
        c.core_arg, c.core = None, F64 if ctx.x64 else F32
    c.T = int(rng.integers(8, 20)) if not ctx.thorough else int(rng.integers(20, 80))
    ctx.note["config"] = describe(c) + f" T={c.T}"
    return c


def avals(k):
    return [str(jax.api_util.shaped_abstractify(x)) for x in jax.tree_util.tree_leaves(k)]


class Traced:
    """A jitted function which counts how often it is traced."""
    def __init__(self, f):
        self.n, self.at = 0, []

        def g(*a):
            self.n += 1
            return f(*a)
        self.f = jax.jit(g)

    def __call__(self, *a):
        return self.f(*a)


def episode(ctx, c, rng, e):
    with ctx.other("building"):
        ctrl = build(rng, c)
        prog = program(rng, c, c.T, pattern=pick(rng, ["small", "hetero", "tiny", "uniform"]))
        ctrl = jax.tree_util.tree_map(jnp.asarray, ctrl) if rng.random() < 0.3 else ctrl
    order = list(c.names)
    fs = dict(step=Traced(lambda k, h, u: step(k, h, u, order)), reset=Traced(lambda k: k.reset_batches()),
              status=Traced(lambda k: (k.halted_batches, k.is_completely_halted, k.is_any_halted)),
              view=Traced(lambda k: k.make_viewer().unhalted_only()), look=Traced(lambda v: (v.probabilities, v.halted_batches)),
              cache=Traced(lambda k, u: k.cache_update(order[0], u)),
              commit=Traced(lambda k, h, u: _commit(k, h, u, order[1:])))
    seen = {}
    limit = {n: 1 for n in fs}     # (numbers of a newly built controller and the tensors they become look the same to a compiled function)
    log = []
    eager = rng.random() < 0.5     # also operations outside the compiled functions in between
    td = jax.tree_util.tree_structure(ctrl)

    def judge(op):
        for n, f in fs.items():
            if f.n > limit[n]:
                ctx.report(f"the compiled function {n!r} was traced {f.n} times within one process; the last time after: {op}",
                           operations=log, leaves=avals(ctrl))
            ctx.counters["oracle_decisions"] += 1
        ctx.check(jax.tree_util.tree_structure(ctrl) == td, f"the tree structure of the controller is another one after: {op}",
                  before=td, after=jax.tree_util.tree_structure(ctrl), operations=log)
    with ctx.subject("a compiled process"):
        for t, s in enumerate(prog):
            k = int(rng.integers(12))
            op = "step"
            if k < 6:
                ctrl = fs["step"](ctrl, s["h"], s["ups"])
            elif k == 6:
                half = fs["cache"](ctrl, s["ups"][order[0]])
                ctrl = fs["commit"](half, s["h"], s["ups"])
                op = "cache, then commit"
            elif k == 7:
                ctrl = fs["reset"](ctrl)
                op = "reset"
            elif k == 8:
                fs["status"](ctrl)
                op = "status"
            elif k == 9:
                fs["look"](fs["view"](ctrl))
                op = "view"
            elif eager:
                op, ctrl = between(rng, c, ctrl, s)
            log.append(op)
            judge(op)
            ctx.count("states_judged")
        for s in prog[:3]:
            ctrl = fs["reset"](fs["step"](ctrl, s["h"], s["ups"]))
            fs["status"](ctrl)
            judge("the closing rounds")
    total = sum(f.n for f in fs.values())
    ctx.count("processes")
    ctx.count("traces", total)
    ctx.count("functions_used", sum(f.n > 0 for f in fs.values()))
    ctx.count("functions_traced_twice", sum(f.n == 2 for f in fs.values()))
    ctx.seen(tuple(log), c.batch, str(c.core), tr.skeleton(c.starts))
    ctx.sample(config=ctx.note["config"], operations=log, traces={n: f.n for n, f in fs.items()})


def _commit(k, h, u, rest):
    for n in rest:
        k = k.cache_update(n, u[n])
    return k.iterate_act(h)


def between(rng, c, k, s):
    """Operations outside compiled functions, after which the compiled ones are used again."""
    kind = pick(rng, ["save and load", "flatten", "eager step", "eager reset", "edit", "silent edit", "edit", "silent edit", "halt all and reset", "scan", "jit identity", "numpy leaves", "builder"])
    if kind == "save and load":
        return kind, ACT_Controller.load(k.save())
    if kind == "flatten":
        l, td = jax.tree_util.tree_flatten(k)
        return kind, jax.tree_util.tree_unflatten(td, l)
    if kind == "eager step":
        return kind, step(k, s["h"], s["ups"])
    if kind == "eager reset":
        return kind, k.reset_batches()
    if kind == "halt all and reset":
        for _ in range(3):
            k = step(k, jnp.ones(c.bshape, c.core), s["ups"])
        return kind, k.reset_batches()
    if kind in ("edit", "silent edit"):
        v = jnp.asarray(np.asarray(rng.integers(0, 2, c.bshape)), dtype=c.core)
        ed = TensorEditor.edit_controller(k, "standard" if kind == "edit" else "silence")
        nm = pick(rng, c.names)
        what = pick(rng, ["iterations", "residuals", "probabilities", "epsilon", "accumulator", "defaults", "epsilon"])
        new = tr.tmap(lambda x: jnp.asarray(np.array(x)), k[nm])
        ed = dict(iterations=lambda: ed.set_iterations(v), residuals=lambda: ed.set_residuals(v), probabilities=lambda: ed.set_probabilities(v),
                  epsilon=lambda: ed.set_epsilon(float(pick(rng, [0.25, 0.125, c.eps]))), accumulator=lambda: ed.set_accumulator(nm, new),
                  defaults=lambda: ed.set_defaults(nm, new))[what]()
        return f"{kind} of {what}", ed.build()
    if kind == "scan":
        return kind, jax.lax.scan(lambda k, x: (step(k, x[0], x[1]), None), k, stack([dict(s, reset=False)] * 2))[0]
    if kind == "jit identity":
        return kind, jax.jit(lambda x: x)(k)
    if kind == "numpy leaves":
        return kind, jax.tree_util.tree_map(lambda x: np.asarray(x) if isinstance(x, jax.Array) and not x.weak_type else x, k)
    return kind, ControllerBuilder(k.save()).build()
