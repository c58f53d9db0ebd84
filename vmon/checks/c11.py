"""A model of the builder (name -> definition) against the real one over random define/redefine/delete sequences."""
import collections
import warnings
from vmon.checks._prog import *  # noqa
from vmon.probe import snap

MANY_NAMES = NAMES + ["defaults", "epsilon", "x y", "acc/1", "\n", "state ", "STATE", "1", "None"]


def make(ctx, rng, b):
    c = config(rng, ctx.x64, b, batches=BATCHES + [[0, 2], [2, 0], [1, 1, 1], [10]])
    if b % 5 == 0:
        c.batch = int(rng.integers(0, 6))
        c.bshape = (c.batch,)
    ctx.note["config"] = describe(c)
    return c


def definition(rng, c):
    dts = [F32, F32, F16, BF16] + ([F64] if c.x64 else [])
    spec = rand_tree(rng, lambda: Leaf(rand_leaf_shape(rng, c.bshape), pick(rng, dts)))
    t = start_tree(rng, spec)
    if rng.random() < 0.15:       # special values are values too
        t = jax.tree_util.tree_map(lambda x: x.at[...].set(pick(rng, [np.inf, np.nan, -0.0, 1e-30])) if x.size else x, t)
    return t


def shapes(rng, c):
    """A tree of shapes, and what it must become."""
    fill = float(pick(rng, [0.0, 1.0, -3.5, 0.125, 1e-3, np.inf, -0.0, -0.0, np.nan]))
    dt = pick(rng, [None, F32, F16, BF16, jnp.float32, jnp.bfloat16] + ([F64] if c.x64 else []))
    real = F32 if dt is None else jnp.dtype(dt)
    spec = rand_tree(rng, lambda: Leaf(rand_leaf_shape(rng, c.bshape), real))
    if not c.bshape and rng.random() < 0.3:
        spec = Leaf((), real)
    tree = tr.tmap(lambda l: [int(s) for s in l.shape], spec)
    kw = {}
    if dt is not None:
        kw["dtype"] = dt
    if fill != 0.0 or np.signbit(fill) or rng.random() < 0.5:
        kw["fill"] = fill
        if rng.random() < 0.4:      # numbers of all sorts
            kinds = [np.float32, np.float64, jnp.float32, lambda x: np.asarray(x, np.float32), lambda x: jnp.asarray(x)]
            kw["fill"] = pick(rng, kinds + ([int, np.int32, bool] if fill in (0.0, 1.0) and not np.signbit(fill) else []))(fill)
            fill = float(kw["fill"])
    want = tr.tmap(lambda l: np.full(l.shape, fill if "fill" in kw else 0.0, real), spec)
    # a list of shapes is itself a valid node; an empty list would be the shape []
    return tree, kw, want


def episode(ctx, c, rng, e):
    kw = {}
    if c.core_arg is not None or rng.random() < 0.5:
        kw["core_dtype"] = c.core_arg
    eps = float(pick(rng, EPS + [1e-12, 0.999, 1e-30]))
    dep = float(pick(rng, DEP))
    if rng.random() < 0.8:
        kw["epsilon"] = eps
    else:
        eps = 1e-4
    if rng.random() < 0.8:
        kw["depression_constant"] = dep
    else:
        dep = 1.0
    batch = c.batch if isinstance(c.batch, int) else list(c.batch)
    log = ctx.note["log"] = [f"new_builder({batch}, {kw})"]
    with ctx.subject(f"new_builder({batch}, {kw})"):
        b = ControllerBuilder.new_builder(batch, **kw)
    model = {}
    core = (F64 if ctx.x64 else F32) if kw.get("core_dtype") is None else c.core
    judge(ctx, c, b, model, eps, dep, core, "after new_builder")
    versions = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for t in range(int(rng.integers(1, 9))):
            k = int(rng.integers(5))
            nm = pick(rng, MANY_NAMES)
            if model and rng.random() < 0.35:
                nm = pick(rng, sorted(model))
            if k <= 1:
                d = definition(rng, c)
                log.append(f"define {nm!r} {tr.skeleton(d)}")
                with ctx.subject(f"defining {nm!r} directly"):
                    nb = b.define_accumulator_directly(nm, d)
                nmodel = dict(model, **{nm: tr.tmap(np.asarray, d)})
                ctx.count("direct_definitions")
            elif k <= 3:
                tree, skw, want = shapes(rng, c)
                log.append(f"define by shape {nm!r} {tree} {skw}")
                before = repr(tree)
                with ctx.subject(f"defining {nm!r} by shape {tree} {skw}"):
                    nb = b.define_accumulator_by_shape(nm, tree, **skw)
                ctx.check(repr(tree) == before, "the shapes given by the user were changed")
                nmodel = dict(model, **{nm: want})
                ctx.count("definitions_by_shape")
            elif model:
                nm = pick(rng, sorted(model))
                log.append(f"delete {nm!r}")
                with ctx.subject(f"deleting {nm!r}"):
                    nb = b._delete_definition(nm) if hasattr(b, "_delete_definition") else b.delete_definition(nm)
                nmodel = {k2: v for k2, v in model.items() if k2 != nm}
                ctx.count("deletions")
            else:
                continue
            if nm in model:
                ctx.count("redefinitions")
            versions.append((b, model))
            b, model = nb, nmodel
            judge(ctx, c, b, model, eps, dep, core, log[-1])
            ctx.seen(c.batch, str(core), k, nm, tr.skeleton(model.get(nm)))
        for ob, om in versions[-3:]:
            judge(ctx, c, ob, om, eps, dep, core, "an older builder, after the later definitions")
    if model:
        with ctx.subject("using the built controller"):
            ctrl = b.build()
            for nm in model:
                ctrl = ctrl.cache_update(nm, jax.tree_util.tree_map(jnp.ones_like, ctrl.accumulators[nm]))
            ctrl = ctrl.iterate_act(jnp.full(c.bshape, 0.25, core))
            for nm in model:
                if rng.random() < 0.4:
                    ctrl = ctrl.cache_update(nm, jax.tree_util.tree_map(jnp.ones_like, ctrl.accumulators[nm]))
        ctx.count("built_and_used")
        running(ctx, c, rng, ctrl)
    ctx.sample(log=log)


def running(ctx, c, rng, ctrl):
    """Definitions on a builder opened on a process that is under way."""
    with ctx.subject("a builder of a running process"):
        b = ControllerBuilder(ctrl.save())
    for _ in range(3):
        want = snap(b)
        nm = pick(rng, sorted(want["accumulators"]) + ["one more", "another"])
        k = int(rng.integers(3))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if k == 2 and nm in want["accumulators"] and len(want["accumulators"]) > 1:
                for f in ("accumulators", "defaults", "updates"):
                    del want[f][nm]
                with ctx.subject(f"deleting {nm!r} in a running process"):
                    b = b._delete_definition(nm) if hasattr(b, "_delete_definition") else b.delete_definition(nm)
            else:
                if k == 1:
                    tree, skw, d = shapes(rng, c)
                    do = lambda: b.define_accumulator_by_shape(nm, tree, **skw)
                else:
                    d = definition(rng, c)
                    do = lambda: b.define_accumulator_directly(nm, d)
                want["accumulators"][nm] = want["defaults"][nm] = tr.tmap(np.asarray, d)
                want["updates"][nm] = None
                with ctx.subject(f"defining {nm!r} in a running process"):
                    b = do()
        got = snap(b.build())
        for f in want:
            if isinstance(want[f], dict):
                ctx.check(sorted(want[f]) == sorted(got[f]), f"{f} of a running process are {sorted(got[f])}, not {sorted(want[f])}")
                for n in want[f]:
                    ctx.same(tr.diff_tree(want[f][n], got[f][n]), f"{f} of {n!r} after {['defining', 'defining by shape', 'deleting'][k]} {nm!r} in a running process")
            else:
                ctx.same(tr.diff_tree(want[f], got[f]), f"{f} after {['defining', 'defining by shape', 'deleting'][k]} {nm!r} in a running process")
        ctx.count("definitions_in_running_processes")


def judge(ctx, c, b, model, eps, dep, core, what):
    with ctx.subject("build"):
        k = b.build()
    s = snap(k)
    ctx.check(type(k) is ACT_Controller, "build does not give a controller", got=type(k))
    for key in ("probabilities", "residuals", "iterations"):
        ctx.check(s[key].shape == c.bshape, f"{what}: {key} do not have the batch shape", got=s[key].shape, want=c.bshape)
        ctx.check(s[key].dtype == core, f"{what}: {key} do not have the core dtype", got=s[key].dtype, want=core)
        ctx.check(bool(np.all(tr.f64(s[key]) == 0)), f"{what}: {key} do not start at zero", got=tr.short(s[key]))
    ctx.check(float(s["epsilon"]) == eps, f"{what}: epsilon is {s['epsilon']}, not {eps}")
    ctx.check(float(s["depression_constant"]) == dep, f"{what}: depression constant is {s['depression_constant']}, not {dep}")
    for key in ("accumulators", "defaults"):
        ctx.check(sorted(s[key]) == sorted(model), f"{what}: {key} are not those defined", got=sorted(s[key]), want=sorted(model))
        for nm in model:
            ctx.same(tr.diff_tree(model[nm], s[key][nm]), f"{what}: {key} of {nm!r} are not as defined")
            ctx.check(type(s[key][nm]) is type(model[nm]) or hasattr(model[nm], "dtype") and not isinstance(model[nm], tuple), "other container type")
    ctx.check(s["updates"] == {nm: None for nm in model}, f"{what}: updates pending in a new controller", got=tr.short(s["updates"]))
    for key, v in (("probabilities", b.probabilities), ("residuals", b.residuals), ("iterations", b.iterations),
                   ("accumulators", b.accumulators), ("defaults", b.defaults), ("updates", b.updates)):
        ctx.same(tr.diff_tree(s[key], tr.tmap(np.asarray, v)), f"{what}: builder property {key} differs from the built controller")
    ctx.check(float(b.epsilon) == eps, "builder property epsilon is wrong")
    ctx.count("builds_judged")
