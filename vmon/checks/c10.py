"""Old objects never change: a pool of objects with digests, random operations, re-digest."""
from vmon.checks._prog import *  # noqa
from vmon.probe import snap, fields
from src.jax_act import ACTStates
from vmon.ctx import Abort


def make(ctx, rng, b):
    c = config(rng, ctx.x64, b, batches=[[2], [3], [2, 2], [], [1], [4]], naccs=int(rng.integers(1, 4)), leafless=0.05)
    c.T = 30 if not ctx.thorough else 80
    ctx.note["config"] = describe(c)
    return c


def digest(o):
    if isinstance(o, (ACT_Controller, ACTViewer, ControllerBuilder, TensorEditor, ACTStates)):
        f = fields(o)
        extra = (getattr(o, "error_mode", None), type(o).__name__,
                 tuple(sorted(k for k in vars(o) if not k.startswith("__"))))
        return tr.tree_bits(tr.tmap(lambda x: x, f)), extra
    return tr.tree_bits(o)


class Pool:
    def __init__(self, ctx, rng):
        self.ctx, self.rng, self.items = ctx, rng, []

    def add(self, o, what):
        self.items.append([o, digest(o), what])
        if len(self.items) > 40:
            self.items.pop(int(self.rng.integers(1, 20)))

    def pick(self, *types):
        cand = [i for i in self.items if isinstance(i[0], types)]
        return cand[int(self.rng.integers(len(cand)))] if cand else None

    def audit(self, op):
        for o, d, what in self.items:
            self.ctx.count("objects_audited")
            now = digest(o)
            if now != d:
                self.ctx.report(f"an existing {type(o).__name__} ({what}) changed during: {op}", before=d, after=now)
            self.ctx.count("oracle_decisions")


def episode(ctx, c, rng, e):
    with ctx.other("building"):
        ctrl = build(rng, c)
    pool = Pool(ctx, rng)
    pool.add(ctrl, "initial controller")
    pool.add(c.starts, "user supplied definitions")
    log = ctx.note["log"] = []
    for t in range(c.T):
        table = dict(cache=cache, iterate=iterate, reset=reset, viewer=viewer, view_op=view_op, edit=edit, builder=builder,
                     save=save, failing=failing, assign=assign, again=again, jit=jitted, unflatten=unflatten, iterate2=iterate,
                     cache2=cache, define=define)
        nm = pick(rng, list(table))
        try:
            with ctx.other(nm):
                desc = table[nm](ctx, c, rng, pool)
        except Abort:
            desc = nm + " (failed)"
        if desc is None:
            continue
        log.append(desc)
        ctx.count("operations")
        ctx.seen(nm, desc, c.batch, str(c.core), len(c.names), len(log))
        pool.audit(desc)
    pool.audit("the whole history")
    ctx.sample(config=ctx.note["config"], log=log)


def cache(ctx, c, rng, pool):
    it = pool.pick(ACT_Controller)
    k = it[0]
    for nm in list(c.names):
        if nm in k.save().updates and k.save().updates[nm] is None:
            u = update_tree(rng, c, nm)
            pool.add(u, "an update supplied by the user")
            pool.add(k.cache_update(nm, u), "after caching")
            return "cache_update"


def ready(k, c, rng):
    for nm in list(k.save().updates):
        if k.save().updates[nm] is None:
            if nm not in c.names:
                k = k.cache_update(nm, jax.tree_util.tree_map(jnp.ones_like, k.accumulators[nm]))
            else:
                k = k.cache_update(nm, update_tree(rng, c, nm))
    return k


def iterate(ctx, c, rng, pool):
    k = ready(pool.pick(ACT_Controller)[0], c, rng)
    pool.add(k, "ready to commit")
    h = halting(rng, c, pick(rng, HPATTERNS))
    pool.add(h, "halting probabilities supplied by the user")
    pool.add(k.iterate_act(h), "after an iteration")
    return "iterate_act"


def reset(ctx, c, rng, pool):
    k = pool.pick(ACT_Controller)[0]
    if k.has_cached_updates:
        return None
    pool.add(k.reset_batches(), "after a reset")
    return "reset_batches"


def viewer(ctx, c, rng, pool):
    pool.add(pool.pick(ACT_Controller)[0].make_viewer(), "a viewer")
    return "make_viewer"


def view_op(ctx, c, rng, pool):
    it = pool.pick(ACTViewer)
    if it is None:
        return None
    v = it[0]
    k = int(rng.integers(4))
    if k == 0:
        pool.add(v.halted_only(), "halted_only")
    elif k == 1:
        pool.add(v.unhalted_only(), "unhalted_only")
    elif k == 2:
        m = jnp.asarray(rng.random(c.bshape) < 0.5)
        pool.add(v.mask_data(m), "mask_data")
    else:
        pool.add(v.transform(lambda x: x * 0 + 7), "transform")
    return f"viewer operation {k}"


def edit(ctx, c, rng, pool):
    it = pool.pick(TensorEditor, ACT_Controller, ACTStates)
    o = it[0]
    mode = pick(rng, ["standard", "silence"])
    if isinstance(o, ACT_Controller):
        o = TensorEditor.edit_controller(o, mode)
    elif isinstance(o, ACTStates):
        o = TensorEditor.edit_save(o, mode)
    pool.add(o, "an editor")
    k = int(rng.integers(7))
    shape = c.bshape
    v = jnp.asarray(rng.random(shape), dtype=c.core)
    nm = pick(rng, sorted(o.accumulators))
    like = jax.tree_util.tree_map(lambda x: x + 1, o.accumulators[nm])
    pool.add(like, "a replacement supplied by the user")
    new = [lambda: o.set_probabilities(v), lambda: o.set_residuals(v), lambda: o.set_iterations(v),
           lambda: o.set_epsilon(0.125), lambda: o.set_accumulator(nm, like), lambda: o.set_defaults(nm, like),
           lambda: o.set_updates(nm, pick(rng, [None, like]))][k]()
    pool.add(new, "after an edit")
    pool.add(new.build(), "built from an editor")
    return f"edit {k}"


def builder(ctx, c, rng, pool):
    b = ControllerBuilder(pool.pick(ACT_Controller)[0].save())
    pool.add(b, "a builder")
    return "builder"


def define(ctx, c, rng, pool):
    it = pool.pick(ControllerBuilder)
    if it is None:
        return None
    b = it[0]
    k = int(rng.integers(3))
    if k == 0:
        d = {"x": jnp.ones(c.bshape + (2,)), "y": [jnp.zeros(c.bshape)]}
        pool.add(d, "a definition supplied by the user")
        b2 = b.define_accumulator_directly(pick(rng, ["extra", c.names[0]]), d)
        if "extra" not in b2.accumulators:
            pool.add(b2, "after a redefinition")
            return "redefine"
    elif k == 1:
        shp = {"p": list(c.bshape) + [1], "q": [list(c.bshape)]}
        keep = repr(shp)
        b2 = b.define_accumulator_by_shape("extra", shp)
        ctx.check(repr(shp) == keep, "the tree of shapes supplied by the user was changed")
    elif len(b.accumulators) > 1:
        b2 = b._delete_definition(sorted(b.accumulators)[0])
        pool.add(b2, "after a deletion")
        return "delete"
    else:
        return None
    pool.add(b2, "after a definition")
    if int(rng.integers(2)):
        pool.add(b2.build(), "built")
    return f"define {k}"


def save(ctx, c, rng, pool):
    o = pool.pick(ACT_Controller, ACTViewer, TensorEditor)[0]
    s = o.save()
    pool.add(s, "a save")
    pool.add(ACT_Controller.load(s), "loaded from a save")
    if rng.random() < 0.5:
        f = pick(rng, [dict(depression_constant=0.5), dict(epsilon=0.25), dict(updates={n: None for n in s.updates}), dict(iterations=s.iterations + 1)])
        pool.add(s.replace(**f), "a save with a field replaced")
    return "save/load"


def failing(ctx, c, rng, pool):
    k = pool.pick(ACT_Controller)[0]
    n = int(rng.integers(6))
    nm = sorted(k.accumulators)[0]
    bad = [lambda: k.cache_update("no such accumulator", 1), lambda: k.iterate_act(jnp.ones(c.bshape + (3,))),
           lambda: k.cache_update(nm, jnp.ones((9, 9))).iterate_act(halting(rng, c, "uniform")),
           lambda: k.make_viewer().mask_data(jnp.ones((9,), bool)),
           lambda: k.make_viewer().transform(lambda x: 1 / 0),
           lambda: TensorEditor.edit_controller(k).set_probabilities(jnp.full(c.bshape, 2.0, c.core))][n]
    try:
        bad()
        return None
    except Exception:
        return f"failing operation {n}"


def assign(ctx, c, rng, pool):
    it = pool.pick(ACT_Controller, ACTViewer, ControllerBuilder, TensorEditor)
    o = it[0]
    how = int(rng.integers(4))
    if how == 1:
        l, td = jax.tree_util.tree_flatten(o)
        o = jax.tree_util.tree_unflatten(td, l)
    elif how == 2 and not isinstance(o, (ControllerBuilder, TensorEditor)):
        o = type(o).load(o.save())
    elif how == 3:
        o = jax.tree_util.tree_map(lambda x: x, o)
    d = digest(o)
    attr = pick(rng, ["state", "probabilities", "brand_new", "residuals", "accumulators", "error_mode", "iterations", "_x",
                      "halt_threshold", "epsilon"])
    val = pick(rng, [None, 1, jnp.zeros(3), o.state.replace(epsilon=0.77)])
    ctx.raises(f"assigning {attr} on a {type(o).__name__} (obtained {['directly', 'by unflatten', 'by load', 'by tree_map'][how]})",
               AttributeError, lambda: setattr(o, attr, val))
    ctx.check(digest(o) == d, f"a refused assignment of {attr} changed the {type(o).__name__}")
    ctx.count("assignments_refused")
    return f"assign {type(o).__name__}"


def again(ctx, c, rng, pool):
    """The same operation on the same old object twice, with other work in between."""
    k = ready(pool.pick(ACT_Controller)[0], c, rng)
    h = halting(rng, c, pick(rng, HPATTERNS))
    a = digest(k.iterate_act(h))
    other = k.iterate_act(halting(rng, c, "ones"))
    other.reset_batches()
    k.make_viewer().halted_only()
    b = digest(k.iterate_act(h))
    ctx.check(a == b, "repeating an iteration on the same controller gives another result", first=a, second=b)
    ctx.count("repetitions")
    return "repeat iterate_act"


def jitted(ctx, c, rng, pool):
    k = pool.pick(ACT_Controller)[0]
    if c.core == F16 or rng.random() < 0.8:
        return None
    out = jax.jit(lambda q: q)(k)
    pool.add(out, "through a compiled identity")
    return "jit identity"


def unflatten(ctx, c, rng, pool):
    o = pool.pick(ACT_Controller, ACTViewer, ControllerBuilder, TensorEditor)[0]
    l, td = jax.tree_util.tree_flatten(o)
    pool.add(jax.tree_util.tree_unflatten(td, l), "unflattened")
    pool.add(jax.tree_util.tree_map(lambda x: x + 1, o), "tree_map over an object")
    return "unflatten"
