"""The same program in every mode; and every public operation traced against eager."""
import copy
from vmon.checks._prog import *  # noqa
from vmon.monitors import Monitor
from vmon.session import _body, _body_noreset
from vmon.probe import snap
from vmon.trees import f64


WAYS = ["jit", "scan", "while", "act", "vmap", "ops", "ops", "fori", "scan", "remat", "sharded", "unrolled", "vmap", "ops", "ops", "aot", "no jit",
        "while"]


def make(ctx, rng, b):
    c = config(rng, ctx.x64, b, core=pick(rng, [None, F32, BF16, F32, None] + ([F64] if ctx.x64 else [])))
    if c.core == F16:
        c.core_arg, c.core = None, F64 if ctx.x64 else F32
    c.mode = WAYS[(b + b // 8) % len(WAYS)]
    c.T = int(rng.integers(2, 9)) if b % 6 or c.mode in ("unrolled", "no jit") else 30
    ctx.note["config"] = describe(c) + f" mode={c.mode} T={c.T}"
    return c


def fori(c, ctrl, prog):
    xs = stack(prog)
    return jax.lax.fori_loop(0, len(prog), lambda t, k: body_of(prog)(k, jax.tree_util.tree_map(lambda a: a[t], xs)), ctrl)


def body_of(prog):
    return _body if any(s["reset"] for s in prog) else _body_noreset


def remat(c, ctrl, prog):
    return jax.jit(lambda k, xs: jax.lax.scan(lambda q, x: (jax.checkpoint(body_of(prog))(q, x), None), k, xs)[0])(ctrl, stack(prog))


def unrolled(c, ctrl, prog):
    return jax.jit(lambda k, p: run_eager(c, k, [dict(q, reset=s["reset"], order=s["order"]) for q, s in zip(p, prog)]))(
        ctrl, [dict(h=s["h"], ups=s["ups"]) for s in prog])


def aot(c, ctrl, prog):
    f = jax.jit(body_of(prog))
    x = lambda s: (s["h"], s["ups"], jnp.asarray(s["reset"]))
    ctrl = jax.tree_util.tree_map(jnp.asarray, ctrl)
    f = f.lower(ctrl, x(prog[0])).compile()
    for s in prog:
        ctrl = f(ctrl, x(s))
    return ctrl


def no_jit(c, ctrl, prog):
    with jax.disable_jit():
        return jax.lax.scan(lambda k, x: (body_of(prog)(k, x), None), ctrl, stack(prog))[0]


def sharded(c, ctrl, prog):
    """The first batch dimension divided over two devices."""
    from jax.sharding import Mesh, NamedSharding, PartitionSpec as P
    mesh = Mesh(np.array(jax.devices()[:2]), ("d",))
    n = c.bshape[0] if c.bshape else 1
    put = lambda x: jax.device_put(x, NamedSharding(mesh, P("d") if jnp.ndim(x) and n % 2 == 0 and x.shape[0] == n and n else P()))
    f = jax.jit(body_of(prog))
    ctrl = jax.tree_util.tree_map(put, ctrl)
    for s in prog:
        ctrl = f(ctrl, (put(s["h"]), jax.tree_util.tree_map(put, s["ups"]), jnp.asarray(s["reset"])))
    return ctrl


RUN = dict(MODES, fori=fori, remat=remat, unrolled=unrolled, aot=aot, sharded=sharded)
RUN["no jit"] = no_jit


class Margin(Monitor):
    """How close the eager run comes to the threshold: closer than rounding, the comparison is not decisive."""
    def __init__(self, ctx):
        super().__init__(ctx)
        self.m = np.inf
        self.sizes = {}         # leaf by leaf, the largest finite magnitude that went into an accumulator

    def on_iterate_act(self, ev):
        for n, t in ev.pre["accumulators"].items():
            for (p, x), (_, u) in zip(tr.leaves({n: t}), tr.leaves(ev.pre["updates"][n])):
                self.sizes[p] = max(self.sizes.get(p, 0.0), mag(x, u), mag(u, x))
        p = f64(ev.pre["probabilities"])
        s = p + float(ev.pre["depression_constant"]) * np.clip(f64(ev.args["h"]), 0, 1)
        thr = 1 - float(ev.pre["epsilon"])
        if p.size:
            live = p < 1
            d = np.where(live, np.minimum(np.abs(s - thr), np.abs(s - 1)), np.inf)
            self.m = min(self.m, float(d.min()) if d.ndim else float(d))


def compare(ctx, c, a, b, what, n, sizes={}):
    for key in ("probabilities", "residuals", "iterations", "accumulators", "defaults"):
        ctx.check(tr.skeleton(a[key]) == tr.skeleton(b[key]), f"{what}: {key} has another structure, shape or dtype",
                  eager=tr.skeleton(a[key]), traced=tr.skeleton(b[key]))
        for (p, x), (_, y) in zip(tr.leaves(a[key]), tr.leaves(b[key])):
            e = max(tr.feps(x.dtype), tr.feps(c.core) if key == "accumulators" and not c.dyadic else 0)
            with np.errstate(all="ignore"):
                ok = np.allclose(f64(x), f64(y), rtol=8 * e * (n + 1), atol=8 * e * (n + 1) * max(1.0, mag(x, y), sizes.get(p, 0.0) if key == "accumulators" else 0.0), equal_nan=True)
            ctx.check(bool(ok), f"{what}: {key}{p} differs from eager execution", eager=tr.short(x), traced=tr.short(y))
    ctx.check({k: v is None for k, v in a["updates"].items()} == {k: v is None for k, v in b["updates"].items()},
              f"{what}: other updates are pending")
    for k in ("epsilon", "depression_constant"):
        ctx.check(abs(float(a[k]) - float(b[k])) <= 2e-7 * abs(float(a[k])), f"{what}: {k} differs")


def mag(x, y):
    if str(x.dtype) in ("int32", "bool"):
        return 1.0
    v = np.abs(f64(x))
    v = v[np.isfinite(v)]
    return float(v.max()) if v.size else 1.0


def episode(ctx, c, rng, e):
    if c.mode == "ops":
        return ops(ctx, c, rng)
    with ctx.other("building"):
        ctrl = build(rng, c)
        if rng.random() < 0.3:
            ctrl = warm(ctx, c, rng, ctrl)
    prog = program(rng, c, c.T, resets=0.2 if c.mode not in ("while", "act", "vmap") else 0, kind="dyadic" if c.dyadic else None)
    for s in prog:
        s["order"] = prog[0]["order"]
    if c.mode == "vmap":
        return vmapped(ctx, c, rng, ctrl, prog)
    m = Margin(ctx)
    HUB.start([m])
    try:
        with ctx.other("eager run"):
            if c.mode in ("while", "act"):
                a, n = ctrl, 0
                while n < len(prog) and not bool(a.is_completely_halted):
                    a = step(a, prog[n]["h"], prog[n]["ups"])
                    n += 1
            else:
                a = run_eager(c, ctrl, prog)
            a = snap(a)
    finally:
        HUB.enabled = False
    if not decisive(ctx, c, m):
        return
    with ctx.subject(f"the program in mode {c.mode}"):
        b = snap(RUN[c.mode](c, ctrl, prog))
    compare(ctx, c, a, b, f"mode {c.mode}", len(prog), m.sizes)
    ctx.count("programs_compared")
    ctx.count("mode: " + c.mode)
    ctx.seen(c.mode, c.batch, str(c.core), c.T, tr.short(prog[0]["h"]))
    ctx.sample(config=ctx.note["config"], h=[tr.short(s["h"]) for s in prog[:4]])


def decisive(ctx, c, m):
    if c.dyadic and float(c.dep) in (0.5, 1.0, 2.0, 4.0) or m.m > 64 * tr.feps(c.core):
        return True
    ctx.count("skipped_near_threshold")
    return False


def vmapped(ctx, c, rng, ctrl, prog):
    ctrls, progs = [ctrl], [prog]
    for _ in range(2):
        with ctx.other("building"):
            o = copy.copy(c)
            if rng.random() < 0.5:      # the configuration belongs to the controller, too
                o.dep = float(pick(rng, [0.5, 1.0, 2.0]))
            if rng.random() < 0.3:
                o.eps = float(pick(rng, [0.5, 0.25, c.eps]))
            ctrls.append(build(rng, o, c.starts))
        progs.append(program(rng, o, len(prog), kind="dyadic" if c.dyadic else None))
    for q in progs:
        for s in q:
            s["reset"] = False
    m = Margin(ctx)
    HUB.start([m])
    try:
        with ctx.other("eager run"):
            want = [snap(run_eager(c, k, q)) for k, q in zip(ctrls, progs)]
    finally:
        HUB.enabled = False
    if not decisive(ctx, c, m):
        return
    with ctx.subject("the programs under vmap"):
        got = [snap(k) for k in run_vmap(c, ctrls, progs)]
    for a, b in zip(want, got):
        compare(ctx, c, a, b, "vmap", len(prog), m.sizes)
    ctx.count("programs_compared", 3)
    ctx.count("mode: vmap", 3)


def ops(ctx, c, rng):
    """Single public operations on a random state: jitted result against eager result."""
    with ctx.other("building"):
        ctrl = build(rng, c)
        prog = program(rng, c, int(rng.integers(1, 4)))
        ctrl = run_eager(c, ctrl, prog)
        table = op_table(ctx, c, rng, ctrl, prog)
    names = list(table)
    rng.shuffle(names)
    for nm in names[:8]:
        f, args = table[nm]
        with ctx.other("eager " + nm):
            a = f(*args)
        with ctx.subject("jit of " + nm):
            b = jax.jit(f)(*args)
        same_result(ctx, c, nm, a, b)
        ctx.count("operations_compared")
        ctx.count("op: " + nm)
        ctx.seen("op", nm, c.batch, str(c.core), tr.skeleton(c.starts))
    # and vmapped over a stack of equal controllers
    nm = pick(rng, ["reset_batches", "halted_batches", "halted_only", "unhalted_only", "cache_update", "iterate_act"])
    f, args = table[nm]
    axes = jax.tree_util.tree_map(lambda x: 0, args)
    with ctx.subject("vmap of " + nm):
        two = jax.tree_util.tree_map(lambda x: jnp.stack([jnp.asarray(x)] * 2), args)
        v = jax.vmap(f, in_axes=axes)(*two)
        b = jax.tree_util.tree_map(lambda x: x[1], v)
    with ctx.other("eager " + nm):
        a = f(*args)
    same_result(ctx, c, "vmap " + nm, a, b)


def op_table(ctx, c, rng, ctrl, prog):
    """name -> (function of public operations, arguments)"""
    o = copy.copy(c)
    o.dep = float(pick(rng, [0.5, 1.0, 2.0, 0.25]))
    other = run_eager(c, build(rng, o, c.starts), prog[:1])
    pend = ctrl.cache_update(c.names[0], prog[0]["ups"][c.names[0]])
    mask = jnp.asarray(rng.random(c.bshape) < 0.5)
    ups, h = prog[0]["ups"], prog[0]["h"]
    P = jax.tree_util.Partial
    vw = lambda f: (lambda k: f(k.make_viewer()))
    starts = c.starts
    return {
        "cache_update": (lambda k, u: k.cache_update(c.names[0], u), (ctrl, ups[c.names[0]])),
        "iterate_act": (lambda k, u, h: step(k, h, u), (ctrl, ups, h)),
        "reset_batches": (lambda k: k.reset_batches(), (ctrl,)),
        "halted_batches": (lambda k: k.halted_batches, (ctrl,)),
        "is_completely_halted": (lambda k: k.is_completely_halted, (ctrl,)),
        "is_any_halted": (lambda k: k.is_any_halted, (ctrl,)),
        "properties": (lambda k: (k.probabilities, k.residuals, k.iterations, k.accumulators, k.halt_threshold,
                                  k.depression_constant), (ctrl,)),
        "getitem": (lambda k: k[c.names[0]], (ctrl,)),
        "save/load": (lambda k: ACT_Controller.load(k.save()), (pend,)),
        "pending flags": (lambda k: (jnp.asarray(k.updates_ready_to_commit), jnp.asarray(k.has_cached_updates)), (pend,)),
        "make_viewer": (vw(lambda v: v), (pend,)),
        "halted_only": (vw(lambda v: v.halted_only()), (pend,)),
        "unhalted_only": (vw(lambda v: v.unhalted_only()), (ctrl,)),
        "mask_data": (lambda k, m: k.make_viewer().mask_data(m), (pend, mask)),
        "transform": (lambda k, f: k.make_viewer().transform(f), (pend, P(lambda s, x: x * s, 2.0))),
        "viewer of a viewer state": (lambda v: v.halted_batches, (ctrl.make_viewer(),)),
        "viewer properties": (vw(lambda v: (v.probabilities, v.residuals, v.iterations, v.accumulators, v.defaults,
                                            v.updates, v.halt_threshold)), (pend,)),
        "build": (lambda s: _build(c, s), (starts,)),
        "build with a given depression constant": (lambda s, d: step(_build(c, s, d), h, ups), (starts, float(pick(rng, [0.5, 1.5, 2])))),
        "cond between controllers": (lambda b, x, y: step(jax.lax.cond(b, lambda p, q: p, lambda p, q: q, x, y), h, ups),
                                     (bool(rng.integers(2)), ctrl, other)),
        "iterate with another configuration": (lambda k: step(k, h, ups), (other,)),
        "define on a builder": (lambda b, s: b.define_accumulator_directly("new one", s).build(),
                                (ControllerBuilder(ctrl.save()), starts[c.names[0]])),
        "define by shape on a builder": (lambda b: b.define_accumulator_by_shape("new one", list(c.bshape) + [2], c.core, 1.5).build(),
                                         (ControllerBuilder(ctrl.save()),)),
        "define by shape with a given fill": (lambda b, v: b.define_accumulator_by_shape("new one", [list(c.bshape) + [2], list(c.bshape)], c.core, v).build(),
                                              (ControllerBuilder(ctrl.save()), 1.5)),
        "whole pipeline": (lambda s, u, h: step(_build(c, s), h, u).reset_batches().make_viewer().unhalted_only(),
                           (starts, ups, h)),
    }


def _build(c, s, dep=None):
    b = ControllerBuilder.new_builder(list(c.bshape), c.core_arg, c.eps, c.dep if dep is None else dep)
    for n in c.names:
        b = b.define_accumulator_directly(n, s[n])
    return b.build()


def same_result(ctx, c, nm, a, b):
    ctx.check(type(a) is type(b), f"{nm}: traced gives {type(b)}, eager {type(a)}")
    if hasattr(a, "state"):
        compare(ctx, c, snap(a), snap(b), nm, 2)
        ups_a, ups_b = snap(a)["updates"], snap(b)["updates"]
        d = tr.close_trees(ups_a, ups_b, 8 * tr.feps(c.core), 1e-30)
        ctx.check(d is None, f"{nm}: pending updates differ: {d}")
    else:
        la, lb_ = jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)
        ctx.check(len(la) == len(lb_), f"{nm}: other number of results")
        for x, y in zip(la, lb_):
            x, y = np.asarray(x), np.asarray(y)
            with np.errstate(all="ignore"):
                ok = x.shape == y.shape and np.allclose(f64(x), f64(y), rtol=3e-7, atol=1e-12, equal_nan=True)
            ctx.check(bool(ok), f"{nm}: traced and eager results differ", eager=tr.short(x), traced=tr.short(y))
