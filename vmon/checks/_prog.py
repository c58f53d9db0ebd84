"""Shared shape of the checks which run ACT programs under one monitor."""
import jax
from vmon.session import *  # noqa
from vmon import gen, trees as tr
from vmon.probe import HUB, snap
from vmon.gen import *  # noqa

CYCLE = ["eager", "jit", "eager", "scan", "eager", "act", "while", "vmap"]


def mode_of(b, c):
    if c.core == F16:       # compiling half precision programs can crash jaxlib 0.4.23's cpu compiler natively
        return "eager"
    return CYCLE[(b + b // 8) % 8]


def warm(ctx, c, rng, ctrl, edits=True):
    """Random non-iterating but legal operations, so that programs start from varied states."""
    k = int(rng.integers(10))
    if k == 0:
        return ACT_Controller.load(ctrl.save())
    if k == 1:
        leaves, td = jax.tree_util.tree_flatten(ctrl)
        return jax.tree_util.tree_unflatten(td, leaves)
    if k == 2:
        return jax.jit(lambda x: x)(ctrl)
    if k == 3 and edits:
        ed = TensorEditor.edit_controller(ctrl)
        top = pick(rng, [5, 5, 70, 200, 1000, 5000, 10 ** 6])       # also counts as after very long processes
        v = np.asarray(rng.integers(0, top, c.bshape)).astype(float)
        return ed.set_iterations(jnp.asarray(v, dtype=c.core)).build()
    if k == 4 and edits:
        ed = TensorEditor.edit_controller(ctrl)
        v = np.asarray(rng.integers(0, 9, c.bshape)) / 8.0
        thr = 1 - c.eps
        v = np.where((v > thr), 1.0, v)      # elements above the threshold are at one, as after halting
        return ed.set_probabilities(jnp.asarray(v, dtype=c.core)).build()
    if k == 5 and edits:
        v = np.asarray(rng.integers(0, 9, c.bshape)) / 8.0
        p = np.where(rng.random(c.bshape) < 0.7, np.floor(min(0.25, (1 - c.eps) / 2) / c.grid) * c.grid, 1.0)
        ed = TensorEditor.edit_controller(ctrl).set_residuals(jnp.asarray(np.asarray(v), dtype=c.core))
        return ed.set_probabilities(jnp.asarray(np.asarray(p), dtype=c.core)).build()
    if k == 6 and edits:
        return half_halted(rng, c, ctrl)
    return ctrl


def half_halted(rng, c, ctrl):
    """Elements which an edit has brought above the threshold but below one: halted, with probability left."""
    up = 1 - c.eps * rng.choice([0.25, 0.5], c.bshape)
    low = rng.random(c.bshape) * (1 - c.eps) * 0.9
    if c.dyadic:
        up, low = np.ceil(up / c.grid) * c.grid, np.floor(low / c.grid) * c.grid
    v = np.where(rng.random(c.bshape) < 0.6, up, low)
    return TensorEditor.edit_controller(ctrl).set_probabilities(jnp.asarray(np.asarray(v), dtype=c.core)).build()


def landing(ctx, c, rng, what):
    """Hundreds of elements that land within rounding of where they would halt, in code compiled without the probe (whose
    callbacks would keep the compiler from fusing it): whatever the rounding decides, all quantities must agree on it.
    what is the property to judge."""
    core = pick(rng, [None, F32, F32, BF16] + ([F64] if ctx.x64 else []))
    dt = (F64 if ctx.x64 else F32) if core is None else core
    ec = tr.feps(dt)
    n = int(pick(rng, [130, 400, 1000]))
    shape = pick(rng, [(n,), (n // 5, 5)])
    eps = float(pick(rng, [1e-9, 1 / 3, 0.1, 0.3, rng.uniform(0.01, 0.6), rng.uniform(1e-4, 1e-2)]))
    dep = float(pick(rng, [0.3, 0.7, 0.9, 1.3, rng.uniform(0.1, 1.9), rng.uniform(0.1, 1.9)]))
    mode = pick(rng, ["jit", "status", "scan", "while", "grad", "several", "several", "vmap"])
    T = int(pick(rng, [2, 3])) if mode == "several" else 1
    thr = 1 - eps if eps > ec else 1.0
    leafs = [shape + tuple(int(x) for x in rng.integers(1, 4, int(rng.integers(0, 3)))) for _ in range(int(rng.integers(1, 4)))]
    with ctx.other("building"):
        b = ControllerBuilder.new_builder(list(shape), core, eps, dep)
        for i, s in enumerate(leafs):
            b = b.define_accumulator_directly(f"a{i}", jnp.zeros(s, F32))
        p = jnp.asarray(np.minimum(rng.random(shape) * thr, thr - 8 * ec), dt)
        k = TensorEditor.edit_controller(b.build(), "silence").set_probabilities(p).build()
        ups = {f"a{i}": jnp.asarray(rng.normal(size=s), F32) for i, s in enumerate(leafs)}
        left = (thr - tr.f64(p)) / dep
        part = np.asarray(rng.random((T,) + shape)) * 0.4
        part[-1] = 1 - part[:-1].sum(0)
        h = jnp.asarray(np.clip(left * part * (1 + rng.integers(-2, 3, shape) * ec * (rng.random() < 0.5)), 0, 1), dt)

    def one(k, h):
        for nm in ups:
            k = k.cache_update(nm, ups[nm])
        return k.iterate_act(h)

    def unrolled(k, h):
        for t in range(T):
            k = one(k, h[t])
        return k
    stat = lambda k: (k.halted_batches, k.is_completely_halted, k.is_any_halted)
    with ctx.subject(f"iterating compiled ({mode})"):
        if mode == "scan":
            o = jax.jit(lambda k, h: jax.lax.scan(lambda k, h: (one(k, h), None), k, h)[0])(k, h)
        elif mode == "while":
            o = jax.jit(lambda k, h: jax.lax.while_loop(lambda s: s[0] < T, lambda s: (s[0] + 1, one(s[1], h[s[0]])), (0, k))[1])(k, h)
        elif mode == "grad":
            def loss(h, k):
                q = unrolled(k, h)
                return jnp.sum(q.residuals.astype(F32)) + sum(jnp.sum(a) for a in q.accumulators.values()), q
            o = jax.jit(jax.value_and_grad(loss, has_aux=True))(h, k)[0][1]
        elif mode == "vmap":
            st = lambda x: jnp.stack([jnp.asarray(x)] * 2)
            o = jax.jit(jax.vmap(unrolled))(jax.tree_util.tree_map(st, k), st(h))
            o = jax.tree_util.tree_map(lambda x: x[1], o)
        elif mode == "status":
            o, said = jax.jit(lambda k, h: (lambda q: (q, stat(q)))(unrolled(k, h)))(k, h)
        else:
            o = jax.jit(unrolled)(k, h)
    f = tr.f64
    p0, p1, r, it = f(p), f(o.probabilities), f(o.residuals), f(o.iterations)
    H = p1 >= 1.0
    w = dict(eps=eps, depression=dep, core=str(dt), mode=mode, steps=T, shape=shape)

    def where(bad):
        i = np.unravel_index(int(np.argmax(bad)), bad.shape)
        return dict(elements=int(bad.sum()), at=i, p_before=p0[i], p_after=p1[i], residual=r[i], h=[f(h[t])[i] for t in range(T)], **w)
    if what == "C01":
        s = p0 + dep * f(h).sum(0)
        tol = 4 * ec * T
        bad = ~(np.where(H, s > thr - tol, np.abs(p1 - s) <= tol)) | (~H & (p1 > thr + tol))
        ctx.check(not bad.any(), "cumulative probability does not follow the law near the threshold", **where(bad))
    elif what == "C02":
        for nm in ups:
            a, u = f(o.accumulators[nm]), f(ups[nm])
            D = np.broadcast_to(tr.lb(p1 - p0, u.ndim), u.shape)
            bad = np.abs(a - D * u) > 8 * T * (ec + tr.feps(F32)) * np.abs(u) + 1e-30
            if bad.any():
                i = tuple(int(x[0]) for x in np.nonzero(bad))
                ctx.report(f"accumulator {nm!r} of an element landing near the threshold did not change by weight times update: element {i}, "
                           f"update {u[i]}, weight {D[i]}, got {a[i]}", **w)
            ctx.count("oracle_decisions")
    elif what == "C04":
        bad = (r != 0) != H
        ctx.check(not bad.any(), "a residual was set although the element did not halt, or not set although it did", **where(bad))
        if T == 1:
            bad = H & (np.abs(r - (1 - p0)) > 2 * ec * np.maximum(1 - p0, ec)) | (it != 1)
            ctx.check(not bad.any(), "residual or iteration count of an element landing near the threshold is wrong", **where(bad))
    elif what == "C05":
        a, al, an = [np.asarray(x) for x in (said if mode == "status" else stat(o))]
        strict = H if eps <= ec or mode != "status" else H | (p1 > thr + ec)
        bad = (a != strict) & ((p1 >= 1) | (p1 < thr - 2 * ec) | (p1 > thr + 2 * ec))
        ctx.check(not bad.any(), "the status of an element landing near the threshold does not match its probability", **where(bad))
        ctx.check(bool(al) == bool(a.all()) and bool(an) == bool(a.any()), "completely or any halted does not match the status of the elements", **w)
    ctx.count("landing_elements", int(H.size))
    ctx.count("landing_elements_that_halted", int(H.sum()))
    ctx.seen("landing", mode, round(eps, 3), round(dep, 2), str(dt), int(H.sum()))
