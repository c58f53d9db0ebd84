"""Derivatives through ACT processes against the derivatives of the weighted sum."""
from vmon.checks._prog import *  # noqa
from vmon.trees import f64, lb
from src.jax_act import AbstractACTTemplate


def make(ctx, rng, b):
    dt = F64 if ctx.x64 and rng.random() < 0.7 else F32
    c = config(rng, ctx.x64, b, core=dt, leaf_dtypes=[dt, dt, F32], naccs=int(rng.integers(1, 3)), dyadic=False,
               batches=[[], [1], [2], [3], [2, 3], [4], [3, 1], [2, 2]], deps=[1.0, 1.0, 0.5, 0.8, 1.5, 2.0],
               epss=[1e-4, 1e-2, 0.1, 0.3, 1e-6])
    for nm in c.names:
        c.uspecs[nm] = c.specs[nm]
    c.mode = ["grad", "grad jit", "grad scan", "jvp while", "jvp act", "grad", "jvp", "grad scan"][(b + b // 8) % 8]
    c.T = int(rng.integers(2, 9))
    c.traced_dep = None
    c.resets = [False] * c.T
    if c.mode in ("grad", "grad jit", "grad scan", "jvp") and rng.random() < 0.35:
        c.T += 2
        c.resets = [False] + [bool(x) for x in rng.random(c.T - 1) < 0.4]
    ctx.note["config"] = describe(c) + f" mode={c.mode} T={c.T}"
    return c


def inputs(rng, c):
    """Halting probabilities inside (0, 1), and no closer than 2e-3 to the threshold. Returns hs, weights, N."""
    thr = 1 - c.eps
    scale = pick(rng, [0.9, 0.4, 0.2, 0.05] if not any(c.resets) else [0.9, 0.6, 0.4])
    for _ in range(200):
        hs = 0.02 + rng.random((c.T,) + c.bshape) * scale * 0.95
        hs = np.asarray(np.asarray(hs, dtype=str(c.core)), dtype=np.float64)
        p = np.zeros(c.bshape)
        w = np.zeros_like(hs)
        N = np.full(c.bshape, c.T)
        ok = True
        L = np.zeros(c.bshape, int)      # where the time since the last reset begins
        for t in range(c.T):
            if c.resets[t]:
                L, N, p = np.where(p >= 1, t, L), np.where(p >= 1, c.T, N), np.where(p >= 1, 0.0, p)
            live = p < 1
            s = p + c.dep * hs[t]
            ok = ok and bool(np.all(~live | (np.abs(s - thr) > 2e-3) & (np.abs(s - 1) > 1e-7)))
            halt = live & ((s > thr) | (s >= 1))
            q = np.where(live, np.where(halt, 1.0, s), p)
            w[t] = q - p
            N = np.where(halt, t, N)
            p = q
        if ok:
            w = np.where(np.arange(c.T).reshape((c.T,) + (1,) * len(c.bshape)) >= L, w, 0.0)
            if rng.random() < 0.5:      # whatever comes after halting must not matter
                after = np.arange(c.T).reshape((c.T,) + (1,) * len(c.bshape)) > N
                hs = np.where(after, rng.choice([0.0, 1.0, 2.0, -1.0, 0.5], hs.shape), hs)
            return hs, w, N, p, L
    raise Abort("no inputs away from the threshold")


def runner(c, mode, resets=None):
    resets = resets or [False] * c.T

    def start(starts):
        b = ControllerBuilder.new_builder(list(c.bshape), c.core, c.eps, c.dep)
        for n in c.names:
            b = b.define_accumulator_directly(n, starts[n])
        k = b.build()
        return k if c.traced_dep is None else ACT_Controller.load(k.save().replace(depression_constant=c.traced_dep))

    def out(k):
        return {n: k.accumulators[n] for n in c.names}, k.residuals, k.probabilities

    def unrolled(hs, ups, starts):
        k = start(starts)
        for t in range(c.T):
            k = k.reset_batches() if resets[t] else k
            k = step(k, hs[t], jax.tree_util.tree_map(lambda a: a[t], ups), c.names)
        return out(k)

    def scan(hs, ups, starts):
        if any(resets):
            k = jax.tree_util.tree_map(jnp.asarray, start(starts))
            return out(jax.lax.scan(lambda k, x: (step(jax.lax.cond(x[2], lambda q: q.reset_batches(), lambda q: q, k), x[0], x[1], c.names), None),
                                    k, (hs, ups, jnp.asarray(resets)))[0])
        k, _ = jax.lax.scan(lambda k, x: (step(k, x[0], x[1], c.names), None), start(starts), (hs, ups))
        return out(k)

    def while_(hs, ups, starts):
        def body(s):
            k, t = s
            return step(k, hs[t], jax.tree_util.tree_map(lambda a: a[t], ups), c.names), t + 1
        return out(jax.lax.while_loop(lambda s: (~s[0].is_completely_halted) & (s[1] < c.T), body, (start(starts), 0))[0])

    class L(AbstractACTTemplate):
        def make_controller(self, s, dep):
            return start(s[2])

        def setup_lazy_parameters(self, k, s):
            pass

        def run_iteration(self, k, s):
            hs, ups, starts, t = s
            return step(k, hs[t], jax.tree_util.tree_map(lambda a: a[t], ups), c.names), (hs, ups, starts, t + 1)

    def act(hs, ups, starts):
        return out(L().execute_act((hs, ups, starts, 0), c.dep, c.T)[0])
    return {"grad": unrolled, "grad jit": unrolled, "grad scan": scan, "jvp while": while_, "jvp act": act, "jvp": unrolled}[mode]


def reference(c, hs, ups, w, N, L, co, cr, cp):
    """The derivative of sum(co*acc)+sum(cr*res)+sum(cp*prob) for each input, in float64."""
    d_ups = {n: tr.tmap2(lambda u, g: np.stack([lb(w[t], g.ndim) * g for t in range(c.T)]), ups[n], co[n]) for n in c.names}
    d_start = {n: co[n] for n in c.names}
    d_h = np.zeros_like(hs)
    nb = len(c.bshape)
    for t in range(c.T):
        before = (t < N) & (t >= L)
        d = np.where(before & (N < c.T), -c.dep * cr, 0.0) + np.where(before & (N == c.T), c.dep * cp, 0.0)
        for n in c.names:
            for (_, u), (_, g) in zip(tr.leaves(ups[n]), tr.leaves(co[n])):
                # the update at halting, for elements which halted
                uN = np.zeros(g.shape)
                for s in range(c.T):
                    uN = np.where(lb(N == s, g.ndim), u[s], uN)
                e = lb(np.where(before, c.dep, 0.0), g.ndim) * (u[t] - uN) * g
                d = d + e.reshape(c.bshape + (-1,)).sum(axis=nb)
        d_h[t] = d
    return d_h, d_ups, d_start


def cast(c, t, specs):
    return {n: tr.tmap2(lambda x, l: jnp.asarray(x, dtype=l.dtype), t[n], specs[n]) for n in c.names}


def episode(ctx, c, rng, e):
    if c.mode.startswith("grad") and rng.random() < 0.2:
        return boundary(ctx, c, rng)
    hs, w, N, p, L = inputs(rng, c)
    rand = lambda lead: {n: tr.tmap(lambda l: np.asarray(np.asarray(rng.normal(size=lead + l.shape), dtype=str(l.dtype)), dtype=np.float64),
                                    c.specs[n]) for n in c.names}
    ups, starts, co = rand((c.T,)), rand(()), rand(())
    cr, cp = rng.normal(size=c.bshape), rng.normal(size=c.bshape)
    args = (jnp.asarray(hs, dtype=c.core), cast(c, ups, c.specs), cast(c, starts, c.specs))
    f = runner(c, c.mode, c.resets)
    dh, du, ds = reference(c, hs, ups, w, N, L, co, cr, cp)
    tol = 2e-4 if c.core == F32 or any(l.dtype == F32 for n in c.names for _, l in tr.leaves(c.specs[n])) else 1e-9
    witness = dict(hs=hs.tolist(), halting_step=N.tolist())

    def loss(hs, ups, starts):
        a, r, q = f(hs, ups, starts)
        s = jnp.sum(r * jnp.asarray(cr, r.dtype)) + jnp.sum(q * jnp.asarray(cp, q.dtype))
        for n in c.names:
            for (_, x), (_, g) in zip(tr.leaves(a[n]), tr.leaves(co[n])):
                s = s + jnp.sum(x * jnp.asarray(g, x.dtype)).astype(s.dtype)
        return s
    size = 1.0 + max([np.abs(dh).max() if dh.size else 0] + [np.abs(x).max() if x.size else 0 for _, x in tr.leaves(du)])
    if c.mode.startswith("grad") and rng.random() < 0.3:      # of the second order: along a direction
        th, tu, ts = rng.normal(size=hs.shape), rand((c.T,)), rand(())
        tang = (jnp.asarray(th, dtype=c.core), cast(c, tu, c.specs), cast(c, ts, c.specs))
        at = np.arange(c.T).reshape((c.T,) + (1,) * len(c.bshape))
        before = (at < N) & (at >= L)
        dw = np.where(before, c.dep * th, 0.0)
        dw = np.where(at == N, -dw.sum(axis=0), dw)
        wh, wu, _ = reference(c, hs, tu, dw, N, L, co, 0 * cr, 0 * cp)
        how = pick(rng, ["forward over reverse", "reverse over reverse"])
        g = jax.grad(loss, argnums=(0, 1, 2))
        dots = lambda *a: sum(jnp.sum((x * y).astype(jnp.float32)) for x, y in zip(jax.tree_util.tree_leaves(g(*a)), jax.tree_util.tree_leaves(tang)))
        second = (lambda *a: jax.jvp(g, a, tang)[1]) if how == "forward over reverse" else jax.grad(dots, argnums=(0, 1, 2))
        with ctx.subject(f"differentiating twice ({c.mode}, {how})"):
            gh, gu, gs = (second if c.mode == "grad" else jax.jit(second))(*args)
            gh, gu, gs = tr.tmap(np.asarray, gh), tr.tmap(np.asarray, gu), tr.tmap(np.asarray, gs)
        size = 1.0 + max([np.abs(wh).max() if wh.size else 0] + [np.abs(x).max() if x.size else 0 for _, x in tr.leaves(wu)])
        tol2 = 2e-4 if tol > 1e-6 or how != "forward over reverse" else tol
        for what, a, b in (("the halting probabilities", gh, wh), ("the updates", gu, wu), ("the starting values", gs, tr.tmap(lambda x: 0 * x, co))):
            for (path, x), (_, y) in zip(tr.leaves(a), tr.leaves(b)):
                ctx.check(bool(np.all(np.isfinite(x))), f"the second derivative with respect to {what}{path} is not finite ({c.mode}, {how})", got=tr.short(x), **witness)
                ctx.check(np.allclose(f64(x), y, rtol=tol2, atol=tol2 * size), f"the second derivative with respect to {what}{path} is not that of "
                          f"the weighted sum ({c.mode}, {how})", got=tr.short(x), want=tr.short(y), **witness)
                ctx.count("second_derivatives_judged", int(x.size))
    elif c.mode.startswith("grad"):
        g = jax.grad(loss, argnums=(0, 1, 2))
        with ctx.subject(f"differentiating ({c.mode})"):
            if c.mode != "grad":
                g = jax.jit(g)
            gh, gu, gs = g(*args)
            gh, gu, gs = tr.tmap(np.asarray, gh), tr.tmap(np.asarray, gu), tr.tmap(np.asarray, gs)
        for what, a, b in (("the halting probabilities", gh, dh), ("the updates", gu, du), ("the starting values", gs, ds)):
            for (path, x), (_, y) in zip(tr.leaves(a), tr.leaves(b)):
                ctx.check(bool(np.all(np.isfinite(x))), f"the derivative with respect to {what}{path} is not finite", got=tr.short(x), **witness)
                ctx.check(np.allclose(f64(x), y, rtol=tol, atol=tol * size), f"the derivative with respect to {what}{path} is not that of "
                          f"the weighted sum ({c.mode})", got=tr.short(x), want=tr.short(y), **witness)
                ctx.count("derivatives_judged", int(x.size))
    else:
        th = rng.normal(size=hs.shape)
        tu, ts = rand((c.T,)), rand(())
        tang = (jnp.asarray(th, dtype=c.core), cast(c, tu, c.specs), cast(c, ts, c.specs))
        with ctx.subject(f"differentiating ({c.mode})"):
            _, d = jax.jvp(loss, args, tang)
            d = float(d)
        want = float((th * dh).sum()) + sum(float((x * y).sum()) for (_, x), (_, y) in zip(tr.leaves(tu), tr.leaves(du)))
        want += sum(float((x * y).sum()) for (_, x), (_, y) in zip(tr.leaves(ts), tr.leaves(ds)))
        mass = 1 + np.abs(th * dh).sum() + sum(np.abs(x * y).sum() for (_, x), (_, y) in zip(tr.leaves(tu), tr.leaves(du)))
        ctx.check(np.isfinite(d) and abs(d - want) <= tol * mass, f"the directional derivative ({c.mode}) is {d}, that of the weighted sum {want}",
                  **witness)
        ctx.count("directional_derivatives")
    if c.mode != "jvp act" and rng.random() < 0.3:
        depression(ctx, c, rng, loss, args, hs, dh, tol, witness)
    ctx.count("processes_differentiated")
    if L.any():
        ctx.count("with_elements_reset")
    if (N < c.T).any():
        ctx.count("with_halted_elements")
    ctx.seen(c.mode, c.batch, str(c.core), N.tobytes(), tr.skeleton(co))
    ctx.sample(config=ctx.note["config"], halting_step=N.tolist())


def depression(ctx, c, rng, loss, args, hs, dh, tol, witness):
    """With respect to the depression constant: it only ever multiplies the halting probabilities."""
    def of(d):
        c.traced_dep = d
        try:
            return loss(*args)
        finally:
            c.traced_dep = None
    at = jnp.asarray(c.dep, dtype=c.core)
    with ctx.subject(f"differentiating by the depression constant ({c.mode})"):
        if c.mode.startswith("grad"):
            d = float((jax.grad(of) if c.mode == "grad" else jax.jit(jax.grad(of)))(at))
        else:
            d = float(jax.jvp(of, (at,), (jnp.ones_like(at),))[1])
    want = float((hs * dh).sum()) / c.dep
    mass = 1 + float(np.abs(hs * dh).sum()) / c.dep
    ctx.check(np.isfinite(d) and abs(d - want) <= tol * mass, f"the derivative with respect to the depression constant ({c.mode}) is {d}, "
              f"that of the weighted sum {want}", **witness)
    ctx.count("derivatives_by_the_depression_constant")


def boundary(ctx, c, rng):
    """Inputs on the boundaries of clipping, and zeros everywhere: the derivative for the halting probabilities is not
    unique, but all are finite, and those for updates and starting values are the weights."""
    hs = rng.choice([0.0, 0.0, 0.25, 1.0, 0.5, -1.0, 2.0], (c.T,) + c.bshape)
    if rng.random() < 0.3:
        hs = hs * 0
    zero = rng.random() < 0.5
    rand = lambda lead: {n: tr.tmap(lambda l: np.zeros(lead + l.shape) if zero else rng.integers(-8, 9, lead + l.shape) / 4.0, c.specs[n]) for n in c.names}
    ups, starts = rand((c.T,)), rand(())
    f = runner(c, c.mode)

    def total(hs, ups, starts):
        a, r, q = f(hs, ups, starts)
        s = jnp.sum(r) + jnp.sum(q)
        for x in jax.tree_util.tree_leaves(a):
            s = s + jnp.sum(x).astype(s.dtype)
        return s, q

    args = (jnp.asarray(hs, dtype=c.core), cast(c, ups, c.specs), cast(c, starts, c.specs))
    with ctx.other("weights of the process"):
        k, ps = build_for(c, starts), []
        for t in range(c.T):
            ps.append(f64(k.probabilities))
            k = step(k, args[0][t], jax.tree_util.tree_map(lambda a: a[t], args[1]), c.names)
        ps.append(f64(k.probabilities))
    with ctx.subject(f"differentiating on boundaries ({c.mode})"):
        g = jax.grad(total, argnums=(0, 1, 2), has_aux=True)
        (gh, gu, gs), q = (g if c.mode == "grad" else jax.jit(g))(*args)
        gh, gu, gs, q = (tr.tmap(np.asarray, x) for x in (gh, gu, gs, q))
    for what, g in (("the halting probabilities", gh), ("the updates", gu), ("the starting values", gs)):
        for path, x in tr.leaves(g):
            ctx.check(bool(np.all(np.isfinite(x))), f"the derivative with respect to {what}{path} is not finite ({c.mode})", got=tr.short(x),
                      h=hs.tolist(), zero=zero)
            ctx.count("derivatives_judged", int(x.size))
    if np.allclose(f64(q), ps[-1]):       # a threshold decision may differ when compiled
        for n in c.names:
            for path, x in tr.leaves(gs[n]):
                ctx.check(np.allclose(f64(x), 1.0), f"the derivative with respect to the starting value {n!r}{path} is not one", got=tr.short(x))
            for path, x in tr.leaves(gu[n]):
                want = np.stack([np.broadcast_to(lb(ps[t + 1] - ps[t], x.ndim - 1), x.shape[1:]) for t in range(c.T)])
                ctx.check(np.allclose(f64(x), want, atol=1e-4), f"the derivative with respect to the update {n!r}{path} is not its weight ({c.mode})",
                          got=tr.short(x), want=tr.short(want), h=hs.tolist())
    ctx.count("boundary_processes")
    ctx.count("processes_differentiated")


def build_for(c, starts):
    b = ControllerBuilder.new_builder(list(c.bshape), c.core, c.eps, c.dep)
    s = cast(c, starts, c.specs)
    for n in c.names:
        b = b.define_accumulator_directly(n, s[n])
    return b.build()
