from vmon.checks._prog import *  # noqa
from vmon.monitors import Accumulation
from vmon.probe import snap


def make(ctx, rng, b):
    c = config(rng, ctx.x64, b, batches=[[2], [3], [2, 3], [1], [], [4], [3, 3], [1, 4], [2, 2]], leafless=0.1)
    c.traced = b % 4 == 1 and c.core != F16
    ctx.note["config"] = describe(c)
    return c


def bad_h(rng, c):
    """Halting probabilities of another shape, most of them broadcastable to the batch."""
    b = list(c.bshape)
    cands = [b + [1], [1] + b, [], [1] * len(b), b[::-1], b[1:], b[:-1], b + [2], [n + 1 for n in b] or [2], [int(np.prod(b))]]
    cands = [x for x in cands if tuple(x) != c.bshape]
    return jnp.asarray(rng.random(tuple(pick(rng, cands))), dtype=c.core)


def bad_item(rng, c, nm):
    """An update with one leaf of another shape, or another number of leaves. Returns (item, what)."""
    good = update_tree(rng, c, nm)
    ls = tr.leaves(good)
    if not ls:
        return pick(rng, [jnp.ones(c.bshape, c.core), [jnp.ones(c.bshape, c.core)]]), "a leaf where the accumulator has none"
    path, leaf = ls[int(rng.integers(len(ls)))]
    k = int(rng.integers(4))
    if k == 0 and ls:
        kind = int(rng.integers(3))
        if kind == 0:
            return [good, jnp.zeros(leaf.shape, leaf.dtype)], "an additional leaf"
        if kind == 1:
            return tr.set_at(good, path, None), "a missing leaf"
        return (good, good), "twice the leaves"
    s = list(leaf.shape)
    cands = [s + [1], [1] + s, s[1:], s[:-1], [1] * len(s), s[::-1], [1] + s[1:] if s else [1],
             s[:-1] + [1] if s else [2], s[:-1] + [s[-1] + 1] if s else [3], []]
    cands = [x for x in cands if tuple(x) != leaf.shape]
    sh = pick(rng, cands)
    return tr.set_at(good, path, jnp.ones(tuple(sh), leaf.dtype)), f"leaf {path} of shape {sh} instead of {s}"


def episode(ctx, c, rng, e):
    if c.traced and e % 2:
        return traced(ctx, c, rng)
    with ctx.other("building"):
        with HUB.paused():
            ctrl = build(rng, c)
    HUB.start([Accumulation(ctx, c.dyadic)])
    log = []
    ctx.note["log"] = log
    try:
        pending = {}
        for t in range(30 if not ctx.thorough else 60):
            before = snap(ctrl)
            k = int(rng.integers(12))
            free = [n for n in c.names if n not in pending]
            if k <= 4 and free:
                nm = pick(rng, free)
                item = update_tree(rng, c, nm)
                log.append(f"cache {nm!r}")
                with ctx.subject("caching a first update"):
                    new = ctrl.cache_update(nm, item)
                after = snap(new)
                ctx.check(after["updates"].get(nm) is not None, "the cached update is not stored", name=nm)
                ctx.same(tr.diff_tree(tr.tmap(np.asarray, item), after["updates"][nm]), "another update was stored", name=nm)
                exp = dict(before, updates=dict(before["updates"], **{nm: after["updates"][nm]}))
                ctx.same(tr.diff_tree(exp, after), "caching changed something else", name=nm)
                if rng.random() < 0.25:      # tensors on the host, in double precision, are kept as they are
                    host = tr.tmap(lambda x: np.asarray(x, np.float64) * (1 + 2.0 ** -40) + 2.0 ** -41, item)
                    with ctx.subject("caching an update of NumPy arrays in double precision"):
                        kept = ctrl.cache_update(nm, host).make_viewer().updates[nm]
                    ctx.same(tr.diff_tree(host, tr.tmap(np.asarray, kept)), "another update than the host's was stored", name=nm)
                    ctx.count("host_updates")
                pending[nm] = item
                nxt = new
                ctx.count("valid_caches")
            elif k <= 6 and not free:
                h = halting(rng, c, pick(rng, HPATTERNS), tr.f64(before["probabilities"]))
                log.append("iterate")
                with ctx.subject("iterating with all updates cached"):
                    nxt = ctrl.iterate_act(h)
                after = snap(nxt)
                ctx.check(sorted(after["updates"]) == sorted(c.names) and
                          all(v is None for v in after["updates"].values()), "updates pending after the commit",
                          updates=tr.short(after["updates"]))
                ctx.check(bool(nxt.has_cached_updates) is False and bool(nxt.updates_ready_to_commit) is False,
                          "pending-update flags set after the commit")
                pending = {}
                ctx.count("valid_commits")
            elif k == 7 and pending:
                nm = pick(rng, sorted(pending))
                log.append(f"double cache {nm!r}")
                item = update_tree(rng, c, nm) if rng.random() < 0.5 else pending[nm]
                ctx.raises("caching twice before a commit", RuntimeError, lambda: ctrl.cache_update(nm, item), name=nm)
                nxt = refused(ctx, "double")
            elif k == 8:
                nm = pick(rng, [n for n in NAMES + ["nope", "State", c.names[0] + " "] if n not in c.names])
                log.append(f"cache unknown {nm!r}")
                ctx.raises("caching for an unknown accumulator", ValueError,
                           lambda: ctrl.cache_update(nm, update_tree(rng, c, c.names[0])), name=nm)
                nxt = refused(ctx, "unknown")
            elif k == 9 and free:
                log.append("iterate with missing updates")
                h = halting(rng, c, "uniform")
                ctx.raises(f"committing without an update for {free}", RuntimeError, lambda: ctrl.iterate_act(h),
                           pending=sorted(pending))
                nxt = refused(ctx, "missing")
            elif k == 9:
                h = bad_h(rng, c)
                log.append(f"iterate with h of shape {h.shape}")
                ctx.raises(f"halting probabilities of shape {h.shape} for batch {c.bshape}", ValueError,
                           lambda: ctrl.iterate_act(h))
                nxt = refused(ctx, "h shape")
            elif k == 10 and pending:
                log.append("reset while pending")
                ctx.raises(f"resetting with updates pending for {sorted(pending)}", RuntimeError, ctrl.reset_batches)
                nxt = refused(ctx, "reset")
            elif k == 10:
                log.append("reset")
                with ctx.subject("resetting without pending updates"):
                    nxt = ctrl.reset_batches()
            elif k == 11 and free:
                nm = pick(rng, free)
                item, what = bad_item(rng, c, nm)
                log.append(f"{nm!r} {what}")
                rest = {n: update_tree(rng, c, n) for n in free if n != nm}
                h = halting(rng, c, "uniform")

                def commit():
                    k2 = ctrl.cache_update(nm, item)
                    for n in rest:
                        k2 = k2.cache_update(n, rest[n])
                    return k2.iterate_act(h)
                ctx.raises(f"committing an update of {nm!r} with {what}", RuntimeError, commit, accumulator=tr.skeleton(
                    before["accumulators"][nm]))
                nxt = refused(ctx, "leaf")
            else:
                continue
            ctx.same(tr.diff_tree(before, snap(ctrl)), "the operation changed the controller it was called on", op=log[-1])
            ctx.seen(tuple(sorted(pending)), k, c.bshape)
            ctrl = nxt if nxt is not None else ctrl
    finally:
        HUB.enabled = False
    ctx.sample(config=ctx.note["config"], log=log)


def refused(ctx, what):
    ctx.count("refusals")
    ctx.count("refused: " + what)
    return None


def traced(ctx, c, rng):
    """The same refusals while tracing, and a valid commit afterwards."""
    with ctx.other("building"):
        ctrl = build(rng, c)
    ups = {n: update_tree(rng, c, n) for n in c.names}
    h = halting(rng, c, "uniform")
    miss = pick(rng, c.names)
    badh = bad_h(rng, c)
    item, what = bad_item(rng, c, miss)

    def partial(k, u):
        for n in c.names:
            if n != miss:
                k = k.cache_update(n, u[n])
        return k
    ctx.raises("committing with an update missing (jit)", RuntimeError,
               lambda: jax.jit(lambda k, u, h: partial(k, u).iterate_act(h))(ctrl, ups, h))
    ctx.raises("caching twice (jit)", RuntimeError,
               lambda: jax.jit(lambda k, u: k.cache_update(miss, u[miss]).cache_update(miss, u[miss]))(ctrl, ups))
    ctx.raises("caching for an unknown accumulator (jit)", ValueError,
               lambda: jax.jit(lambda k, u: k.cache_update("nope", u[miss]))(ctrl, ups))
    ctx.raises(f"halting probabilities of shape {badh.shape} (jit)", ValueError,
               lambda: jax.jit(lambda k, u, h: partial(k, u).cache_update(miss, u[miss]).iterate_act(h))(ctrl, ups, badh))
    ctx.raises(f"update with {what} (jit)", RuntimeError,
               lambda: jax.jit(lambda k, u, i, h: partial(k, u).cache_update(miss, i).iterate_act(h))(ctrl, ups, item, h))
    ctx.raises("resetting with updates pending (jit)", RuntimeError,
               lambda: jax.jit(lambda k, u: k.cache_update(miss, u[miss]).reset_batches())(ctrl, ups))
    # an update cached outside is still pending inside a compiled function
    with ctx.subject("caching a first update"):
        k2 = ctrl.cache_update(miss, ups[miss])
    ctx.raises("resetting with updates pending (jit, cached outside)", RuntimeError,
               lambda: jax.jit(lambda k: k.reset_batches())(k2))
    ctx.raises("caching twice (jit, cached outside)", RuntimeError,
               lambda: jax.jit(lambda k, u: k.cache_update(miss, u[miss]))(k2, ups))
    with ctx.subject("a valid commit after refusals"):
        out = jax.jit(lambda k, u, h: partial(k, u).iterate_act(h))(k2, ups, h)
    ctx.check(not out.has_cached_updates, "updates pending after the commit")
    for _ in range(8):
        refused(ctx, "traced")
