"""Relational: two runs that agree on what may matter must agree on the result."""
from vmon.checks._prog import *  # noqa
from vmon.probe import HUB, snap
from vmon.checks.c09 import Margin, decisive

RELATIONS = ["perturb", "permute", "slice", "reshape", "accumulators", "perturb", "order", "split"]


def make(ctx, rng, b):
    rel = RELATIONS[(b + b // 8) % 8]
    bs = dict(permute=[[3], [4], [2, 3], [3, 3], [5], [3, 1], [2, 2, 2], [2, 1, 2, 2]], slice=[[3], [2, 3], [4], [2, 2], [3, 3], [2, 2, 2], [2, 2, 1, 2]],
              reshape=[[6], [4], [2, 3], [8], [6, 1], [1, 4], [2, 2, 2], [3, 2], [2, 1, 2, 2], [1, 2, 1, 3, 1]],
              perturb=[[2], [3], [2, 3], [3, 3], [5], [2, 2], [4], [2, 1, 2, 2]]).get(rel)
    c = config(rng, ctx.x64, b, batches=bs, naccs=int(rng.integers(2, 5)) if rel in ("accumulators", "order") else None)
    c.rel = rel
    c.mode = pick(rng, ["eager", "eager", "jit", "scan"])
    if c.core == F16:
        c.mode = "eager"
    c.T = int(rng.integers(2, 8))
    ctx.note["config"] = describe(c) + f" relation={rel} mode={c.mode} T={c.T}"
    return c


def build_from(c, batch, starts, names=None):
    b = ControllerBuilder.new_builder(list(batch), c.core_arg, c.eps, c.dep)
    for nm in names or c.names:
        b = b.define_accumulator_directly(nm, starts[nm])
    return b.build()


def run(c, ctrl, prog, key):
    c2 = Cfg()
    if not hasattr(c, "_runs"):
        c._runs = {}
    c2 = c._runs.setdefault(key, c2)      # compiled programs are kept per kind of run
    return snap(MODES[c.mode](c2, ctrl, prog))


def hostile_like(rng, x):
    """Other contents for the same tensor, partly not finite."""
    x = np.asarray(x)
    v = rng.normal(size=x.shape) * 3
    m = rng.random(x.shape)
    if x.dtype.kind == "i":
        return jnp.asarray(rng.integers(-9, 9, x.shape), dtype=x.dtype)
    v = np.where(m < 0.2, np.nan, np.where(m < 0.3, np.inf, v))
    return jnp.asarray(v, dtype=x.dtype)


def mix(rng, keep, x, f=hostile_like):
    """x where keep (a batch shaped mask) holds, other contents elsewhere."""
    m = np.broadcast_to(tr.lb(keep, x.ndim), x.shape)
    return jnp.where(jnp.asarray(m), x, f(rng, x))


def other_h(rng, x):
    x = np.asarray(x)
    return jnp.asarray(np.asarray(rng.choice([0.0, 0.1, 0.5, 1.0, 2.0, -1.0, np.inf, np.nan], x.shape)), dtype=x.dtype)


def sizes(c, prog):
    """Leaf by leaf, the largest finite magnitude that goes into an accumulator."""
    def size(*xs):
        m = 0.0
        for x in xs:
            v = np.abs(tr.f64(x))
            v = v[np.isfinite(v)]
            m = max(m, float(v.max()) if v.size else 0.0)
        return m
    ups = {n: [tr.leaves(s["ups"][n]) for s in prog] for n in c.names}
    return {n: jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(c.starts[n]),
                                            [size(x, *(u[i][1] for u in ups[n])) for i, (_, x) in enumerate(tr.leaves(c.starts[n]))])
            for n in c.names}


def compare(ctx, c, a, b, sel_a, sel_b, what, names=None):
    """Fields of snapshot a, picked by sel_a, against those of b picked by sel_b."""
    mags = {p: m for p, m in tr.leaves(a["sizes"])}
    for key in ("probabilities", "residuals", "iterations", "accumulators"):
        ta, tb = a[key], b[key]
        if key == "accumulators" and names:
            ta, tb = {n: ta[n] for n in names}, {n: tb[n] for n in names}
        la, lb_ = tr.leaves(ta), tr.leaves(tb)
        ctx.check([p for p, _ in la] == [p for p, _ in lb_], f"{what}: other tree of {key}")
        for (p, x), (_, y) in zip(la, lb_):
            u, v = sel_a(x), sel_b(y)
            tol, slack = 4 * tr.feps(x.dtype), 0.0
            if c.mode != "eager":       # other compiled programs may round differently, and sums may cancel
                e = max(tr.feps(x.dtype), 0 if c.dyadic else tr.feps(c.core))
                slack = 4 * e * (c.T + 1) * (mags[p] if key == "accumulators" else 1.0)
            with np.errstate(all="ignore"):
                ok = u.shape == v.shape and u.dtype == v.dtype and np.allclose(tr.f64(u), tr.f64(v), rtol=tol, atol=slack, equal_nan=True)
            ctx.check(bool(ok), f"{what}: {key}{p} differs", first=tr.short(u), second=tr.short(v))
            ctx.count("tensors_compared")
            ctx.count("elements_compared", int(u.size))


def episode(ctx, c, rng, e):
    with ctx.other("building"):
        ctrl = build(rng, c)
    resets = 0.2 if c.mode != "while" else 0
    prog = program(rng, c, c.T, resets=resets, hostile=0.2 if e % 2 else 0)
    ctx.count("pairs: " + c.rel)
    ctx.seen(c.rel, c.mode, c.batch, str(c.core), tuple(s["reset"] for s in prog), tr.short(prog[0]["h"]))
    if c.mode != "eager":
        m = Margin(ctx)
        HUB.start([m])
        try:
            with ctx.other("eager run"):
                run_eager(c, ctrl, prog)
        finally:
            HUB.enabled = False
        if not decisive(ctx, c, m):
            return
    with ctx.other("running"):
        a = run(c, ctrl, prog, "first")
        a["sizes"] = sizes(c, prog)
        globals()["rel_" + c.rel](ctx, c, rng, a, prog)
    ctx.count("pairs_compared")
    ctx.sample(config=ctx.note["config"], h=[tr.short(s["h"]) for s in prog[:4]])


def derive(prog, fh, fu):
    return [dict(s, h=fh(s["h"]), ups={n: jax.tree_util.tree_map(fu, s["ups"][n]) for n in s["ups"]}) for s in prog]


def rel_perturb(ctx, c, rng, a, prog):
    keep = rng.random(c.bshape) < 0.5
    starts = {n: jax.tree_util.tree_map(lambda x: mix(rng, keep, x), c.starts[n]) for n in c.names}
    prog2 = derive(prog, lambda h: mix(rng, keep, h, other_h), lambda u: mix(rng, keep, u))
    for s, q in zip(prog, prog2):
        q["reset"] = s["reset"]
    b = run(c, build_from(c, c.bshape, starts), prog2, "first" if c.mode != "jit" else "first")
    sel = lambda x: x[np.broadcast_to(tr.lb(keep, x.ndim), x.shape)]
    compare(ctx, c, a, b, sel, sel, "elements depend on the contents of other elements")


def rel_permute(ctx, c, rng, a, prog):
    ax = int(rng.integers(len(c.bshape)))
    perm = rng.permutation(c.bshape[ax])
    g = lambda x: jnp.take(x, jnp.asarray(perm), axis=ax)
    starts = {n: jax.tree_util.tree_map(g, c.starts[n]) for n in c.names}
    b = run(c, build_from(c, c.bshape, starts), derive(prog, g, g), "first")
    compare(ctx, c, a, b, lambda x: np.take(x, perm, axis=ax), lambda x: x, f"permuting batch axis {ax} by {perm} changes results")


def rel_slice(ctx, c, rng, a, prog):
    idx = tuple(int(rng.integers(n)) for n in c.bshape)
    ones = bool(rng.random() < 0.5)
    nb = (1,) * len(c.bshape) if ones else ()
    g = lambda x: jnp.reshape(x[idx], nb + x.shape[len(c.bshape):])
    starts = {n: jax.tree_util.tree_map(g, c.starts[n]) for n in c.names}
    b = run(c, build_from(c, nb, starts), derive(prog, g, g), ("slice", ones))
    compare(ctx, c, a, b, lambda x: np.reshape(x[idx], nb + x.shape[len(c.bshape):]), lambda x: x,
            f"element {idx} alone gives other results than in the batch")


def rel_reshape(ctx, c, rng, a, prog):
    n = int(np.prod(c.bshape))
    cands = [s for s in ([n], [n, 1], [1, n], [2, n // 2], [n // 2, 2], [n // 2, 1, 2], [n, 1, 1])
             if int(np.prod(s)) == n and tuple(s) != c.bshape]
    nb = tuple(pick(rng, cands))
    k = len(c.bshape)
    g = lambda x: jnp.reshape(x, nb + x.shape[k:])
    starts = {m: jax.tree_util.tree_map(g, c.starts[m]) for m in c.names}
    b = run(c, build_from(c, nb, starts), derive(prog, g, g), ("reshape", nb))
    compare(ctx, c, a, b, lambda x: np.reshape(x, nb + x.shape[k:]), lambda x: x, f"batch shape {nb} gives other results")


def rel_accumulators(ctx, c, rng, a, prog):
    """Remove, add, rename and change the contents of other accumulators."""
    keep = [n for n in c.names if rng.random() < 0.5] or c.names[:1]
    extra = [n for n in NAMES if n not in c.names][:int(rng.integers(0, 3))]
    starts = {n: c.starts[n] for n in keep}
    prog2 = [dict(s, ups={n: s["ups"][n] for n in keep}) for s in prog]
    for n in extra:
        starts[n] = jax.tree_util.tree_map(lambda x: hostile_like(rng, x), c.starts[c.names[0]])
        for s in prog2:
            s["ups"][n] = jax.tree_util.tree_map(lambda x: hostile_like(rng, x), s["ups"].get(c.names[0], c.starts[c.names[0]]))
    names = keep + extra
    rng.shuffle(names)
    for s in prog2:
        s["order"] = list(names)
    b = run(c, build_from(c, c.bshape, starts, names), prog2, ("accs", rng.random()))
    compare(ctx, c, a, b, lambda x: x, lambda x: x, f"results depend on the other accumulators (kept {keep}, added {extra})", keep)
    # renaming
    new = dict(zip(keep, [n + "_" + str(i) for i, n in enumerate(reversed(keep))]))
    b = run(c, build_from(c, c.bshape, {new[n]: c.starts[n] for n in keep}, [new[n] for n in keep]),
            [dict(s, ups={new[n]: s["ups"][n] for n in keep}, order=[new[n] for n in keep]) for s in prog], ("ren", rng.random()))
    b["accumulators"] = {n: b["accumulators"][new[n]] for n in keep}
    compare(ctx, c, a, b, lambda x: x, lambda x: x, "results depend on the names of the accumulators", keep)


def rel_order(ctx, c, rng, a, prog):
    prog2 = []
    for s in prog:
        o = list(s["order"])
        rng.shuffle(o)
        prog2.append(dict(s, order=o))
    names = list(c.names)
    rng.shuffle(names)
    c3 = Cfg()
    c3.__dict__.update(c.__dict__)
    b = run(c3, build_from(c, c.bshape, c.starts, names), prog2, ("order", rng.random()))
    compare(ctx, c, a, b, lambda x: x, lambda x: x, "results depend on the order of definition or caching", c.names)


def rel_split(ctx, c, rng, a, prog):
    """Every leaf as an accumulator of its own."""
    def split(d):
        return {f"{n}|{i}": l for n in c.names for i, (_, l) in enumerate(tr.leaves(d[n]))}
    starts = split(c.starts)
    names = list(starts)
    rng.shuffle(names)
    prog2 = [dict(s, ups=split(s["ups"]), order=list(names)) for s in prog]
    b = run(c, build_from(c, c.bshape, starts, names), prog2, ("split", rng.random()))
    a2 = dict(a, accumulators=split(a["accumulators"]), sizes=split(a["sizes"]))
    compare(ctx, c, a2, b, lambda x: x, lambda x: x, "a leaf behaves differently in a tree than on its own", names)
