"""Single-defect definitions: every kind of defect at random positions of random trees must be refused."""
from vmon.checks._prog import *  # noqa
from vmon.probe import snap
from vmon.checks.c10 import digest


def make(ctx, rng, b):
    c = config(rng, ctx.x64, b, batches=[[2], [3], [2, 3], [3, 3], [1], [4], [1, 4], [2, 2, 2], [3, 1], [1, 1], [6, 2], [], []])
    ctx.note["config"] = describe(c)
    return c


def full_tree(rng, c, minleaves=1):
    for _ in range(50):
        spec = rand_tree(rng, lambda: Leaf(rand_leaf_shape(rng, c.bshape), pick(rng, [F32, F16, BF16])))
        if len(tr.leaves(spec)) >= minleaves:
            return spec
    return spec


def bad_batch_shape(rng, leaf, bshape):
    """A shape with enough dimensions whose leading dimensions are not the batch shape, including broadcastable ones."""
    rest = list(leaf.shape[len(bshape):])
    b = list(bshape)
    cands = []
    for i in range(len(b)):
        for v in (1, b[i] + 1, 2 * b[i], max(b[i] - 1, 0), 0):
            if v != b[i]:
                cands.append(b[:i] + [v] + b[i + 1:] + rest)
    cands.append(b[::-1] + rest)
    cands.append(rest + b)
    cands.append([1] + b)
    cands = [s for s in cands if len(s) >= len(b) and s[:len(b)] != b]
    return tuple(pick(rng, cands))


def episode(ctx, c, rng, e):
    with ctx.other("building"):
        b0 = ControllerBuilder.new_builder(list(c.bshape), c.core_arg, c.eps, c.dep)
        if rng.random() < 0.7:
            b0 = b0.define_accumulator_directly("present", start_tree(rng, full_tree(rng, c)))
    for t in range(24 if not ctx.thorough else 40):
        before = digest(b0)
        kinds = ["eps", "core", "dtype", "rank", "batch", "dtype", "rank", "batch", "corrupt", "shape_batch", "shape_rank", "shape_dtype"]
        if not c.bshape:        # every shape fits an empty batch
            kinds = ["eps", "core", "dtype", "dtype", "corrupt", "shape_dtype"]
        kind = pick(rng, kinds)
        one(ctx, c, rng, b0, kind)
        ctx.check(digest(b0) == before, f"a refused definition ({kind}) changed the builder")
        ctx.count("refusals")
        ctx.count("kind: " + kind)
    # and the same builder still accepts a good one
    with ctx.subject("a valid definition after refusals"):
        d = start_tree(rng, full_tree(rng, c))
        b0.define_accumulator_directly("good", d).build()
    ctx.count("accepted_after_refusals")


def one(ctx, c, rng, b0, kind):
    nm = pick(rng, ["present", "new", "état"])
    if kind == "eps":
        eps = pick(rng, [0.0, 1.0, -1e-9, -0.5, 1.0 + 1e-9, 2.0, float("inf"), -float("inf"), float("nan"), 0, 1, -1, 100])
        ctx.raises(f"new_builder with epsilon {eps}", ValueError,
                   lambda: ControllerBuilder.new_builder(list(c.bshape), c.core_arg, epsilon=eps))
        ctx.seen(kind, eps)
    elif kind == "core":
        dt = pick(rng, [jnp.int32, jnp.int8, jnp.uint8, bool, jnp.complex64, np.dtype("int16"), "int32", int, jnp.bool_])
        ctx.raises(f"new_builder with core dtype {dt}", ValueError,
                   lambda: ControllerBuilder.new_builder(list(c.bshape), dt, pick(rng, [1e-4, 0.5])))
        ctx.seen(kind, str(dt))
    elif kind in ("dtype", "rank", "batch"):
        spec = full_tree(rng, c, int(rng.integers(1, 4)))
        t = start_tree(rng, spec)
        ls = tr.leaves(spec)
        path, leaf = ls[int(rng.integers(len(ls)))]
        if kind == "dtype":
            dt = pick(rng, [jnp.int32, jnp.bool_, jnp.uint8, jnp.complex64, jnp.int8])
            bad = jnp.ones(leaf.shape, dt)
            exc = TypeError
        elif kind == "rank":
            n = int(rng.integers(len(c.bshape)))
            bad = jnp.ones(pick(rng, [c.bshape[:n], c.bshape[len(c.bshape) - n:]]), leaf.dtype)
            exc = ValueError
        else:
            bad = jnp.ones(bad_batch_shape(rng, leaf, c.bshape), leaf.dtype)
            exc = ValueError
        t = tr.set_at(t, path, bad)
        what = f"definition with leaf {path} of {len(ls)} being {bad.dtype}{bad.shape} for batch {c.bshape}"
        ctx.raises(what, exc, lambda: b0.define_accumulator_directly(nm, t))
        ctx.seen(kind, len(ls), path, bad.shape, str(bad.dtype), c.bshape)
    else:
        spec = full_tree(rng, c, int(rng.integers(1, 4)))
        tree = tr.tmap(lambda l: [int(x) for x in l.shape], spec)
        shp = tr.leaves(spec)
        path, leaf = shp[int(rng.integers(len(shp)))]

        def put(v):
            def rec(s, p):
                if p == path:
                    return v
                if isinstance(s, dict):
                    return {k: rec(x, p + (k,)) for k, x in s.items()}
                if tr.is_nt(s):
                    return type(s)(*[rec(x, p + (i,)) for i, x in enumerate(s)])
                if isinstance(s, tr.SEQ):
                    return type(s)(rec(x, p + (i,)) for i, x in enumerate(s))
                return [int(x) for x in s.shape]
            return rec(spec, ())
        if kind == "corrupt":
            n = len(leaf.shape)
            bad = pick(rng, [5 if c.bshape else 0.5, 3.0, "shape", [float(s) for s in leaf.shape] or [1.0], list(leaf.shape)[:-1] + [2.5],
                             list(leaf.shape) + ["x"], jnp.ones(2), list(leaf.shape) + [None] if False else [1.5]])
            ctx.raises(f"tree of shapes with {bad!r} at {path}", ValueError, lambda: b0.define_accumulator_by_shape(nm, put(bad)))
        elif kind == "shape_batch":
            bad = list(bad_batch_shape(rng, leaf, c.bshape))
            ctx.raises(f"tree of shapes with {bad} at {path} for batch {c.bshape}", ValueError,
                       lambda: b0.define_accumulator_by_shape(nm, put(bad)))
        elif kind == "shape_rank":
            bad = list(c.bshape[:int(rng.integers(len(c.bshape)))])
            ctx.raises(f"tree of shapes with {bad} at {path} for batch {c.bshape}", ValueError,
                       lambda: b0.define_accumulator_by_shape(nm, put(bad)))
        else:
            bad = pick(rng, [jnp.int32, jnp.uint8, jnp.bool_, jnp.complex64])
            ctx.raises(f"definition by shape with dtype {bad}", TypeError,
                       lambda: b0.define_accumulator_by_shape(nm, tree, dtype=bad))
        ctx.seen(kind, len(shp), path, str(bad), c.bshape)
    ctx.sample(kind=kind, config=ctx.note["config"])
