"""merge_pytrees, the equality tests and can_right_broadcast against references, on single differences."""
from vmon.checks._prog import *  # noqa
from vmon.checks.c22 import node, nodes, under, replace_node, variants, shuffled, same_nodes
from src.jax_act.core import utils


def make(ctx, rng, b):
    return b


def array(rng):
    shape = tuple(int(x) for x in rng.integers(0 if rng.random() < 0.1 else 1, 4, int(rng.integers(0, 4))))
    dt = pick(rng, ["float32", "float32", "int32", "bool", "bfloat16"])
    v = rng.integers(0, 2, shape) if dt == "bool" else rng.integers(-9, 10, shape) if dt == "int32" else rng.normal(size=shape) + 3 * np.sign(rng.normal())
    return np.asarray(v), dt


def leaf(rng):
    r = int(rng.integers(10))
    if r < 6:
        v, dt = array(rng)
        return jnp.asarray(v, dtype=dt)
    if r == 6:
        return np.asarray(rng.normal(size=(2, 2)), dtype=np.float32)
    return pick(rng, [1, 0, 2.5, "text", "", True, (lambda: 7)().__class__, 10 ** 12, -1.0])


def tree(rng):
    return tr.tmap(lambda _: leaf(rng), node(rng))


def copy_leaf(x):
    if isinstance(x, jnp.ndarray):
        return jnp.asarray(np.array(x))
    return np.array(x) if isinstance(x, np.ndarray) else x


def change(rng, x):
    """(description, new leaf, equal exactly, equal within tolerance)"""
    if not hasattr(x, "shape"):
        if isinstance(x, str):
            return pick(rng, [("other text", x + "!", False, False), ("array for text", jnp.ones(2), False, False)])
        if isinstance(x, bool):
            return pick(rng, [("other flag", not x, False, False), ("number for a flag", int(x), False, False)])
        if isinstance(x, (int, float)):
            if x in (0, 1) and isinstance(x, int) and rng.random() < 0.5:
                return "flag for a number", bool(x), False, False
            return pick(rng, [("other number", x + 1, False, False), ("another type of number", float(x) if isinstance(x, int) else str(x), False, False),
                              ("array for a number", jnp.asarray(x, dtype=jnp.float32), False, False)])
        return "other object", "something", False, False
    a = np.array(x).astype(np.float64)
    mk = (lambda v: jnp.asarray(v, dtype=x.dtype)) if isinstance(x, jnp.ndarray) else (lambda v: np.asarray(v, dtype=x.dtype))
    out = [("numpy for jax, or jax for numpy", np.asarray(x) if isinstance(x, jnp.ndarray) else jnp.asarray(x), False, False),
           ("a number for the array", 1.0, False, False), ("one more axis", mk(a[None]), False, False), ("one more trailing axis", mk(a[..., None]), False, False)]
    if a.ndim and a.size and a.shape[0] > 1:
        out += [("a slice", mk(a[:1]), False, False), ("all rows the same, one row given", mk(a[:1]), False, False)]
    if a.size:
        i = int(rng.integers(a.size))
        b = a.copy().reshape(-1)
        kind = np.dtype(x.dtype).kind if str(x.dtype) != "bfloat16" else "f"
        if kind == "b":
            b[i] = 1 - b[i]
        else:
            b[i] += pick(rng, [1.0, -1.0, 100.0])
        out += [("one element differs", mk(b.reshape(a.shape)), False, False)] * 4
        if str(x.dtype) == "float32":
            b = np.array(x).reshape(-1)
            b[i] = np.nextafter(b[i], np.float32(100), dtype=np.float32)
            out += [("one element differs by one ulp", mk(b.reshape(a.shape)), False, True)] * 3
            b = np.array(x).reshape(-1)
            b[i] *= np.float32(1.001)
            if abs(float(np.array(x).reshape(-1)[i])) > 1e-3:
                out += [("one element differs by a thousandth", mk(b.reshape(a.shape)), False, False)] * 2
            b = np.array(x).reshape(-1)
            b[i] = np.inf
            out += [("one element is infinite", mk(b.reshape(a.shape)), False, False)]
    return pick(rng, out)


def uniform_rows(rng, t):
    """Sometimes rows are all the same, so that a broadcasting comparison would be fooled."""
    return tr.tmap(lambda x: jnp.broadcast_to(x[:1], x.shape) if isinstance(x, jnp.ndarray) and x.ndim and x.size and rng.random() < 0.3 else x, t)


def tree_equal(ctx, one, two, exact, close, what):
    for name, use, want in (("exactly", False, exact), ("within tolerance", True, close)):
        with ctx.subject(f"are_pytrees_equal ({name})"):
            got = utils.are_pytrees_equal(one, two, use)
            got = bool(got)
        ctx.check(got == want, f"are_pytrees_equal says {got} ({name}) for trees with: {what}", one=tr.short(one), two=tr.short(two))
    if rng_default(what):
        ctx.check(bool(utils.are_pytrees_equal(one, two)) == close, f"are_pytrees_equal by default is wrong for trees with: {what}")
    ctx.count("equality_verdicts", 2)


def rng_default(what):
    return len(what) % 3 == 0


def episode(ctx, cfg, rng, e):
    for t in range(6):
        one = uniform_rows(rng, tree(rng))
        ctx.note["tree"] = tr.short(one)
        two = shuffled(rng, tr.tmap(copy_leaf, one))
        tree_equal(ctx, one, two, True, True, "no difference")
        ls = tr.leaves(one)
        if ls:
            for _ in range(3):
                path, x = ls[int(rng.integers(len(ls)))]
                what, y, exact, close = change(rng, x)
                if what == "one element differs by one ulp" and not np.all(np.asarray(x) != np.asarray(y)) and np.array_equal(np.asarray(x), np.asarray(y)):
                    continue
                other = shuffled(rng, tr.set_at(two, path, y))
                a, b = (one, other) if rng.random() < 0.5 else (other, one)
                tree_equal(ctx, a, b, exact, close, f"{what} at leaf {path} of {len(ls)}")
                same_struct = not container_leaf(y)
                with ctx.subject("are_pytree_structure_equal"):
                    s = bool(utils.are_pytree_structure_equal(a, b))
                ctx.check(s == same_struct, f"are_pytree_structure_equal says {s} when only a leaf differs ({what})")
                ctx.count("structure_verdicts")
                ctx.seen("change", what, len(ls), path)
        fs = [(p, x) for p, x in ls if getattr(x, "size", 0) and str(x.dtype) in ("float32", "bfloat16")]
        if fs and rng.random() < 0.5:      # what is not a number equals nothing, itself included
            path, x = pick(rng, fs)
            v = np.array(x).astype(np.float32).reshape(-1)
            v[int(rng.integers(v.size))] = np.nan
            if rng.random() < 0.3:
                v[:] = np.nan
            mk = (lambda: jnp.asarray(v.reshape(x.shape), dtype=x.dtype)) if isinstance(x, jnp.ndarray) else (lambda: v.reshape(x.shape).copy())
            tree_equal(ctx, tr.set_at(one, path, mk()), tr.set_at(two, path, mk()), False, False, f"NaN at the same place of leaf {path} of both")
            ctx.count("trees_with_nan")
        if fs and rng.random() < 0.4:      # infinities of one sign are equal, zeros of both signs too
            path, x = pick(rng, fs)
            v = np.array(x).astype(np.float32).reshape(-1)
            i = int(rng.integers(v.size))
            v[i] = pick(rng, [np.inf, -np.inf, 0.0, 3e38, 1e-40])
            w = v.copy()
            w[i] = -v[i]
            mk = lambda v: jnp.asarray(v.reshape(x.shape), dtype=x.dtype) if isinstance(x, jnp.ndarray) else v.reshape(x.shape).copy()
            tree_equal(ctx, tr.set_at(one, path, mk(v)), tr.set_at(two, path, mk(v)), True, True, f"{v[i]} at the same place of leaf {path} of both")
            if abs(v[i]) > 1 or v[i] == 0:
                tree_equal(ctx, tr.set_at(one, path, mk(v)), tr.set_at(two, path, mk(w)), v[i] == 0, v[i] == 0, f"{v[i]} and {w[i]} at one place of leaf {path}")
            ctx.count("trees_with_infinities")
        merge(ctx, rng, one)
        ps = nodes(one)
        if ps:
            for _ in range(2):
                path = pick(rng, ps)
                what, new = pick(rng, variants(rng, under(one, path)))
                other = replace_node(one, path, new)
                a, b = (one, other) if rng.random() < 0.5 else (other, one)
                tree_equal(ctx, a, b, False, False, f"{what} at {path}")
                with ctx.subject("are_pytree_structure_equal"):
                    s = bool(utils.are_pytree_structure_equal(a, b))
                ctx.check(not s, f"are_pytree_structure_equal says they are equal: {what} at {path}", one=tr.short(a), two=tr.short(b))
                ctx.count("structure_verdicts")
                ctx.seen("structure", what, len(path), len(ps))
        blank = tr.tmap(lambda _: pick(rng, [0, "x", jnp.ones(3), 2.0]), one)
        with ctx.subject("are_pytree_structure_equal"):
            s = bool(utils.are_pytree_structure_equal(shuffled(rng, blank), one))
        ctx.check(s, "are_pytree_structure_equal does not ignore the leaves")
        ctx.count("structure_verdicts")
        for _ in range(6):
            shapes(ctx, rng)
    ctx.sample(tree=ctx.note["tree"])


def container_leaf(y):
    return y is None or isinstance(y, (dict,) + tr.SEQ)


def merge(ctx, rng, one):
    """The function sees every corresponding pair once, and its results come back in place."""
    paths = [p for p, _ in tr.leaves(one)]
    first = tr.unzip_map(lambda p, x: ("first", p).__repr__(), one)
    second = shuffled(rng, tr.unzip_map(lambda p, x: ("second", p).__repr__(), one))
    seen = []

    def f(a, b):
        seen.append((a, b))
        return f"{a}|{b}"
    with ctx.subject("merge_pytrees"):
        got = utils.merge_pytrees(f, first, second)
    want = tr.unzip_map(lambda p, x: f"{('first', p)!r}|{('second', p)!r}", one)
    ctx.check(same_nodes(got, want), "merge_pytrees gives another structure", got=got, want=want)
    ctx.check(got == want, "merge_pytrees does not merge corresponding leaves in order", got=got, want=want)
    ctx.check(sorted(seen) == sorted((repr(("first", p)), repr(("second", p))) for p in paths), "merge_pytrees calls the function on other pairs")
    ctx.count("merges")
    v = tr.unzip_map(lambda p, x: jnp.asarray(rng.normal(size=(2,)), dtype=jnp.float32), one)
    u = tr.unzip_map(lambda p, x: jnp.asarray(rng.normal(size=(2,)), dtype=jnp.float32), one)
    with ctx.subject("merge_pytrees"):
        got = utils.merge_pytrees(lambda a, b: a - 2 * b, v, u)
    want = tr.tmap2(lambda a, b: a - 2 * b, v, u)
    ctx.same(tr.diff_tree(got, want), "merge_pytrees of arrays")
    ctx.count("merges")


def shapes(ctx, rng):
    a = tuple(int(x) for x in rng.choice([0, 1, 1, 2, 3], int(rng.integers(0, 5))))
    if rng.random() < 0.6:
        b = [1 if rng.random() < 0.3 else s for s in a[int(rng.integers(0, len(a) + 1)):]]
        b = [int(x) for x in rng.choice([1, 2], int(rng.integers(0, 2)))] + b if rng.random() < 0.4 else b
        if b and rng.random() < 0.3:
            b[int(rng.integers(len(b)))] = int(pick(rng, [0, 1, 2, 3, 5]))
    else:
        b = rng.choice([0, 1, 1, 2, 3], int(rng.integers(0, 5)))
    b = tuple(int(x) for x in b)
    try:
        np.broadcast_shapes(a, b)
        want = True
    except ValueError:
        want = False
    with ctx.subject("can_right_broadcast"):
        got = bool(utils.can_right_broadcast(np.zeros(a), np.zeros(b)))
    ctx.check(got == want, f"can_right_broadcast says {got} for {a} and {b}")
    ctx.count("broadcast_verdicts")
    ctx.count("broadcastable" if want else "not broadcastable")
    ctx.seen("shapes", a, b)
