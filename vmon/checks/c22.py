"""execute_binary_operator, broadcast_pytree_shape and setup_left_broadcast against a recursive NumPy reference."""
import collections
from vmon.checks._prog import *  # noqa
from vmon.trees import lb
from src.jax_act.core import utils

Other = collections.namedtuple("Pair", ["first", "second"])      # another class than trees.Pair, with the same fields


def make(ctx, rng, b):
    return b


def container(rng, x):
    return x is None or isinstance(x, (dict,) + tr.SEQ)


def node(rng, depth=0):
    """A tree of small integers as placeholders for leaves."""
    r = int(rng.integers(12))
    if depth > 3 or r < (2 if depth == 0 else 5):
        return 0
    if depth and r == 5:
        return pick(rng, [None, {}, [], ()])
    kind = pick(rng, ["dict", "list", "tuple", "nt"])
    n = int(rng.integers(1, 4))
    kids = [node(rng, depth + 1) for _ in range(n)]
    if kind == "nt":
        return pick(rng, [tr.Pair, tr.Rec, tr.Shaped])(node(rng, depth + 1), node(rng, depth + 1))
    if kind == "dict":
        keys = pick(rng, [["w", "b", "m", "a", "Q", "1"], ["kernel", "bias", "Matrix", "a b", "x_1", "1"], [1000, 7, -3000, 10 ** 20, 0, 5000],
                          [("layer", 1), ("layer", 2), ("a",), (), ("layer", 1, 0), ("b", 9)]])
        rng.shuffle(keys)
        return dict(zip(keys, kids))
    return kids if kind == "list" else tuple(kids)


def shapes(rng):
    """A full shape and a left-broadcastable companion."""
    full = [int(x) for x in rng.integers(1, 4, int(rng.integers(0, 4)))]
    if rng.random() < 0.06:
        full = [int(x) for x in rng.choice([1, 1, 2], int(rng.integers(4, 10)))]
    k = int(rng.integers(0, len(full) + 1))
    low = full[:k]
    if rng.random() < 0.25:
        low = [1 if rng.random() < 0.5 else s for s in low]
    return tuple(full), tuple(low)


def value(rng, shape):
    dt = pick(rng, [np.float32, np.float32, np.int32])
    return jnp.asarray(rng.integers(-9, 10, shape), dtype=dt) if dt == np.int32 else jnp.asarray(np.asarray(rng.normal(size=shape)), dtype=dt)


def has_leaf(t):
    return len(tr.leaves(t)) > 0


def collapse(rng, t, prob):
    """Replaces random subtrees by a leaf: a prefix of t."""
    if not container(rng, t):
        return t
    if has_leaf(t) and not has_empty(t) and rng.random() < prob:
        return 0
    if isinstance(t, dict):
        return {k: collapse(rng, x, prob) for k, x in t.items()}
    if tr.is_nt(t):
        return type(t)(*[collapse(rng, x, prob) for x in t])
    if isinstance(t, tr.SEQ):
        return type(t)(collapse(rng, x, prob) for x in t)
    return t


def has_empty(t):
    if t is None or isinstance(t, (dict,) + tr.SEQ) and not t:
        return True
    if isinstance(t, dict):
        return any(has_empty(x) for x in t.values())
    if isinstance(t, tr.SEQ):
        return any(has_empty(x) for x in t)
    return False


def fresh(k):
    """An equal key, if possible another object."""
    if isinstance(k, str):
        return "".join(list(k))
    return int(str(k)) if isinstance(k, int) else tuple(fresh(x) for x in k)


def shuffled(rng, t):
    """The same tree with dict keys inserted in another order."""
    if isinstance(t, dict):
        ks = list(t)
        rng.shuffle(ks)
        return {fresh(k): shuffled(rng, t[k]) for k in ks}
    if tr.is_nt(t):
        return type(t)(*[shuffled(rng, x) for x in t])
    if isinstance(t, tr.SEQ):
        return type(t)(shuffled(rng, x) for x in t)
    return t


def under(big, path):
    for p in path:
        big = big[p]
    return big


def pair(small, big, f, path=()):
    """The tree like big of f(leaf of the prefix, leaf, path)."""
    if not (small is None or isinstance(small, (dict,) + tr.SEQ)):
        return tr.unzip_map(lambda p, x: f(small, x), big) if container(None, big) else f(small, big)
    if small is None:
        return None
    if isinstance(small, dict):
        return {k: pair(small[k], big[k], f) for k in small}
    kids = [pair(x, y, f) for x, y in zip(small, big)]
    return type(small)(*kids) if tr.is_nt(small) else type(small)(kids)


def fill(rng, small, big):
    """Leaves for a prefix and its tree, with shapes that fit from the left. Either may have the higher rank."""
    if not (small is None or isinstance(small, (dict,) + tr.SEQ)):
        if not container(None, big):
            s = list(shapes(rng))
            if rng.random() < 0.5:
                s = s[::-1]
            return value(rng, s[0]), value(rng, s[1])
        # one leaf against many: all are extensions of its shape, or prefixes of it
        base = [int(x) for x in rng.integers(1, 4, int(rng.integers(0, 3)))]
        if rng.random() < 0.5:
            return value(rng, base), tr.tmap(lambda _: value(rng, base + [int(x) for x in rng.integers(1, 3, int(rng.integers(0, 3)))]), big)
        return value(rng, base), tr.tmap(lambda _: value(rng, base[:int(rng.integers(0, len(base) + 1))]), big)
    if small is None:
        return None, None
    if isinstance(small, dict):
        kv = {k: fill(rng, small[k], big[k]) for k in small}
        return {k: kv[k][0] for k in small}, {k: kv[k][1] for k in big}
    kids = [fill(rng, x, y) for x, y in zip(small, big)]
    mk = (lambda v: type(small)(*v)) if tr.is_nt(small) else type(small)
    return mk([k[0] for k in kids]), mk([k[1] for k in kids])


OPS = [("add", lambda a, b: a + b), ("subtract", lambda a, b: a - b), ("multiply", lambda a, b: a * b),
       ("affine", lambda a, b: 3 * a - 2 * b * b), ("maximum", lambda a, b: jnp.maximum(a, b)), ("less", lambda a, b: a < b),
       ("where", lambda a, b: jnp.where(a > 0, a, b)), ("second", lambda a, b: b + 0 * a), ("divide", lambda a, b: a / (jnp.abs(b) + 1)),
       ("stack", lambda a, b: jnp.stack(jnp.broadcast_arrays(a, b))),
       ("on the host, in double precision", lambda a, b: np.asarray(a, np.float64) * 1.1 + np.asarray(b, np.float64) / 3)]
OPS.append(("nested, with others at work within", lambda a, b: nested(a, b)))
HOST = ("on the host, in double precision",)


def nested(a, b):
    """An operator whose work needs the very functions which called it."""
    one = utils.execute_binary_operator(lambda x, y: x * y, {"w": a, "b": [a, b]}, jnp.asarray(3.0), "inner: ")
    two = utils.merge_pytrees(lambda x, y: x - y, one, one)
    utils.broadcast_pytree_shape(a, [b, b])
    try:
        utils.execute_binary_operator(lambda x, y: x + y, [a], {"a": a}, "inner: ")
    except RuntimeError:
        pass
    return 2 * a + b + 0 * two["b"][0]


def aligned(a, b):
    n = max(a.ndim, b.ndim)
    return (jnp.asarray(lb(a, n)) if a.ndim else a), (jnp.asarray(lb(b, n)) if b.ndim else b)


def with_empties(rng, t):
    """The tree with some leaves replaced by nodes which have no leaf."""
    return tr.tmap(lambda x: pick(rng, [{}, [], (), None, [[], ()], {"a": {}}, tr.Pair((), [])]) if rng.random() < 0.4 else x, t)


def episode(ctx, cfg, rng, e):
    ctx.note["what"] = ""
    for t in range(8):
        skel = node(rng)
        pre = collapse(rng, skel, pick(rng, [0.0, 0.2, 0.5, 1.0]))
        if rng.random() < 0.3:      # tensors of one tree at empty nodes of the other
            pre, skel = skel, with_empties(rng, skel)
            ctx.count("tensors against empty nodes")
        small, big = fill(rng, pre, skel)
        small, big = shuffled(rng, small), shuffled(rng, big)
        ctx.note["trees"] = f"{tr.skeleton(small)} and {tr.skeleton(big)}"
        name, op = pick(rng, OPS)
        swap = bool(rng.integers(2))
        jit = t == 0 and e == 0 and name not in HOST
        a, b = (big, small) if swap else (small, big)
        f = lambda x, y: utils.execute_binary_operator(op, x, y, "in a check: ")
        with ctx.subject(f"execute_binary_operator ({name})"):
            got = (jax.jit(f) if jit else f)(a, b)
        want = pair(small, big, lambda x, y: op(*(aligned(y, x) if swap else aligned(x, y))))
        ctx.check(same_nodes(got, want), f"{name}: the result has another structure", got=got, want=want)
        for (p, x), (_, y) in zip(tr.leaves(got), tr.leaves(want)):
            ok = tr.same_bits(x, y) or jit and np.shape(x) == np.shape(y) and np.allclose(tr.f64(x), tr.f64(y), rtol=1e-6, atol=1e-6)
            ctx.check(ok, f"{name}{' (jitted)' if jit else ''}: leaf {p} is not the operator of the corresponding leaves, in argument order",
                      swapped=swap, got=tr.short(x), want=tr.short(y))
            ctx.count("leaf_pairs_judged")
        ctx.count("operations")
        ctx.count("prefix on the " + ("right" if swap else "left") if pre != skel else "like trees")
        ctx.seen(name, swap, tr.skeleton(small), tr.skeleton(big))
        # the broadcast alone
        with ctx.subject("broadcast_pytree_shape"):
            bc = utils.broadcast_pytree_shape(small, big)
        want = pair(small, big, lambda x, y: x)
        ctx.check(same_nodes(bc, want), "broadcast_pytree_shape: the result has not the structure of the target", got=bc, want=want)
        ctx.same(tr.diff_tree(bc, want), "broadcast_pytree_shape: leaves are not the corresponding ones of the source")
        ctx.count("broadcasts")
        if tr.skeleton(pre) != tr.skeleton(skel) and not same_nodes(pre, skel):
            ctx.raises("broadcast_pytree_shape to a prefix", RuntimeError, lambda: utils.broadcast_pytree_shape(big, small))
            ctx.count("broadcasts_to_a_prefix_refused")
        mismatch(ctx, rng, skel, op)
    left(ctx, rng)
    mappings(ctx, rng)
    ctx.sample(trees=ctx.note["trees"])


def same_nodes(a, b):
    """The same containers, whatever the leaves."""
    if type(a) is not type(b) and (container(None, a) or container(None, b)):
        return False
    if isinstance(a, dict):
        return sorted(a) == sorted(b) and all(same_nodes(a[k], b[k]) for k in a)
    if isinstance(a, tr.SEQ):
        return len(a) == len(b) and all(same_nodes(x, y) for x, y in zip(a, b))
    return True


def nodes(t, path=()):
    """Paths of non-empty containers."""
    out = []
    if isinstance(t, dict) and t:
        out.append(path)
        for k in sorted(t):
            out += nodes(t[k], path + (k,))
    elif isinstance(t, tr.SEQ) and t:
        out.append(path)
        for i, x in enumerate(t):
            out += nodes(x, path + (i,))
    return out


def replace_node(t, path, new):
    if not path:
        return new
    h, rest = path[0], path[1:]
    if isinstance(t, dict):
        return {k: (replace_node(x, rest, new) if k == h else x) for k, x in t.items()}
    kids = [replace_node(x, rest, new) if i == h else x for i, x in enumerate(t)]
    return type(t)(*kids) if tr.is_nt(t) else type(t)(kids)


def variants(rng, n):
    """Containers which do not correspond to the non-empty container n."""
    if isinstance(n, dict):
        ks = sorted(n)
        last, first, more = ("zz", "+", "zzz") if isinstance(ks[0], str) else (10 ** 21, -10 ** 6, 10 ** 22) if isinstance(ks[0], int) else (("z",), ("!",), ("zz",))
        out = [("key renamed", {(last if k == ks[-1] else k): n[k] for k in ks}), ("first key renamed", {(first if k == ks[0] else k): n[k] for k in ks}),
               ("key added", {**n, more: 0}), ("list for dict", [n[k] for k in ks]), ("tuple for dict", tuple(n[k] for k in ks))]
        if len(ks) > 1:
            out.append(("key removed", {k: n[k] for k in ks[1:]}))
        return out
    if tr.is_nt(n):
        return [("tuple for named tuple", tuple(n)), ("list for named tuple", list(n)), ("other named tuple", Other(*n))]
    if isinstance(n, list):
        out = [("tuple for list", tuple(n)), ("item added", n + [0]), ("dict for list", {str(i): x for i, x in enumerate(n)})]
    else:
        out = [("list for tuple", list(n)), ("item added", n + (0,)), ("dict for tuple", {str(i): x for i, x in enumerate(n)})]
    if len(n) > 1:
        out.append(("item removed", n[:-1]))
    return out


def mismatch(ctx, rng, skel, op):
    ps = nodes(skel)
    if not ps:
        return
    path = pick(rng, ps)
    what, new = pick(rng, variants(rng, under(skel, path)))
    one = tr.tmap(lambda _: jnp.ones((2,)), skel)
    two = tr.tmap(lambda _: jnp.ones((2,)), replace_node(skel, path, new))
    if rng.random() < 0.5:
        one, two = two, one
    ctx.raises(f"execute_binary_operator of trees differing at {path}: {what}", RuntimeError,
               lambda: utils.execute_binary_operator(lambda a, b: a + b, one, two, "in a check: "), one=tr.skeleton(one), two=tr.skeleton(two))
    ctx.raises(f"broadcast_pytree_shape of trees differing at {path}: {what}", RuntimeError,
               lambda: utils.broadcast_pytree_shape(one, two), one=tr.skeleton(one), two=tr.skeleton(two))
    ctx.count("mismatches_refused")
    ctx.seen("mismatch", what, len(path), tr.skeleton(one))


@jax.tree_util.register_pytree_node_class
class Bag(dict):
    """A dictionary of the user with an order and static data of its own."""
    def tree_flatten(self):
        ks = sorted(self, reverse=True)
        return [self[k] for k in ks], tuple(ks)

    @classmethod
    def tree_unflatten(cls, keys, kids):
        return cls(zip(keys, kids))


try:
    from flax.core import FrozenDict
except ImportError:
    FrozenDict = None


def mapping(rng, depth=0):
    """A tree of all kinds of mappings; the leaves are numbers of their own."""
    if depth > 2 or depth and rng.random() < 0.4:
        return value(rng, (2, 3)) if rng.random() < 0.7 else value(rng, (2,))
    kids = [(k, mapping(rng, depth + 1)) for k in rng.permutation(["b", "a", "w", "Z", "k1"])[:int(rng.integers(1, 4))].tolist()]
    kind = pick(rng, ["ordered", "ordered", "default", "bag", "frozen", "dict"])
    if kind == "ordered":
        return collections.OrderedDict(kids)
    if kind == "default":
        return collections.defaultdict(list, kids)
    return Bag(kids) if kind == "bag" else dict(kids) if kind == "dict" or FrozenDict is None else FrozenDict(kids)


def plainly(t):
    """The kinds of nodes and the order of keys."""
    if hasattr(t, "items"):
        return type(t).__name__, list(t) if type(t) is collections.OrderedDict else sorted(t), [plainly(t[k]) for k in (t if type(t) is collections.OrderedDict else sorted(t))]
    return "leaf"


def mappings(ctx, rng):
    """Mappings which are not plain dictionaries are nodes of their own kinds."""
    tu = jax.tree_util
    one = mapping(rng)
    lv, td = tu.tree_flatten(one)
    two = tu.tree_unflatten(td, [value(rng, x.shape) for x in lv])
    ctx.note["trees"] = str(td)
    name, op = pick(rng, [o for o in OPS if o[0] not in HOST])
    with ctx.subject(f"execute_binary_operator ({name}) of mappings"):
        got = utils.execute_binary_operator(op, one, two, "in a check: ")
        scalar = utils.execute_binary_operator(op, jnp.asarray(2.0), two, "in a check: ")
        merged = utils.merge_pytrees(lambda a, b: a - 2 * b, one, two)
        wide = utils.broadcast_pytree_shape(jnp.asarray(3.0), one)
        same = [bool(utils.are_pytrees_equal(one, tu.tree_unflatten(td, [jnp.asarray(np.array(x)) for x in lv]))), bool(utils.are_pytree_structure_equal(one, two))]
    ctx.check(same == [True, True], f"equal trees of mappings are said to differ: {same}")
    for what, t in (("of both", got), ("of a number and a tree", scalar), ("merged", merged), ("broadcast", wide)):
        ctx.check(tu.tree_structure(t) == td and plainly(t) == plainly(one), f"{name} {what}: mappings became others", got=str(plainly(t)), want=str(plainly(one)))
    l2 = tu.tree_leaves(two)
    for a, b, x, y, z in zip(lv, l2, tu.tree_leaves(got), tu.tree_leaves(scalar), tu.tree_leaves(merged)):
        ctx.check(tr.same_bits(x, op(a, b)) and tr.same_bits(y, op(jnp.asarray(2.0), b)) and tr.same_bits(z, a - 2 * b), f"{name}: leaves of mappings are mispaired")
    # another kind of mapping with the same keys is another node
    other = dict(one) if type(one) is not dict else collections.OrderedDict(one)
    x, y = (one, other) if rng.random() < 0.5 else (other, one)
    ctx.raises(f"execute_binary_operator of {type(x).__name__} and {type(y).__name__}", RuntimeError, lambda: utils.execute_binary_operator(op, x, y, "in a check: "))
    with ctx.subject("comparing other mappings"):
        eq = bool(utils.are_pytrees_equal(x, y))
    ctx.check(not eq, f"trees of {type(x).__name__} and {type(y).__name__} are said to be equal")
    ctx.count("mappings")
    ctx.seen("mappings", str(td), name)


def left(ctx, rng):
    full = [int(x) for x in rng.integers(1, 4, int(rng.integers(1, 5)))]
    if rng.random() < 0.3:
        full = [int(x) for x in rng.choice([1, 1, 2, 3], int(rng.integers(5, 11)))]
    k = int(rng.integers(0, len(full) + 1))
    t, target = value(rng, full[:k]), value(rng, full)
    with ctx.subject("setup_left_broadcast"):
        got = utils.setup_left_broadcast(t, target)
        both = np.asarray(jnp.broadcast_to(got, target.shape))
    ctx.check(both.tobytes() == np.broadcast_to(lb(t, target.ndim), target.shape).tobytes(), "setup_left_broadcast does not align from the left",
              tensor=t.shape, target=target.shape, got=got.shape)
    ctx.count("left_broadcasts")
