"""Numpy-side handling of values: the monitors must not rely on the code under test, nor on jax pytrees
of the classes under test. Trees here are made of dict, list, tuple, namedtuple, Rec and None."""
import collections
import dataclasses
import jax
import numpy as np

TOL_STRUCT = object()


@jax.tree_util.register_pytree_node_class
@dataclasses.dataclass(eq=False)
class Rec:
    """A dataclass registered as a node, as flax.struct makes them."""
    alpha: object
    beta: object
    _fields = ("alpha", "beta")

    def __iter__(self):
        return iter((self.alpha, self.beta))

    def __len__(self):
        return 2

    def __eq__(self, other):
        return type(other) is Rec and self.alpha == other.alpha and self.beta == other.beta

    def __getitem__(self, i):
        return (self.alpha, self.beta)[i]

    def tree_flatten(self):
        return (self.alpha, self.beta), ("static",)

    @classmethod
    def tree_unflatten(cls, aux, kids):
        if aux != ("static",):
            raise ValueError("static data lost")
        return cls(*kids)


SEQ = (list, tuple, Rec)


def is_nt(x):
    return isinstance(x, Rec) or isinstance(x, tuple) and hasattr(x, "_fields")


def leaves(t, path=()):
    """[(path, leaf)] in sorted-key order; None is an empty node."""
    if t is None:
        return []
    if isinstance(t, dict):
        out = []
        for k in sorted(t):
            out += leaves(t[k], path + (k,))
        return out
    if isinstance(t, SEQ):
        out = []
        for i, v in enumerate(t):
            out += leaves(v, path + (i,))
        return out
    return [(path, t)]


def tmap(f, t):
    if t is None:
        return None
    if isinstance(t, dict):
        return {k: tmap(f, t[k]) for k in t}
    if is_nt(t):
        return type(t)(*[tmap(f, v) for v in t])
    if isinstance(t, SEQ):
        return type(t)(tmap(f, v) for v in t)
    return f(t)


def tmap2(f, t, u):
    if t is None:
        return None
    if isinstance(t, dict):
        return {k: tmap2(f, t[k], u[k]) for k in t}
    if is_nt(t):
        return type(t)(*[tmap2(f, v, w) for v, w in zip(t, u)])
    if isinstance(t, SEQ):
        return type(t)(tmap2(f, v, w) for v, w in zip(t, u))
    return f(t, u)


def unzip_map(f, t):
    """Map with path, deterministic order."""
    def rec(t, path):
        if t is None:
            return None
        if isinstance(t, dict):
            return {k: rec(t[k], path + (k,)) for k in t}
        if is_nt(t):
            return type(t)(*[rec(v, path + (i,)) for i, v in enumerate(t)])
        if isinstance(t, SEQ):
            return type(t)(rec(v, path + (i,)) for i, v in enumerate(t))
        return f(path, t)
    return rec(t, ())


def set_at(t, path, value):
    """A copy of t with the leaf at path replaced."""
    return unzip_map(lambda p, x: value if p == path else x, t)


def skeleton(t):
    """Structure and leaf shape/dtype as a hashable value."""
    if t is None:
        return "None"
    if isinstance(t, dict):
        return ("dict",) + tuple((k, skeleton(t[k])) for k in sorted(t))
    if is_nt(t):
        return (type(t).__name__,) + tuple(skeleton(v) for v in t)
    if isinstance(t, SEQ):
        return (type(t).__name__,) + tuple(skeleton(v) for v in t)
    if hasattr(t, "dtype"):
        return ("T", tuple(t.shape), str(t.dtype))
    return ("S", type(t).__name__)


def to_np(x):
    return np.asarray(x)


def bits(x):
    """A value identifying an array or number bit for bit (with shape and dtype)."""
    if x is None:
        return None
    if hasattr(x, "dtype"):
        a = np.asarray(x)
        return (a.shape, str(a.dtype), a.tobytes())
    return (type(x).__name__, repr(x))


def same_bits(a, b):
    return bits(a) == bits(b)


def tree_bits(t):
    return (skeleton(t), tuple((p, bits(l)) for p, l in leaves(t)))


def diff_tree(a, b):
    """None when bit-identical in structure and content, else a short description."""
    if skeleton(a) != skeleton(b):
        return f"structure {skeleton(a)} vs {skeleton(b)}"
    for (p, x), (_, y) in zip(leaves(a), leaves(b)):
        if not same_bits(x, y):
            return f"at {p}: {short(x)} vs {short(y)}"
    return None


def f64(x):
    return np.asarray(x).astype(np.float64)


def short(x, n=12):
    if hasattr(x, "dtype") and not isinstance(x, SEQ):
        a = np.asarray(x)
        v = a.reshape(-1)
        try:
            body = [float(t) for t in v[:n]]
        except Exception:
            body = [str(t) for t in v[:n]]
        return f"{a.dtype}{list(a.shape)}{body}{'...' if v.size > n else ''}"
    if isinstance(x, (dict,) + SEQ):
        return repr(tmap(lambda l: short(l, 6), x))[:400]
    return repr(x)[:200]


def feps(dtype):
    """Machine epsilon of a floating dtype (numpy or bfloat16)."""
    import jax.numpy as jnp
    return float(jnp.finfo(dtype).eps)


def ftiny(dtype):
    import jax.numpy as jnp
    return float(jnp.finfo(dtype).tiny)


def lb(v, ndim):
    """Left broadcast: append axes so that v has ndim dimensions."""
    v = np.asarray(v)
    return v.reshape(v.shape + (1,) * (ndim - v.ndim))


def close_trees(a, b, rtol, atol):
    """None or a description of the first difference beyond tolerance (nan equals nan)."""
    if skeleton(a) != skeleton(b):
        return f"structure {skeleton(a)} vs {skeleton(b)}"
    for (p, x), (_, y) in zip(leaves(a), leaves(b)):
        if hasattr(x, "dtype"):
            if not np.allclose(f64(x), f64(y), rtol=rtol, atol=atol, equal_nan=True):
                return f"at {p}: {short(x)} vs {short(y)}"
        elif x != y:
            return f"at {p}: {x!r} vs {y!r}"
    return None


Pair = collections.namedtuple("Pair", ["first", "second"])
Shaped = collections.namedtuple("Shaped", ["ndim", "dtype"])       # a node, not a tensor
