"""Seeded generators of configurations and inputs."""
import numpy as np
import jax
import jax.numpy as jnp

from vmon import boot, trees as tr
boot.import_subject()
from src.jax_act import ControllerBuilder, ACT_Controller, TensorEditor, ACTViewer, ACTStates  # noqa: E402

BATCHES = [[], [1], [2], [3], [4], [5], [2, 3], [3, 1], [1, 4], [3, 3], [2, 2], [2, 2, 2], [1, 1], [7], [0], [6, 2], [2, 1, 2, 2], [1, 2, 1, 1, 3]]
NAMES = ["state", "output", "a b", "", "0", "updates", "probabilities", "Z", "аккумулятор", "m.n", "z0", "A", "{a}", "{0}", "%s", "_z", "__init__", "None", "x\ny", "n" * 300, "e\u0301tat", "\u212b", "\ufb01n"]
EPS = [1e-4, 1e-4, 1e-2, 0.1, 0.3, 0.5, 0.9, 1e-6, 1e-9, 1e-3, 1 / 3, 0.01234567, 3.4e-5, 0.654321]
DEP = [1.0, 1.0, 1.0, 0.5, 0.1, 2.0, 0.9, 1.5, 10.0, 0.0]
F32, F16, BF16 = np.dtype("float32"), np.dtype("float16"), jnp.dtype(jnp.bfloat16)
F64 = np.dtype("float64")


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def shape_of(batch):
    return (batch,) if isinstance(batch, int) else tuple(batch)


class Leaf:
    """Shape and dtype of one accumulator tensor."""
    def __init__(self, shape, dtype):
        self.shape, self.dtype = tuple(int(s) for s in shape), dtype

    def __repr__(self):
        return f"{self.dtype}{list(self.shape)}"


def rand_leaf_shape(rng, bshape):
    b = list(bshape)
    k = int(rng.integers(7))
    if k == 0:
        return b
    if k == 1:
        return b + [int(rng.integers(1, 5))]
    if k == 2:
        return b + [1]
    if k == 3:                               # square: feature dims equal to the batch dims
        return b + b if len(b) < 3 else b + b[:1]
    if k == 4:
        return b + [int(rng.integers(1, 4)), int(rng.integers(1, 4))]
    if k == 5:
        return b + (b[::-1] if b else [2])
    return b + [2, 1, 3]


def rand_tree(rng, mkleaf, depth=0, allow_nt=True):
    k = int(rng.integers(10)) if depth < 3 else 0
    if depth == 0 and k < 4 or depth > 0 and k < 6:
        return mkleaf()
    kind = pick(rng, ["dict", "list", "tuple", "nt"] if allow_nt else ["dict", "list", "tuple"])
    n = int(rng.integers(1, 4))
    if kind == "nt":
        return pick(rng, [tr.Pair, tr.Rec, tr.Shaped])(rand_tree(rng, mkleaf, depth + 1, allow_nt), rand_tree(rng, mkleaf, depth + 1, allow_nt))
    kids = [rand_tree(rng, mkleaf, depth + 1, allow_nt) for _ in range(n)]
    if kind == "dict":
        keys = ["w", "b", "matrix", "a", "Q", "1"]
        rng.shuffle(keys)
        return dict(zip(keys, kids))
    return kids if kind == "list" else tuple(kids)


class Cfg:
    pass


def config(rng, x64=False, b=0, simple=None, core=None, batches=None, naccs=None, dyadic=None, eps=None, dep=None,
           leaf_dtypes=None, deps=None, epss=None, leafless=0.0):
    """A random controller configuration."""
    c = Cfg()
    c.batch = pick(rng, batches or BATCHES)
    if batches is None and rng.random() < 0.1:
        c.batch = int(rng.integers(0, 5))
    c.bshape = shape_of(c.batch)
    c.x64 = x64
    cores = [None, None, F32, F32, F16, BF16] + ([F64, None] if x64 else [])
    c.core_arg = pick(rng, cores) if core is None else core
    c.core = (F64 if x64 else F32) if c.core_arg is None else jnp.dtype(c.core_arg)
    if c.core == F16 and c.bshape == (3, 3):     # jaxlib 0.4.23's cpu compiler crashes natively on some of these
        c.batch, c.bshape = [2, 3], (2, 3)
    c.dyadic = bool(rng.random() < 0.5) if dyadic is None else dyadic
    c.grid = {"float16": 2.0 ** -8, "bfloat16": 2.0 ** -6}.get(str(c.core), 2.0 ** -10)
    c.eps = eps if eps is not None else float(pick(rng, epss or EPS))
    c.dep = dep if dep is not None else float(pick(rng, deps or DEP))
    if c.dyadic:
        if eps is None and epss is None:
            c.eps = float(pick(rng, [0.25, 0.5, 0.125, 0.0625, 2.0 ** -5, 0.75, c.grid, c.grid, 5 * c.grid, 0.5 - c.grid]))
        if dep is None and deps is None:
            c.dep = float(pick(rng, [1.0, 1.0, 0.5, 2.0, 1.0, 4.0]))
    n = int(rng.integers(1, 5)) if naccs is None else naccs
    names = list(NAMES)
    rng.shuffle(names)
    c.names = names[:n]
    lds = leaf_dtypes or ([F32, F32, F32, F32, F16, BF16] + ([F64] if x64 else []))
    c.specs = {}
    for nm in c.names:
        c.specs[nm] = rand_tree(rng, lambda: Leaf(rand_leaf_shape(rng, c.bshape), pick(rng, lds)))
        if leafless and rng.random() < leafless:       # an accumulator without any tensor
            c.specs[nm] = pick(rng, [{}, (), [], {"a": (), "b": []}, tr.Pair((), {})])
    if rng.random() < 0.07:                            # many tensors
        shp, k = rand_leaf_shape(rng, c.bshape)[:max(3, len(c.bshape))], int(rng.integers(7, 13))
        wide = [Leaf(shp if rng.random() < 0.8 else c.bshape, pick(rng, lds)) for _ in range(k)]
        c.specs[pick(rng, c.names)] = pick(rng, [wide, tuple(wide)] + 2 * [{f"k{(7 * i) % k:02d}": l for i, l in enumerate(wide)}])
    if n > 1 and rng.random() < 0.15:                  # accumulators of the same structure
        c.specs[c.names[1]] = c.specs[c.names[0]]
    def udt(l):
        if str(l.dtype) != "float32" and str(l.dtype) != "float64":
            return Leaf(l.shape, l.dtype)
        r = rng.random()
        return Leaf(l.shape, np.dtype("int32") if r < 0.08 else F16 if r < 0.18 else F32 if r < 0.25 else l.dtype)
    c.uspecs = {nm: tr.tmap(udt, c.specs[nm]) for nm in c.names}
    return c


def describe(c):
    return (f"batch={c.batch} core={c.core_arg} eps={c.eps} dep={c.dep} dyadic={c.dyadic} "
            f"accs={ {k: str(v) for k, v in c.specs.items()} }")


def rand_values(rng, shape, dtype, kind="normal"):
    if kind == "zeros":
        v = np.zeros(shape)
    elif kind == "dyadic":
        v = rng.integers(-8, 9, shape) / 4.0
    else:
        v = rng.normal(size=shape) * (10.0 ** rng.integers(-1, 2))
    return jnp.asarray(np.asarray(v), dtype=dtype)


def start_tree(rng, spec, kind="normal"):
    return tr.tmap(lambda l: rand_values(rng, l.shape, l.dtype, kind), spec)


def build(rng, c, starts=None):
    """Builds the controller of the configuration: half the accumulators by shape, half directly."""
    b = ControllerBuilder.new_builder(c.batch if not isinstance(c.batch, list) else list(c.batch),
                                      c.core_arg, c.eps, c.dep)
    c.starts = {}
    for nm in c.names:
        spec = c.specs[nm]
        dts = {str(l.dtype) for _, l in tr.leaves(spec)}
        if rng.random() < 0.3 and len(dts) == 1 and starts is None:
            fill = float(pick(rng, [0.0, 0.0, 1.0, -2.5]))
            dt = tr.leaves(spec)[0][1].dtype
            b = b.define_accumulator_by_shape(nm, tr.tmap(lambda l: list(l.shape), spec), dt, fill)
            c.starts[nm] = tr.tmap(lambda l: jnp.full(l.shape, fill, l.dtype), spec)
        else:
            if starts is not None:
                t = starts[nm]
            elif nm != c.names[0] and spec is c.specs[c.names[0]] and rng.random() < 0.7:
                # the same tensors as those of another accumulator, or nearly the same
                t = c.starts[c.names[0]]
                if rng.random() < 0.6:
                    t = tr.tmap(lambda x: (x * (1 + 4 * tr.feps(x.dtype))).astype(x.dtype), t)
            else:
                t = start_tree(rng, spec, pick(rng, ["normal", "dyadic", "zeros"]))
            b = b.define_accumulator_directly(nm, t)
            c.starts[nm] = t
    return b.build()


def update_tree(rng, c, nm, hostile=0.0, kind="normal"):
    def one(l):
        if l.dtype.kind == "i":
            return jnp.asarray(np.asarray(rng.integers(-5, 6, l.shape)), dtype=l.dtype)
        v = np.array(rand_values(rng, l.shape, l.dtype, kind))
        if hostile and v.size and rng.random() < hostile:
            flat = v.reshape(-1)
            for _ in range(int(rng.integers(1, 1 + max(1, flat.size // 2)))):
                flat[int(rng.integers(flat.size))] = pick(rng, [np.nan, np.inf, -np.inf, 6e4, -0.0])
            v = flat.reshape(v.shape)
        return jnp.asarray(v, dtype=l.dtype)
    return tr.tmap(one, c.uspecs[nm])


HPATTERNS = ["uniform", "small", "hetero", "extreme", "dyadic", "spike", "tiny", "near", "ones", "zeros", "negative", "finish"]


def halting(rng, c, pattern, p_now=None):
    """Halting probabilities of batch shape, in the core dtype."""
    n = c.bshape
    g = c.grid
    if c.dyadic:
        pattern = pick(rng, ["dyadic", "dyadic", "edge", "edge", "dsmall", "dextreme"])
    if pattern == "uniform":
        v = rng.random(n)
    elif pattern == "small":
        v = rng.random(n) * 0.2
    elif pattern == "hetero":
        v = rng.random(n) ** 4
    elif pattern == "extreme":
        v = rng.choice([-np.inf, -1.0, -0.25, 0.0, 0.3, 0.6, 1.0, 1.5, 100.0, np.inf], n)
    elif pattern == "spike":
        v = np.where(rng.random(n) < 0.3, 1.0, 0.01)
    elif pattern == "tiny":
        v = rng.choice([1e-3, 1e-5, 1e-8, 0.0, 0.5], n)
    elif pattern == "near" and p_now is not None:
        off = [-1e-3, 1e-3, -1e-2, 1e-2, 0.1, -c.eps / 3, c.eps / 3, c.eps / 50, -c.eps / 50, 40 * tr.feps(c.core), -40 * tr.feps(c.core)]
        v = (1 - c.eps - tr.f64(p_now) + rng.choice(off, n)) / (c.dep or 1.0)
    elif pattern == "finish" and p_now is not None:      # exactly what is left, where this can be hit
        v = np.where(rng.random(n) < 0.6, (1.0 - tr.f64(p_now)) / (c.dep or 1.0), rng.random(n) * 0.3)
    elif pattern == "ones":
        v = np.ones(n)
    elif pattern == "zeros":
        v = np.zeros(n)
    elif pattern == "negative":
        v = rng.choice([-0.5, 0.2, 0.1], n)
    elif pattern == "dyadic":
        v = rng.integers(0, 17, n) / 16.0
    elif pattern == "dsmall":
        v = rng.integers(0, 5, n) * max(g, 1 / 64)
    elif pattern == "dextreme":
        v = rng.choice([-np.inf, -1.0, 0.0, 0.25, 0.5, 1.0, 2.0, np.inf], n)
    elif pattern == "edge" and p_now is not None:
        # lands exactly on, or one grid step beside, the threshold or one
        target = rng.choice([1 - c.eps, 1 - c.eps + g, 1 - c.eps - g, 1.0, 1.0 - g], n)
        v = (target - tr.f64(p_now)) / (c.dep or 1.0)
    else:
        v = rng.random(n)
    return jnp.asarray(np.asarray(v, dtype=np.float64), dtype=c.core)


def zeros_like_tree(t):
    return tr.tmap(jnp.zeros_like, t)
