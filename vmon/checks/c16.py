"""transform against the same function applied to every tensor by the harness."""
from vmon.checks._prog import *  # noqa
from vmon.checks.c15 import state, TENSORS
from vmon.monitors import _same_values
from vmon.probe import snap


SAFE = ("double", "shift", "identity", "trailing axis", "leading axis", "flatten", "ndim", "flat batch", "numpy", "first element")


def has_half(c):
    return c.core == F16 or any(l.dtype == F16 for n in c.names for d in (c.specs, c.uspecs) for _, l in tr.leaves(d[n]))


def make(ctx, rng, b):
    c = config(rng, ctx.x64, b, leafless=0.05)
    c.jit = b % 4 == 1 and not has_half(c)
    ctx.note["config"] = describe(c)
    return c


def functions(rng, c):
    nb = len(c.bshape)
    n = int(np.prod(c.bshape))
    fs = [
        ("double", lambda x: x * 2), ("shift", lambda x: x + 1), ("identity", lambda x: x), ("cube", lambda x: x * x * x - 3),
        ("cast f32", lambda x: x.astype(jnp.float32)), ("cast int", lambda x: jnp.clip(jnp.where(x == x, x, 0), -9, 9).astype(jnp.int32)),
        ("is a number", lambda x: x == x), ("cast bf16", lambda x: x.astype(jnp.bfloat16)),
        ("trailing axis", lambda x: x[..., None]), ("leading axis", lambda x: x[None]), ("flatten", lambda x: x.reshape(-1)),
        ("ndim", lambda x: jnp.full((), x.ndim)), ("transpose", lambda x: x.T), ("total", lambda x: jnp.sum(x)),
        ("flat batch", lambda x: x.reshape((n,) + x.shape[nb:])), ("repeat", lambda x: jnp.stack([x, x + 1])),
        ("numpy", lambda x: np.asarray(x) + 1),
    ]
    other = c.other
    if other is not None:       # transforming while transforming
        def within(x):
            o = other.transform(lambda y: y * 0 + 7)
            try:
                other.transform(lambda y: y.no_such_thing)
            except RuntimeError:
                pass
            return x * 3 + o.probabilities.size * 0
        fs += [("within another", within)] * 2
    if nb:
        fs += [("first element", lambda x: x[:1]), ("reverse", lambda x: x[::-1]), ("sort", lambda x: jnp.sort(x, axis=0)),
               ("max over batch", lambda x: jnp.max(x, axis=0, initial=-1e4)), ("cumsum", lambda x: jnp.cumsum(x, axis=0))]
    if rng.random() < 0.3:
        s = float(rng.normal())
        fs += [("scale", lambda x: (x * s).astype(x.dtype))]
    return fs


def map_state(f, s):
    """The expected fields: f applied to each leaf by the harness."""
    out = dict(s)
    for key in TENSORS:
        out[key] = tr.tmap(lambda x: np.asarray(f(x)), raw(s, key))
    return out


def raw(s, key):
    return s[key]


def fields_of(v):
    s = v.save()
    return {k: getattr(s, k) for k in TENSORS}


def episode(ctx, c, rng, e):
    k = state(ctx, c, rng)
    v = k.make_viewer() if rng.random() < 0.7 else ACTViewer.load(k.save())
    c.host = c.bshape and c.core in (F32, F64) and not has_half(c) and not (c.jit and e == 0) and rng.random() < 0.2
    if c.host:      # tensors on the host, in double precision
        s = v.save()
        up = lambda x: np.asarray(x, np.float64) * (1 + 2.0 ** -40)
        v = ACTViewer.load(s.replace(**{key: jax.tree_util.tree_map(up, getattr(s, key)) for key in TENSORS}))
        ctx.count("transforms_of_host_states")
    pre = snap(v)
    keep = tr.tree_bits(pre)
    c.other = None if has_half(c) else v if rng.random() < 0.5 else ACTViewer.load(k.save())
    fs = functions(rng, c)
    if has_half(c):        # compiling half precision functions can crash jaxlib 0.4.23's cpu compiler natively
        fs = [f for f in fs if f[0] in SAFE]
    for t in range(4 if not (c.jit and e == 0) else 2):
        name, f = pick(rng, fs)
        if c.jit and e == 0 and name != "numpy":
            how = int(rng.integers(2))
            with ctx.subject(f"jitted transform by {name}"):
                if how:
                    out = jax.jit(lambda q, g: q.transform(g))(v, jax.tree_util.Partial(f))
                else:
                    out = jax.jit(lambda q: q.transform(f))(v)
            with ctx.other("applying the function"):
                g = jax.jit(f)
                want = {key: tr.tmap(lambda x: np.asarray(g(x)), x) for key, x in fields_of(v).items()}
            exact = False
        else:
            with ctx.subject(f"transform by {name}"):
                out = v.transform(f)
            with ctx.other("applying the function"):
                want = {key: tr.tmap(lambda x: np.asarray(f(x)), x) for key, x in fields_of(v).items()}
            exact = True
        ctx.check(type(out) is ACTViewer, f"transform gives a {type(out)}")
        got = snap(out)
        for key in TENSORS:
            ctx.check(tr.skeleton(got[key]) == tr.skeleton(want[key]), f"transform by {name}: {key} has another structure, shape or dtype",
                      got=tr.skeleton(got[key]), want=tr.skeleton(want[key]), exact=exact)
            for (p, a), (_, b) in zip(tr.leaves(got[key]), tr.leaves(want[key])):
                ctx.check(_same_values(a, b) if exact else near(a, b), f"transform by {name}: {key}{p} is not the function of that tensor",
                          before=tr.short(dict(tr.leaves(pre[key]))[p]), got=tr.short(a), want=tr.short(b))
                ctx.count("tensors_judged")
        for key in ("epsilon", "depression_constant"):
            a, b = float(pre[key]), float(got[key])
            ctx.check(abs(a - b) <= (0 if exact else 2e-7 * abs(a)), f"transform by {name}: {key} changed from {a} to {b}")
        ctx.count("transforms")
        ctx.count("function: " + name)
        ctx.seen(name, exact, c.batch, str(c.core), tr.skeleton(pre["updates"]), tr.skeleton(pre["accumulators"]))
    for _ in range(3):
        failing(ctx, c, rng, v, pre)
    ctx.check(tr.tree_bits(snap(v)) == keep, "the viewer changed while it was transformed")
    ctx.sample(config=ctx.note["config"])


def near(a, b):
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    e = tr.feps(a.dtype) if a.dtype.kind not in "ib" else 0
    with np.errstate(all="ignore"):
        x, y = tr.f64(a), tr.f64(b)
        fin = np.abs(x[np.isfinite(x)])
        return bool(np.allclose(x, y, rtol=8 * e, atol=8 * e * (float(fin.max()) if fin.size else 1.0), equal_nan=True))


class Mine(Exception):
    pass


def failing(ctx, c, rng, v, pre):
    """A function which fails on one tensor only, chosen anywhere."""
    every = [(key, p, x) for key in TENSORS for p, x in tr.leaves(pre[key])]
    key = pick(rng, sorted({k for k, _, _ in every}))
    key, path, target = pick(rng, [t for t in every if t[0] == key])
    tb = tr.bits(target)
    exc = pick(rng, [ValueError, TypeError, ZeroDivisionError, KeyError, IndexError, AttributeError, Mine, RuntimeError, AssertionError,
                     NotImplementedError, StopIteration, OSError])

    def f(x):
        if tr.bits(x) == tb:
            raise exc("on purpose")
        return x + 1
    ctx.raises(f"transform whose function raises {exc.__name__} on {key}{path}", RuntimeError, lambda: v.transform(f))
    ctx.check(tr.tree_bits(snap(v)) == tr.tree_bits(pre), f"the viewer changed when the function failed on {key}{path}")
    ctx.count("failures")
    ctx.count("failure in " + key)
    ctx.seen("failing", key, path, exc.__name__)
