"""Chains of public operations with prepared arguments: the same chain can be run again, elsewhere or at the same time."""
import warnings

import numpy as np
import jax
import jax.numpy as jnp

from vmon import trees as tr
from vmon.gen import (pick, halting, update_tree, start_tree, HPATTERNS, ACT_Controller, ControllerBuilder, TensorEditor, ACTViewer,
                      F16)
from vmon.session import step, ReplayLayer, stack, program
from vmon.checks.c10 import digest
from vmon.checks.c16 import has_half


class Refused(str):
    pass


def refusal(f):
    """The operation must be refused; what it raises is the result."""
    try:
        out = f()
    except Exception as err:
        return Refused(type(err).__name__)
    return ("accepted", out)


KINDS = ["commit", "commit", "commit", "partial", "reset", "masks", "transform", "edit", "silent edit", "bad edit", "define", "redefine",
         "define by shape", "bad define", "flatten", "save", "refused", "refusals", "refusals", "flags", "bad transform", "build", "delete", "crowd"]
HEAVY = ["jit", "act", "scan"]


def steps(c, rng, n, heavy=0.1):
    """A list of (name, function of an environment dict giving the result)."""
    out = []
    for _ in range(n):
        kind = pick(rng, KINDS)
        if rng.random() < heavy and not has_half(c):
            kind = pick(rng, HEAVY)
        out.append((kind, make(c, rng, kind)))
    return out


def make(c, rng, kind):
    nm = pick(rng, c.names)
    h = halting(rng, c, pick(rng, HPATTERNS), None) if not c.dyadic else jnp.asarray(np.asarray(rng.integers(0, 9, c.bshape)) / 8.0, dtype=c.core)
    ups = {n: update_tree(rng, c, n) for n in c.names}
    if kind == "commit":
        def f(env):
            env["k"] = step(env["k"], h, ups)
            return env["k"]
    elif kind == "partial":
        def f(env):
            k = env["k"].cache_update(nm, ups[nm])
            return k, k.updates_ready_to_commit, k.has_cached_updates, k.make_viewer()
    elif kind == "reset":
        def f(env):
            env["k"] = env["k"].reset_batches()
            return env["k"]
    elif kind == "masks":
        mask = jnp.asarray(np.asarray(rng.random(c.bshape) < 0.5))

        def f(env):
            v = env["k"].make_viewer()
            return v.halted_only(), v.unhalted_only(), v.mask_data(mask)
    elif kind == "transform":
        s = float(pick(rng, [2.0, 0.5, -1.0]))

        def f(env):
            return env["k"].cache_update(nm, ups[nm]).make_viewer().transform(lambda x: x * s)
    elif kind == "bad transform":
        def boom(x):
            raise KeyError("on purpose")

        def f(env):
            return refusal(lambda: env["k"].make_viewer().transform(boom))
    elif kind in ("edit", "silent edit"):
        p = jnp.asarray(np.asarray(rng.integers(0, 9, c.bshape)) / 8.0, dtype=c.core)
        val = start_tree(rng, c.specs[nm])
        which = int(rng.integers(4))
        eps = float(pick(rng, [0.25, 0.5, 0.125]))

        def f(env):
            e = TensorEditor.edit_controller(env["k"], "standard" if kind == "edit" else "silence")
            e = [lambda: e.set_probabilities(p), lambda: e.set_accumulator(nm, val), lambda: e.set_epsilon(eps), lambda: e.set_defaults(nm, val)][which]()
            if which == 1:
                env["k"] = e.build()
            return e, e.build()
    elif kind == "bad edit":
        bad = jnp.full(c.bshape + (2,), 0.5, c.core) if 0 in c.bshape or rng.random() < 0.5 else jnp.full(c.bshape, 2.0, c.core)

        def f(env):
            return refusal(lambda: TensorEditor.edit_controller(env["k"]).set_probabilities(bad))
    elif kind in ("define", "redefine"):
        val = start_tree(rng, c.specs[nm])

        def f(env):
            b = env["b"].define_accumulator_directly("added" if kind == "define" else nm, val)
            if kind == "define" or rng is None:
                return b, b.build()
            return b
    elif kind == "crowd":
        val = start_tree(rng, c.specs[nm])
        many = int(rng.integers(8, 40))

        def f(env):
            b = env["b"]
            for i in range(many):
                b = b.define_accumulator_directly(f"one of many {i}", val)
            return b, b.build(), b.build().make_viewer()
    elif kind == "delete":
        def f(env):
            b = env["b"]
            b = b._delete_definition(nm) if hasattr(b, "_delete_definition") else b.delete_definition(nm)
            return b, b.build()
    elif kind == "define by shape":
        shp = [list(c.bshape) + [2], list(c.bshape) + [1]]

        def f(env):
            b = env["b"].define_accumulator_by_shape("shaped", shp, jnp.float32, 1.5)
            env["b"] = b
            return b
    elif kind == "bad define":
        bad = jnp.ones(c.bshape, jnp.int32)

        def f(env):
            return refusal(lambda: env["b"].define_accumulator_directly("bad", bad))
    elif kind == "flatten":
        def f(env):
            l, td = jax.tree_util.tree_flatten(env["k"])
            env["k"] = jax.tree_util.tree_unflatten(td, l)
            return env["k"]
    elif kind == "save":
        def f(env):
            s = env["k"].save()
            env["k"] = ACT_Controller.load(s)
            return s, ACTViewer.load(s)
    elif kind == "refused":
        def f(env):
            k = env["k"].cache_update(nm, ups[nm])
            return (refusal(lambda: k.cache_update(nm, ups[nm])), refusal(k.reset_batches), refusal(lambda: k.cache_update("never", 1)))
    elif kind == "refusals":
        odd = h[..., None] if c.bshape else jnp.ones((2,), c.core)
        tree = {"zzz": ups[nm]}
        picks = [int(i) for i in rng.permutation(9)[:3]]

        def f(env):
            a, b = env["k"], env["b"]
            k = a.cache_update(nm, ups[nm])
            one = a if len(c.names) == 1 else k
            v, e = k.make_viewer(), TensorEditor.edit_controller(k)
            todo = [lambda: one.iterate_act(h), lambda: k.iterate_act(odd), lambda: a.cache_update(nm, tree), lambda: k.reset_batches(),
                    lambda: v.mask_data(odd > 0), lambda: e.set_accumulator(nm, tree), lambda: e.set_probabilities(odd),
                    lambda: b.define_accumulator_directly("odd", {"a": np.float32(1)}), lambda: e.set_updates("never", ups[nm])]
            return (k, v, e) + tuple(refusal(todo[i]) for i in picks)
    elif kind == "flags":
        def f(env):
            k = env["k"]
            return k.halted_batches, k.is_completely_halted, k.is_any_halted, k[nm], k.halt_threshold
    elif kind == "build":
        starts = {n: start_tree(rng, c.specs[n]) for n in c.names}

        def f(env):
            b = ControllerBuilder.new_builder(list(c.bshape), c.core_arg, c.eps, c.dep)
            for n in c.names:
                b = b.define_accumulator_directly(n, starts[n])
            return b, b.build()
    elif kind == "jit":
        def f(env):
            env["k"] = jax.jit(lambda k, h, u: step(k, h, u))(env["k"], h, ups)
            return env["k"]
    elif kind == "scan":
        xs = stack(program(rng, c, 3))

        def f(env):
            return jax.lax.scan(lambda k, x: (step(k, x[0], x[1]), None), env["k"], xs)[0]
    elif kind == "act":
        prog = stack(program(rng, c, 3))

        def f(env):
            return ReplayLayer(env["k"]).execute_act((jnp.asarray(0), prog), max_iterations=3)[0]
    else:
        raise KeyError(kind)
    return f


def dig(x):
    if isinstance(x, tuple) and not tr.is_nt(x):
        return tuple(dig(y) for y in x)
    if isinstance(x, Refused):
        return "refused: " + x
    return digest(x)


def run(ctrl, builder, chain, digests=True):
    """Results of the chain, as digests."""
    env = dict(k=ctrl, b=builder)
    out = []
    with warnings.catch_warnings() if digests is None else _null():
        for name, f in chain:
            r = f(env)
            if digests:
                out.append((name, dig(r)))
    return out


class _null:
    def __enter__(self):
        pass

    def __exit__(self, *a):
        pass
