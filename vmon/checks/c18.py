"""Contract violations are planted in layers; the refusals, and their absence, are monitored."""
import collections
from vmon.checks._prog import *  # noqa
from vmon.probe import snap
from src.jax_act import AbstractACTTemplate, AbstractControllerContract
from src.jax_act.layers.core import ContractValidationWrapper

Pair = collections.namedtuple("Pair", ["controller", "state"])


def make(ctx, rng, b):
    c = config(rng, ctx.x64, b, core=pick(rng, [None, None, F32, BF16]), naccs=int(rng.integers(1, 5)))
    if c.core == F16:
        c.core_arg, c.core = None, F64 if ctx.x64 else F32
    for nm in c.names:      # no half precision: these programs are compiled
        c.specs[nm] = tr.tmap(lambda l: Leaf(l.shape, F32 if l.dtype == F16 else l.dtype), c.specs[nm])
        c.uspecs[nm] = c.specs[nm]
    ctx.note["config"] = describe(c)
    return c


class Layer(AbstractACTTemplate):
    def __init__(self, mk, run):
        self.mk, self.run = mk, run

    def make_controller(self, initial_state, depression_constant=1.0, *args, **kwargs):
        return self.mk(initial_state)

    def setup_lazy_parameters(self, controller, state):
        pass

    def run_iteration(self, controller, state):
        return self.run(controller, state)


def all_cached(c, k, ups, names=None):
    for n in (c.names if names is None else names):
        k = k.cache_update(n, ups[n])
    return k


class Special(ACT_Controller):
    """A user's controller."""


def make_defects(c, rng, k):
    empty = lambda: ControllerBuilder.new_builder(list(c.bshape), c.core_arg, c.eps, c.dep)
    return [
        ("None", TypeError, lambda s: None), ("the builder", TypeError, lambda s: ControllerBuilder(k.save())),
        ("a viewer", TypeError, lambda s: k.make_viewer()), ("a save", TypeError, lambda s: k.save()),
        ("an editor", TypeError, lambda s: TensorEditor.edit_controller(k)), ("a tuple with a controller", TypeError, lambda s: (k,)),
        ("a controller and the state", TypeError, lambda s: (k, s)), ("a list", TypeError, lambda s: [k]),
        ("the class", TypeError, lambda s: ACT_Controller), ("a dict of accumulators", TypeError, lambda s: dict(k.accumulators)),
        ("a tensor", TypeError, lambda s: k.probabilities), ("the initial state", TypeError, lambda s: s),
        ("an empty controller", RuntimeError, lambda s: empty().build()),
        ("a controller whose definitions were deleted", RuntimeError,
         lambda s: empty().define_accumulator_by_shape("x", list(c.bshape))._delete_definition("x").build()),
        ("the empty builder", TypeError, lambda s: empty()),
    ]


def run_defects(c, rng, ups, h):
    good = lambda k: all_cached(c, k, ups).iterate_act(h)
    some = sorted(rng.choice(len(c.names), size=int(rng.integers(1, len(c.names) + 1)), replace=False))
    some = [c.names[i] for i in some]
    part = some if len(some) < len(c.names) else c.names[:-1] or c.names
    one = pick(rng, c.names)
    out = [
        ("None", TypeError, lambda k, s: None), ("only the controller", TypeError, lambda k, s: good(k)),
        ("a list", TypeError, lambda k, s: [good(k), s]), ("a dict", TypeError, lambda k, s: {"controller": good(k), "state": s}),
        ("a tensor", TypeError, lambda k, s: jnp.ones(2)), ("a generator", TypeError, lambda k, s: (x for x in (good(k), s))),
        ("a string of two", TypeError, lambda k, s: "ks"), ("a set", TypeError, lambda k, s: {1, 2}),
        ("an empty tuple", RuntimeError, lambda k, s: ()), ("a tuple of one", RuntimeError, lambda k, s: (good(k),)),
        ("a tuple of three", RuntimeError, lambda k, s: (good(k), s, s)), ("a tuple of four", RuntimeError, lambda k, s: (good(k), s, None, None)),
        ("the items swapped", TypeError, lambda k, s: (s, good(k))), ("None as the controller", TypeError, lambda k, s: (None, s)),
        ("a viewer as the controller", TypeError, lambda k, s: (good(k).make_viewer(), s)),
        ("a save as the controller", TypeError, lambda k, s: (good(k).save(), s)),
        ("a builder as the controller", TypeError, lambda k, s: (ControllerBuilder(good(k).save()), s)),
        ("an editor as the controller", TypeError, lambda k, s: (TensorEditor.edit_controller(good(k)), s)),
        ("the class as the controller", TypeError, lambda k, s: (ACT_Controller, s)),
        ("the controller it was given", RuntimeError, lambda k, s: (k, s)),
        ("the controller it was given, in a named tuple", RuntimeError, lambda k, s: Pair(k, s)),
        ("the controller it was given, having worked on others", RuntimeError, lambda k, s: (good(k) and k, s)),
        ("all updates cached, none committed", RuntimeError, lambda k, s: (all_cached(c, k, ups), s)),
        (f"updates of {some} cached and not committed", RuntimeError, lambda k, s: (all_cached(c, k, ups, some), s)),
        ("committed, and one update cached again", RuntimeError, lambda k, s: (good(k).cache_update(one, ups[one]), s)),
        ("committed, and all updates cached again", RuntimeError, lambda k, s: (all_cached(c, good(k), ups), s)),
        ("all updates cached, in a named tuple", RuntimeError, lambda k, s: Pair(all_cached(c, k, ups), s)),
    ]
    if len(part) < len(c.names):
        out.append((f"only {part} cached", RuntimeError, lambda k, s: (all_cached(c, k, ups, part), s)))
        last = [c.names[-1]]
        out.append(("only the last cached", RuntimeError, lambda k, s: (all_cached(c, k, ups, last), s)))
    return out


def valid_runs(c, rng, ups, h):
    good = lambda k: all_cached(c, k, ups).iterate_act(h)
    rev = lambda k: all_cached(c, k, ups, c.names[::-1]).iterate_act(h)
    return [
        ("plain", lambda k, s: (good(k), s)), ("named tuple", lambda k, s: Pair(good(k), s)), ("reversed order", lambda k, s: (rev(k), s)),
        ("twice", lambda k, s: (good(good(k)), s)), ("reset first", lambda k, s: (good(k.reset_batches()), s)),
        ("reset afterwards", lambda k, s: (good(k).reset_batches(), s)), ("only a reset", lambda k, s: (k.reset_batches(), s)),
        ("through save and load", lambda k, s: (ACT_Controller.load(good(k).save()), s)),
        ("through an editor", lambda k, s: (TensorEditor.edit_controller(good(k), "silence").set_iterations(good(k).iterations + 1).build(), s)),
        ("a cached update taken back", lambda k, s: (TensorEditor.edit_controller(k.cache_update(c.names[0], ups[c.names[0]]), "silence")
                                                     .set_updates(c.names[0], None).build(), s)),
        ("another controller of the same state", lambda k, s: (ACT_Controller.load(k.save()), s)),
        ("a rebuilt controller", lambda k, s: (jax.tree_util.tree_unflatten(*jax.tree_util.tree_flatten(k)[::-1]), s)),
        ("an untouched copy by tree_map", lambda k, s: (jax.tree_util.tree_map(lambda x: x, k), s)),
        ("a controller of a subclass", lambda k, s: (Special(good(k).save()), s)),
        ("another controller of a subclass", lambda k, s: (Special(k.save()), s)),
        ("another controller through an idle editor", lambda k, s: (TensorEditor.edit_controller(k).build(), s)),
    ]


def episode(ctx, c, rng, e):
    with ctx.other("preparing"):
        k = build(rng, c)
        for s in program(rng, c, int(rng.integers(0, 3)), kind="normal"):
            k = step(k, s["h"], s["ups"], s["order"])
        ups = {nm: tr.tmap(lambda l: rand_values(rng, l.shape, l.dtype), c.specs[nm]) for nm in c.names}
        h = halting(rng, c, pick(rng, ["uniform", "small", "ones", "zeros"]))
    good_mk = lambda s: k
    with ctx.subject("make_controller giving a controller of a subclass"):
        sp = Special(k.save())
        ctx.check(ContractValidationWrapper(Layer(lambda s: sp, None), True).make_controller(None, 1.0) is sp, "the result of make_controller is not passed through")
    fresh = lambda s: ACT_Controller.load(k.save())
    state = pick(rng, [jnp.ones(c.bshape + (2,)), {"a": jnp.zeros(3), "b": [jnp.asarray(1)]}, (), (jnp.ones(2), jnp.ones(1))])
    odd_state = pick(rng, [state, None, "text", object(), 5, [k], (1, 2, 3)])

    defects = make_defects(c, rng, k)
    for i in rng.permutation(len(defects))[:6]:
        name, exc, f = defects[i]
        layer = Layer(f, lambda q, s: (all_cached(c, q, ups).iterate_act(h), s))
        w = ContractValidationWrapper(layer, True)
        ctx.raises(f"make_controller returning {name}", exc, lambda: w.make_controller(state, 1.0))
        ctx.count("make_refused")
        ctx.seen("make", name, len(c.names))
        obj = f(state)
        out = ContractValidationWrapper(Layer(lambda s: obj, None), False)
        with ctx.subject(f"unchecked make_controller returning {name}"):
            ctx.check(out.make_controller(state, 1.0) is obj, f"the unchecked result ({name}) of make_controller is not passed through")
        ctx.count("passed_through")
        if rng.random() < 0.4:
            ctx.raises(f"execute_act with make_controller returning {name}", exc, lambda: layer.execute_act(state))
            ctx.count("executions_refused")

    defects = run_defects(c, rng, ups, h)
    for i in rng.permutation(len(defects))[:9]:
        name, exc, f = defects[i]
        layer = Layer(fresh, f)
        w = ContractValidationWrapper(layer, True)
        s = odd_state if name != "the items swapped" or not isinstance(odd_state, ACT_Controller) else state
        ctx.raises(f"an iteration returning {name}", exc, lambda: w.run_iteration(k, s), accumulators=c.names)
        ctx.count("run_refused")
        ctx.seen("run", name, len(c.names), c.batch)
        obj = f(k, s)
        u = ContractValidationWrapper(Layer(fresh, lambda q, t: obj), False)
        with ctx.subject(f"an unchecked iteration returning {name}"):
            ctx.check(u.run_iteration(k, s) is obj, f"the unchecked result ({name}) of an iteration is not passed through")
        ctx.count("passed_through")
        if rng.random() < 0.35:
            mi = int(pick(rng, [1, 3, 10]))
            how = int(rng.integers(3))
            call = [lambda: layer.execute_act(state, 1.0, mi), lambda: layer.execute_act(state, 1.0, mi, True),
                    lambda: jax.jit(lambda q: layer.execute_act(q, 1.0, mi))(state)][how]
            ctx.raises(f"execute_act{' (jitted)' if how == 2 else ''} with an iteration returning {name}", exc, call,
                       accumulators=c.names)
            ctx.count("executions_refused")

    # a layer which keeps the contract for a while and breaks it then
    for i in rng.permutation(len(defects))[:3]:
        name, exc, f = defects[i]
        late = int(rng.integers(1, 5))
        calls = []

        def run(q, s, f=f, late=late, calls=calls):
            calls.append(1)
            return f(q, s) if len(calls) > late else (all_cached(c, q, ups).iterate_act(jnp.zeros_like(h)), s)
        w = ContractValidationWrapper(Layer(fresh, run), True)
        q = ACT_Controller.load(k.save())
        if bool(q.is_completely_halted) or q.has_cached_updates:
            q = build(rng, c)
        if f"{name}".startswith("the items swapped"):
            continue
        with ctx.subject("the valid iterations of a layer"):
            for _ in range(late):
                q, _s = w.run_iteration(q, state)
        ctx.raises(f"iteration {late + 1} of a layer returning {name}, after valid ones", exc, lambda: w.run_iteration(q, state),
                   accumulators=c.names)
        ctx.count("late_violations_refused")
        if rng.random() < 0.5 and not bool(q.is_completely_halted):
            calls.clear()
            start = q
            layer = Layer(lambda s: start, run)

            def untraced():
                with jax.disable_jit():
                    layer.execute_act(state, 1.0, late + 3)
            ctx.raises(f"execute_act (untraced) with iteration {late + 1} returning {name}", exc, untraced, accumulators=c.names)
            ctx.count("executions_refused")
    runs = valid_runs(c, rng, ups, h)
    for i in rng.permutation(len(runs))[:7]:
        name, f = runs[i]
        if k.has_cached_updates:
            break
        s = odd_state
        w = ContractValidationWrapper(Layer(good_mk, f), True)
        with ctx.subject(f"a valid layer ({name})"):
            q = w.make_controller(s, 1.0)
            ctx.check(q is k, "the result of make_controller is not passed through")
            obj = f(k, s)
            w2 = ContractValidationWrapper(Layer(good_mk, lambda a, b: obj), True)
            ctx.check(w2.run_iteration(k, s) is obj, "the result of a valid iteration is not passed through")
            w.run_iteration(k, s)
        ctx.count("valid_accepted")
        if rng.random() < 0.3 and "subclass" not in name:
            fixed = (lambda q, s, f=f: tuple(f(q, s)))
            with ctx.subject(f"execute_act of a valid layer ({name})"):
                out, s2 = Layer(fresh, fixed).execute_act(state, 1.0, int(pick(rng, [0, 1, 4])), True)
                jax.block_until_ready(out.probabilities)
            ctx.count("valid_executed")
        ctx.seen("valid", name, len(c.names), c.batch)
    ctx.sample(config=ctx.note["config"], defects=[d[0] for d in defects[:5]])
