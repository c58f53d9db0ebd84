"""Round trips at random points of ACT processes, and crash/resume against the uninterrupted run."""
import copy
import pickle
from vmon.checks._prog import *  # noqa
from vmon.checks.c16 import has_half
from vmon.probe import snap, fields
from src.jax_act import ACTStates


def make(ctx, rng, b):
    c = config(rng, ctx.x64, b, leafless=0.05)
    c.half = has_half(c)
    c.T = int(rng.integers(2, 7))
    ctx.note["config"] = describe(c)
    return c


def objects(k, rng):
    return [("controller", k), ("viewer", k.make_viewer()), ("save", k.save()), ("builder", ControllerBuilder(k.save())),
            ("standard editor", TensorEditor.edit_controller(k)), ("silent editor", TensorEditor.edit_save(k.save(), "silence"))]


def state_of(o):
    return o if isinstance(o, ACTStates) else o.state


def trips(rng, o, half):
    tu = jax.tree_util

    def flat(o):
        l, td = tu.tree_flatten(o)
        return tu.tree_unflatten(td, l)

    def withpath(o):
        l, td = tu.tree_flatten_with_path(o)
        return tu.tree_unflatten(td, [x for _, x in l])

    def stored(o):
        l, td = tu.tree_flatten(o)
        l = pickle.loads(pickle.dumps([np.asarray(x) if hasattr(x, "dtype") else x for x in l]))
        return tu.tree_unflatten(td, l)

    def own(o):
        if isinstance(o, ACTStates):
            return pick(rng, [lambda: o.replace(), lambda: ACT_Controller.load(o).save(), lambda: ACTViewer.load(o).save(),
                              lambda: TensorEditor.edit_save(o).save()])()
        if isinstance(o, (ACT_Controller, ACTViewer)):
            return type(o).load(o.save())
        if isinstance(o, TensorEditor):
            return TensorEditor.edit_save(o.save(), o.error_mode)
        return ControllerBuilder(o.state)
    out = [("flatten and unflatten", flat, True), ("flatten with paths", withpath, True), ("identity tree_map", lambda o: tu.tree_map(lambda x: x, o), True),
           ("save and load", own, True), ("storing the leaves as numpy", stored, True), ("unflatten twice", lambda o: flat(flat(o)), True),
           ("copy", copy.copy, True), ("deep copy", copy.deepcopy, True),
           ("pickling", lambda o: pickle.loads(pickle.dumps(o, int(rng.integers(0, 6)))), True),
           ("treedef transpose", lambda o: tu.tree_map(lambda a, b: b, o, flat(o)), True)]
    if not half:
        out += [("compiled identity", jax.jit(lambda x: x), False), ("cond", lambda o: jax.lax.cond(True, lambda x: x, lambda x: x, o), False),
                ("scan carry", lambda o: jax.lax.scan(lambda a, _: (a, None), tu.tree_map(jnp.asarray, o), None, length=2)[0], False),
                ("vmap identity", lambda o: tu.tree_map(lambda x: x[0], jax.vmap(lambda x: x)(tu.tree_map(lambda x: jnp.asarray(x)[None], o))), False)]
    return out


def judge(ctx, o, q, what, exact):
    ctx.check(type(q) is type(o), f"{what}: gives a {type(q)}")
    a, b = snap(o), snap(q)
    for key in a:
        if key in ("epsilon", "depression_constant"):
            x, y = float(a[key]), float(b[key])
            ctx.check(x == y or (not exact and np.float32(x) == np.float32(y)), f"{what}: {key} became {y} from {x}")
        else:
            ctx.same(tr.diff_tree(b[key], a[key]), f"{what}: {key} changed")
    ctx.check(list(a["accumulators"]) == list(b["accumulators"]) or sorted(a["accumulators"]) == sorted(b["accumulators"]), f"{what}: names changed")
    ctx.check(getattr(o, "error_mode", None) == getattr(q, "error_mode", None), f"{what}: error mode changed")
    ctx.check(state_of(o).error_mode == state_of(q).error_mode, f"{what}: error mode of the state changed")
    tda, tdb = jax.tree_util.tree_structure(o), jax.tree_util.tree_structure(q)
    ctx.check(tda == tdb, f"{what}: the tree structure is another one", before=tda, after=tdb)
    ctx.count("round_trips")


def episode(ctx, c, rng, e):
    with ctx.other("building"):
        k0 = build(rng, c)
    prog = program(rng, c, c.T, resets=0.2, hostile=0.1)
    ops = script(prog)
    cut = int(rng.integers(0, len(ops) + 1))
    with ctx.other("running the process"):
        k = k0
        for op in ops[:cut]:
            k = op(k)
    objs = objects(k, rng)
    for i in rng.permutation(len(objs))[:3]:
        name, o = objs[i]
        ts = trips(rng, o, c.half)
        for j in rng.permutation(len(ts))[:4]:
            what, f, exact = ts[j]
            with ctx.subject(f"{what} of a {name}"):
                q = f(o)
            judge(ctx, o, q, f"{what} of a {name}", exact)
            if not isinstance(o, ACTStates):
                sealed(ctx, q, f"{what} of a {name}")
            ctx.count("trip: " + what)
            ctx.count("of a " + name)
            ctx.seen(name, what, c.batch, str(c.core), tr.skeleton(snap(k)["updates"]), tr.skeleton(snap(k)["accumulators"]))
        marked(ctx, rng, name, o)
    resume(ctx, c, rng, k0, k, ops, cut)
    # NumPy promotes tensors without dimensions, and half precision, differently, which is not the library's doing
    if rng.random() < 0.5 and c.bshape and c.core in (F32, F64) and all(l.shape for d in (c.specs, c.uspecs) for nm in c.names for _, l in tr.leaves(d[nm])):
        hosted(ctx, c, rng, k, ops, cut)
    ctx.sample(config=ctx.note["config"], cut=f"{cut} of {len(ops)} operations")


def sealed(ctx, q, what):
    """What came back from the trip is as immutable as the original."""
    for name in ("state", "probabilities", "another"):
        try:
            setattr(q, name, None)
        except Exception:
            continue
        ctx.check(False, f"{what}: the result accepts a new value for attribute {name}")
    ctx.count("sealed")


def marked(ctx, rng, name, o):
    """Every leaf is marked with its number: fields must come back in the same places."""
    l, td = jax.tree_util.tree_flatten(o)
    with ctx.subject(f"unflattening a {name} with marked leaves"):
        q = jax.tree_util.tree_unflatten(td, [float(i) for i in range(len(l))])
        back = jax.tree_util.tree_leaves(q)
    ctx.check(back == [float(i) for i in range(len(l))], f"flattening an unflattened {name} gives other leaves", got=back)
    for put in (None, False, "a name", object()):
        with ctx.subject(f"unflattening a {name} with placeholders"):
            h = jax.tree_util.tree_unflatten(td, [put] * len(l))
        ctx.check(type(h) is type(o) and getattr(h, "error_mode", None) == getattr(o, "error_mode", None) and
                  state_of(h).error_mode == state_of(o).error_mode, f"a {name} of placeholders {put!r} is of another type or error mode")
    marks = {}
    for p, x in tr.leaves(fields(q)):
        marks[p] = x
    real = dict(tr.leaves(fields(o)))
    ctx.check(sorted(map(str, marks)) == sorted(map(str, real)), f"a {name} unflattened has fields elsewhere")
    for p, i in marks.items():
        ctx.check(type(l[int(i)]) is type(real[p]) and tr.bits(l[int(i)]) == tr.bits(real[p]),
                  f"field {p} of a {name} comes from another leaf after unflattening")
    ctx.count("marked")


def reordered(c, rng):
    b = ControllerBuilder.new_builder(list(c.bshape), c.core_arg, c.eps, c.dep)
    for i in rng.permutation(len(c.names)):
        b = b.define_accumulator_directly(c.names[int(i)], c.starts[c.names[int(i)]])
    return b.build()


def script(prog):
    ops = []
    for s in prog:
        if s["reset"]:
            ops.append(lambda k: k.reset_batches())
        for nm in s["order"]:
            ops.append(lambda k, s=s, nm=nm: k.cache_update(nm, s["ups"][nm]))
        ops.append(lambda k, s=s: k.iterate_act(s["h"]))
    return ops


def resume(ctx, c, rng, k0, k, ops, cut):
    with ctx.other("the uninterrupted process"):
        want = k
        for op in ops[cut:]:
            want = op(want)
        want = snap(want)
    l, td = jax.tree_util.tree_flatten(k)
    stored = pickle.dumps([np.asarray(x) if hasattr(x, "dtype") else x for x in l])
    how = int(rng.integers(3))
    with ctx.subject("restoring a stored process"):
        new = pickle.loads(stored)
        if how == 0:        # into the structure of a newly built controller, brought to the same pending pattern
            with HUB.paused():
                fresh = build(rng, c, c.starts)
                if rng.random() < 0.5:      # by a program which defines its accumulators in another order
                    fresh = reordered(c, rng)
                    ctx.count("restored_into_another_order_of_definition")
            for nm in c.names:
                u = k.save().updates[nm]
                if u is not None:
                    fresh = fresh.cache_update(nm, jax.tree_util.tree_map(jnp.zeros_like, u))
            td2 = jax.tree_util.tree_structure(fresh)
            ctx.check(td2 == td, "the controller of a newly run program with the same accumulators has another tree structure", got=str(td2), want=str(td))
            if not c.half and rng.random() < 0.1:
                picked = jax.lax.cond(bool(rng.integers(2)), lambda: k, lambda: fresh)
                ctx.check(type(picked) is ACT_Controller, "cond does not give a controller")
                ctx.count("conditionals")
        elif how == 1:      # into that of a loaded save
            td2 = jax.tree_util.tree_structure(ACT_Controller.load(k.save()))
        else:               # the save itself is stored
            sl, td2 = jax.tree_util.tree_flatten(k.save())
            new = pickle.loads(pickle.dumps([np.asarray(x) if hasattr(x, "dtype") else x for x in sl]))
        q = jax.tree_util.tree_unflatten(td2, [jnp.asarray(x) if hasattr(x, "dtype") else x for x in new])
        if how == 2:
            q = ACT_Controller.load(q)
        ctx.same(tr.diff_tree(strip(snap(q)), strip(snap(k))), "the restored controller differs from the stored one")
        for op in ops[cut:]:
            q = op(q)
        got = snap(q)
    d = tr.diff_tree(strip(got), strip(want))
    ctx.same(d, f"the process interrupted after {cut} of {len(ops)} operations continues differently")
    ctx.count("resumed")
    if any(v is not None for v in k.save().updates.values()):
        ctx.count("resumed_with_pending_updates")


def hosted(ctx, c, rng, k, ops, cut):
    """A process whose tensors live on the host, as NumPy arrays, does everything that it does with tensors of jax."""
    host = lambda o: jax.tree_util.tree_map(lambda x: np.asarray(x) if hasattr(x, "dtype") else x, o)
    pend = any(v is not None for v in k.save().updates.values())
    v = jnp.asarray(np.asarray(rng.integers(0, 9, c.bshape)) / 8.0, dtype=c.core)
    mask = np.asarray(rng.random(c.bshape) < 0.5)
    nm = pick(rng, c.names)

    def asks(k, v, mask, to):
        out = [k.halted_batches, k.is_any_halted, k.is_completely_halted, k.has_cached_updates, k.updates_ready_to_commit, k[nm]]
        w = to(k.make_viewer())
        out += [w.halted_only(), w.unhalted_only(), w.mask_data(mask), w.transform(lambda x: jnp.multiply(x, 2)), w.halted_batches]
        e = to(TensorEditor.edit_controller(k, pick(rng, ["standard", "silence"])))
        out += [e.set_probabilities(v).build(), e.set_residuals(v).build(), e.set_iterations(v).build(), e.set_accumulator(nm, k.save().defaults[nm]).build(),
                e.set_defaults(nm, k.accumulators[nm]).build(), e.set_updates(nm, k.accumulators[nm]).build(), e.set_updates(nm, None).build()]
        out += [to(ControllerBuilder(k.save())).define_accumulator_by_shape("surplus", list(c.bshape)).build()]
        return out + ([] if pend else [k.reset_batches()])
    flat = lambda o: np.asarray(o) if hasattr(o, "dtype") and not isinstance(o, tuple) else o if isinstance(o, bool) else tr.tmap(np.asarray, o) if isinstance(o, (dict,) + tr.SEQ) or o is None else strip(snap(o))
    with ctx.other("the process on the device"):
        want = [flat(o) for o in asks(k, v, jnp.asarray(mask), lambda o: o)]
        q = k
        for op in ops[cut:]:
            q = op(q)
        end = strip(snap(q))
    with ctx.subject("a process with its tensors on the host"):
        got = [flat(o) for o in asks(host(k), np.asarray(v), mask, host)]
        q = host(k)
        for op in ops[cut:]:
            q = host(op(q))
        last = strip(snap(q))
    for i, (a, b) in enumerate(zip(got, want)):
        d = None if isinstance(a, bool) and a == b else tr.diff_tree(a, b)
        ctx.check(d is None, f"result {i} of a process with its tensors on the host differs", difference=d)
    ctx.same(tr.diff_tree(last, end), "a process with its tensors on the host ends differently")
    ctx.count("continued_on_the_host")


def strip(s):
    return {k: (float(v) if k in ("epsilon", "depression_constant") else v) for k, v in s.items()}
