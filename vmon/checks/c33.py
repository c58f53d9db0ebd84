"""A saved state, its replacements and every window on it agree."""
import copy
import pickle
from vmon.checks._prog import *  # noqa
from vmon.probe import fields, is_tracer
from src.jax_act import ACTStates

NAMES_ = ["epsilon", "iterations", "residuals", "probabilities", "defaults", "accumulators", "updates", "depression_constant"]
MODES = ["standard", "silence"]


def make(ctx, rng, b):
    c = config(rng, ctx.x64, b, naccs=int(rng.integers(1, 4)), leafless=0.05)
    if c.core == F16:
        c.T = 3
    else:
        c.T = 6
    ctx.note["config"] = describe(c)
    return c


def have(s):
    return {n: getattr(s, n) for n in NAMES_}


def agree(ctx, got, want, what):
    for n, w in want.items():
        d = tr.diff_tree(tr.tmap(lambda x: x, got[n]), tr.tmap(lambda x: x, w))
        ctx.check(d is None, f"{what}: {n}: {d}")
    ctx.count("fields_compared", len(want))


def windows(ctx, s, want, eps_given=True):
    """Every class loaded from the state shows what the state has."""
    made = dict(controller=lambda: ACT_Controller.load(s), viewer=lambda: ACTViewer.load(s), builder=lambda: ControllerBuilder(s),
                editor=lambda: TensorEditor.edit_save(s, "silence"), strict=lambda: TensorEditor.edit_save(s))
    made["viewer of the controller"] = lambda: ACT_Controller.load(s).make_viewer()
    made["editor of the controller"] = lambda: TensorEditor.edit_controller(ACT_Controller.load(s), "silence")
    made["controller of the builder"] = lambda: ControllerBuilder(s).build()
    made["controller of the editor"] = lambda: TensorEditor.edit_save(s).build()
    made["viewer of the save of a viewer"] = lambda: ACTViewer.load(ACTViewer.load(s).save())
    for what, f in made.items():
        with ctx.subject(what):
            o = f()
            got = {n: getattr(o, n) for n in ("probabilities", "residuals", "iterations", "accumulators", "defaults", "updates") if hasattr(type(o), n)}
            rest = {n: getattr(o, n) for n in ("epsilon", "depression_constant") if hasattr(type(o), n)}
            saved = have((o if hasattr(o, "save") else o.build()).save())
            thr = o.halt_threshold if hasattr(type(o), "halt_threshold") else None
            items = {n: o[n] for n in want["accumulators"]} if isinstance(o, ACT_Controller) else None
        ctx.check(len(got) == (6 if not isinstance(o, ACT_Controller) else len(got)), f"a {what} shows only {sorted(got)}")
        agree(ctx, got, {n: want[n] for n in got}, f"what a {what} shows")
        agree(ctx, rest, {n: want[n] for n in rest}, f"what a {what} shows")
        agree(ctx, saved, want, f"the save of a {what}")
        if thr is not None:
            t = 1 - float(want["epsilon"])
            ctx.check(abs(float(thr) - t) <= 4e-7, f"the threshold of a {what} is {float(thr)!r} with epsilon {want['epsilon']!r}")
        if items is not None:
            for n in ("absent", "", "updates", None, 0):
                if n not in want["accumulators"]:
                    ctx.raises(f"indexing a {what} with {n!r}, which is not defined", KeyError, lambda: o[n])
            agree(ctx, dict(items=items), dict(items={n: want["accumulators"][n] for n in items}), f"what indexing a {what} gives")
        ctx.count("windows_opened")


def other_values(rng, c, s, chosen, odd):
    """Something else for the chosen fields."""
    kw = {}
    n = c.bshape
    for f in chosen:
        zero = rng.random() < 0.25      # also what counts as false
        if f == "epsilon":
            kw[f] = 0.0 if zero else pick(rng, [0.5, 0.125, 1e-3, 0.2] if not odd else [-0.5, 1.5, 2.0, -1e-3, 1.0, 1e-30, 100.0])
        elif f == "depression_constant":
            kw[f] = 0.0 if zero else pick(rng, [0.5, 2.0, 1.0, 0.3] if not odd else [-0.5, 1e6, 1e-30, -2.0])
        elif f == "iterations":
            kw[f] = jnp.asarray(np.asarray(rng.integers(0, 1 if zero else 9, n)), dtype=c.core)
            if odd:
                kw[f] = jnp.asarray(np.asarray(rng.choice([0.5, -1.0, -0.0, 2000, np.nan, np.inf], n)), dtype=c.core)
        elif f in ("residuals", "probabilities"):
            kw[f] = jnp.asarray(np.asarray(rng.integers(0, 1 if zero else 9, n) / 8.0), dtype=c.core)
            if odd:
                kw[f] = jnp.asarray(np.asarray(rng.choice([0.5, 1.5, -1.0, -0.0, np.nan, np.inf, -np.inf, 1e-6, 3.0], n)), dtype=c.core)
        else:
            old = getattr(s, f)
            if f == "updates":
                kw[f] = {m: (update_tree(rng, c, m) if rng.random() < 0.5 else None) for m in old}
            else:
                kw[f] = {m: start_tree(rng, c.specs[m], "zeros" if zero else "normal") for m in old}
    return kw


def episode(ctx, c, rng, e):
    with ctx.other("building"):
        k = build(rng, c)
        for t in range(int(rng.integers(0, c.T))):
            k = step(k, halting(rng, c, pick(rng, HPATTERNS)), {n: update_tree(rng, c, n) for n in c.names})
            if rng.random() < 0.2:
                k = k.reset_batches()
        pending = [n for n in c.names if rng.random() < 0.3]
        for n in pending:
            k = k.cache_update(n, update_tree(rng, c, n))
        s = k.save()
    want = have(s)
    agree(ctx, fields(k), want, "the state of the controller")
    before = tr.tree_bits(want)
    windows(ctx, s, want)
    for _ in range(3):
        chosen = [n for n in NAMES_ if rng.random() < pick(rng, [0.15, 0.5, 0.9])]
        if rng.random() < 0.2:
            chosen = [pick(rng, NAMES_)]
        odd = rng.random() < 0.2        # numbers which no process would have
        kw = other_values(rng, c, s, chosen, odd)
        mode = pick(rng, [None, None, "standard", "silence"])
        extra = {} if mode is None else dict(error_mode=mode)
        with ctx.subject(f"replace of {chosen}"):
            new = s.replace(**kw, **extra)
        ctx.check(isinstance(new, ACTStates), f"replace gives a {type(new).__name__}")
        wanted = {**have(s), **kw}
        agree(ctx, have(new), wanted, f"after replacing {chosen}")
        ctx.check(tr.tree_bits(have(s)) == before, f"replacing {chosen} changed the state itself")
        ctx.check(new.error_mode == (mode if mode is not None else s.error_mode), f"error mode {new.error_mode!r} after replacing {chosen} and error mode {mode!r} of {s.error_mode!r}")
        ctx.count("replacements")
        ctx.seen(tuple(chosen), c.batch, str(c.core), len(c.names))
        # in two steps, in either order, and by position
        cut = [n for n in chosen if rng.random() < 0.5]
        a, b = {n: kw[n] for n in cut}, {n: kw[n] for n in chosen if n not in cut}
        with ctx.subject("replacing in steps"):
            steps_ = {"in two steps": s.replace(**a).replace(**b, **extra), "the other way round": s.replace(**b, **extra).replace(**a),
                      "again with nothing": new.replace(), "by identity": jax.tree_util.tree_map(lambda x: x, new),
                      "copied": copy.deepcopy(new), "pickled": pickle.loads(pickle.dumps(new))}
        for what, x in steps_.items():
            agree(ctx, have(x), wanted, f"replacing {chosen} {what}")
            ctx.check(x.error_mode == new.error_mode, f"error mode {x.error_mode!r} instead of {new.error_mode!r} when replacing {what}")
        if not has_f16(c) and rng.random() < 0.5:
            with ctx.subject("a compiled replace"):
                arrays = {n: v for n, v in kw.items() if n not in ("epsilon", "depression_constant")}
                x = jax.jit(lambda s, kw: s.replace(**kw))(s, arrays)
            for n in ("iterations", "residuals", "probabilities", "defaults", "accumulators", "updates"):
                agree(ctx, {n: getattr(x, n)}, {n: {**have(s), **arrays}[n]}, f"after replacing {sorted(arrays)} in compiled code")
            ctx.count("compiled_replacements")
        paths(ctx, new)
        if rng.random() < 0.5:
            windows(ctx, new, wanted)
        if odd:
            ctx.count("states_with_numbers_of_no_process")
            continue
        follow(ctx, c, rng, s, kw)
        if rng.random() < 0.4:
            s, before = new, tr.tree_bits(have(new))
    ctx.sample(config=ctx.note["config"], pending=pending)


def has_f16(c):
    return any(str(l.dtype) == "float16" for nm in c.names for sp in (c.specs, c.uspecs) for _, l in tr.leaves(sp[nm])) or c.core == F16


def paths(ctx, s):
    """The path of a leaf of a state begins with the name of its field."""
    with ctx.subject("tree_flatten_with_path of a state"):
        got = jax.tree_util.tree_flatten_with_path(s)[0]
    seen = {}
    for path, leaf in got:
        seen.setdefault(name_of(path[0]), []).append(leaf)
    for n in NAMES_:
        want = jax.tree_util.tree_leaves(getattr(s, n))
        have_ = seen.pop(n, [])
        ctx.check([tr.bits(x) for x in have_] == [tr.bits(x) for x in want], f"the paths of a state find {len(have_)} leaves under {n!r}, not its {len(want)}")
    ctx.check(not seen, f"leaves of a state have paths {sorted(map(str, seen))}")
    ctx.count("paths_walked", len(got))


def name_of(key):
    for a in ("name", "key"):
        if hasattr(key, a):
            return getattr(key, a)
    return key


def follow(ctx, c, rng, s, kw):
    """A process continued from a replaced state is the one continued from an edited controller."""
    clean = {n: None for n in c.names}
    kw = {n: v for n, v in kw.items() if n not in ("updates", "depression_constant")}
    ups = {n: update_tree(rng, c, n) for n in c.names}
    h = halting(rng, c, pick(rng, ["uniform", "spike", "ones"]))
    with ctx.subject("continuing from a replaced state"):
        a = ACT_Controller.load(s.replace(updates=clean, **kw))
    with ctx.other("editing"):
        ed = TensorEditor.edit_save(s.replace(updates=clean), "silence")
        for n, v in kw.items():
            if n in ("accumulators", "defaults"):
                for m, t in v.items():
                    ed = (ed.set_accumulator if n == "accumulators" else ed.set_defaults)(m, t)
            else:
                ed = getattr(ed, "set_" + n)(v)
        b = ed.build()
    with ctx.subject("continuing from a replaced state"):
        x, y = [step(k, h, ups).reset_batches() for k in (a, b)]
        fx, fy = have(x.save()), have(y.save())
    agree(ctx, fx, fy, f"a process continued after replacing {sorted(kw)}, against the same values set by the editor")
    ctx.count("continued")
