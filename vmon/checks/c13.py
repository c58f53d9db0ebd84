"""Chains of valid edits against a model of the fields."""
from vmon.checks._prog import *  # noqa
from vmon.probe import snap
from src.jax_act.core import utils


def make(ctx, rng, b):
    c = config(rng, ctx.x64, b, naccs=int(rng.integers(1, 4)))
    c.jit = b % 4 == 3 and c.core != F16 and not any(l.dtype == F16 for n in c.names for _, l in tr.leaves(c.specs[n]))
    ctx.note["config"] = describe(c)
    return c


def start(ctx, c, rng):
    """A controller in the middle of a process, possibly with pending updates."""
    with ctx.other("preparing a controller"):
        k = build(rng, c)
        for s in program(rng, c, int(rng.integers(0, 4)), kind="normal"):
            k = step(k, s["h"], s["ups"], s["order"])
        if rng.random() < 0.5:
            for nm in c.names:
                if rng.random() < 0.6:
                    k = k.cache_update(nm, like(rng, c, nm))
    return k


def like(rng, c, nm):
    return tr.tmap(lambda l: special(rng, rand_values(rng, l.shape, l.dtype), l.dtype), c.specs[nm])


def special(rng, v, dt):
    if rng.random() < 0.25 and v.size:
        a = np.array(v)
        a.reshape(-1)[int(rng.integers(a.size))] = pick(rng, [np.nan, np.inf, -np.inf, -0.0])
        return jnp.asarray(a, dtype=dt)
    return v


def prob(rng, c):
    k = int(rng.integers(4))
    v = rng.random(c.bshape)
    if k == 0:
        v = np.zeros(c.bshape)
    elif k == 1:
        v = np.ones(c.bshape)
    elif k == 2:
        v = rng.integers(0, 2, c.bshape) * 1.0
    return jnp.asarray(np.asarray(v), dtype=c.core)


def beside(rng, x):
    """A value next to the present one, but not the same."""
    a = np.array(x)
    if not a.size or a.dtype.kind != "f" and str(a.dtype) != "bfloat16":
        return None
    f = a.astype(np.float64).reshape(-1)
    i = int(rng.integers(f.size))
    if not np.isfinite(f[i]):
        return None
    f[i] = 1e-7 if f[i] == 0 else f[i] * (1 - tr.feps(x.dtype))
    out = jnp.asarray(f.reshape(a.shape), dtype=x.dtype)
    return None if tr.same_bits(out, x) else out


def rand_edit(rng, c, model=None, own=None):
    """(description, setter(editor, value), value, model update)"""
    kind = pick(rng, ["probabilities", "residuals", "iterations", "epsilon", "accumulator", "defaults", "updates", "updates"])
    if kind in ("probabilities", "residuals"):
        v = prob(rng, c)
    elif kind == "iterations":
        v = jnp.asarray(np.asarray(pick(rng, [rng.integers(0, 50, c.bshape) * 1.0, np.zeros(c.bshape), rng.random(c.bshape) * 3])), dtype=c.core)
    elif kind == "epsilon":
        v = float(pick(rng, [0.0, 1.0, 0.5, 1e-6, 0.3, 1 - 1e-6, rng.random()]))
    else:
        nm = pick(rng, c.names)
        v = like(rng, c, nm)
        if model is not None and rng.random() < 0.3:
            now = model[dict(accumulator="accumulators", defaults="defaults").get(kind, "accumulators")][nm]
            close = tr.tmap(lambda x: beside(rng, x) if rng.random() < 0.5 else None, now)
            v = tr.tmap2(lambda x, w: jnp.asarray(x) if w is None else w, now, close)
        if kind == "updates" and rng.random() < 0.4:
            v = None
        if own is not None and rng.random() < 0.25:       # the very objects the editor has, perhaps at another place
            have = [x for x in (own.defaults[nm], own.accumulators[nm], own.updates[nm]) if x is not None]
            v = pick(rng, have)
            if kind != "updates" and own.updates[nm] is v or tr.skeleton(v) != tr.skeleton(own.accumulators[nm]):
                v = own.defaults[nm]
        f = dict(accumulator="set_accumulator", defaults="set_defaults", updates="set_updates")[kind]
        key = dict(accumulator="accumulators", defaults="defaults", updates="updates")[kind]

        def upd(m, nm=nm, v=v, key=key):
            m[key] = dict(m[key])
            m[key][nm] = num(v)
        return f"{f}({nm!r})", (lambda ed, x, f=f, nm=nm: getattr(ed, f)(nm, x)), v, upd

    if model is not None and rng.random() < 0.25:      # nearly what is there
        w = model[kind] * (1 - 1e-7) if kind == "epsilon" and model[kind] else None if kind == "epsilon" else beside(rng, model[kind])
        v = v if w is None else w
    if own is not None and kind != "epsilon" and rng.random() < 0.15:
        w = pick(rng, [own.probabilities, own.residuals])
        v = w if w.size and float(w.min()) >= 0 and float(w.max()) <= 1 else v

    def upd(m, kind=kind, v=v):
        m[kind] = num(v)
    return f"set_{kind}", (lambda ed, x, kind=kind: getattr(ed, "set_" + kind)(x)), v, upd


def num(t):
    return tr.tmap(lambda x: np.asarray(x) if hasattr(x, "dtype") else x, t)


def judge(ctx, o, model, what, exact_eps=True, **w):
    got = snap(o)
    for key in model:
        if key in ("epsilon", "depression_constant"):
            a, b = float(got[key]), float(model[key])
            ok = a == b if exact_eps else abs(a - b) <= 2e-7 * abs(b)
            ctx.check(ok, f"{key} is {a}, not {b}, {what}", **w)
        else:
            ctx.same(tr.diff_tree(got[key], model[key]), f"{key} is not what was set {what}", **w)
    ctx.count("states_judged")


def episode(ctx, c, rng, e):
    k = start(ctx, c, rng)
    if c.jit and e == 0:
        return traced(ctx, c, rng, k)
    mode = pick(rng, ["standard", "silence"])
    model = dict(snap(k))
    with ctx.subject("opening an editor"):
        how = int(rng.integers(3))
        ed = TensorEditor.edit_controller(k, mode) if how == 0 else TensorEditor.edit_save(k.save(), mode)
        if how == 2:
            ed = TensorEditor.edit_save(ed.save().replace(), mode)
    judge(ctx, ed, model, "after opening an editor")
    log = []
    for t in range(int(rng.integers(1, 9))):
        desc, f, v, upd = rand_edit(rng, c, model, ed if rng.random() < 0.5 else None)
        log.append(desc)
        if v is not None and rng.random() < 0.2:      # as it comes out of a stored checkpoint
            v = np.float64(v) if isinstance(v, float) else num(v)
            ctx.count("values_of_numpy")
        with ctx.subject(f"a valid edit {desc} in {mode} mode"):
            ed = f(ed, v)
        upd(model)
        w = dict(log=log, value=tr.short(v))
        judge(ctx, ed, model, f"after {desc} in {mode} mode", **w)
        ctx.check(ed.error_mode == mode, f"the error mode {mode} became {ed.error_mode} after {desc}", **w)
        ctx.count("edits")
        ctx.count("edit: " + desc.split("(")[0])
        ctx.seen(desc, mode, c.batch, str(c.core), t, tr.skeleton(c.starts))
        if rng.random() < 0.3:
            with ctx.subject("reading the editor"):
                props = dict(epsilon=ed.epsilon, probabilities=ed.probabilities, residuals=ed.residuals, iterations=ed.iterations,
                             defaults=ed.defaults, accumulators=ed.accumulators, updates=ed.updates)
            for key, got in props.items():
                ctx.same(tr.diff_tree(num(got) if key != "epsilon" else float(got),
                                      model[key] if key != "epsilon" else float(model[key])), f"property {key} of the editor")
        if rng.random() < 0.5:
            with ctx.subject("build"):
                judge(ctx, ed.build(), model, f"in the controller built after {desc}", **w)
            ctx.check(isinstance(ed.build(), ACT_Controller), "build does not give a controller")
        if rng.random() < 0.25:      # a controller or save in between, perhaps edited in another mode than before
            mode = pick(rng, [mode, "standard", "silence"])
            log.append("reopened in mode " + mode)
            with ctx.subject("reopening"):
                k2 = int(rng.integers(4))
                ed = TensorEditor.edit_controller(ed.build(), mode) if k2 < 2 else \
                    TensorEditor.edit_save(ed.save() if k2 == 2 else ed.build().save(), mode)
            ctx.check(ed.error_mode == mode, f"an editor opened in mode {mode} is in mode {ed.error_mode}", log=log)
            judge(ctx, ed, model, "after reopening", log=log)
            ctx.count("reopened")
        if rng.random() < 0.15:
            refuses(ctx, c, rng, ed, mode, log)
    with ctx.subject("build"):
        out = ed.build()
    judge(ctx, out, model, "in the built controller", log=log)
    judge(ctx, ed.save(), model, "in the save", log=log)
    ctx.check(type(out) is ACT_Controller, f"build gives a {type(out)}")
    ctx.sample(config=ctx.note["config"], log=log, mode=mode)


def refuses(ctx, c, rng, ed, mode, log):
    """The mode an editor is in shows in what it does."""
    bad = pick(rng, [lambda: ed.set_epsilon(2.0), lambda: ed.set_probabilities(jnp.full(c.bshape, 1.5, c.core)),
                     lambda: ed.set_iterations(jnp.full(c.bshape, -1.0, c.core))])
    if not int(np.prod(c.bshape)):
        bad = lambda: ed.set_epsilon(2.0)
    try:
        bad()
        refused = False
    except Exception:
        refused = True
    ctx.check(refused == (mode == "standard"), f"an invalid edit was {'refused' if refused else 'accepted'} in {mode} mode", log=log)
    ctx.count("modes_observed")


def traced(ctx, c, rng, k):
    """A chain of edits inside jit (silence) or jit with checkify (standard)."""
    mode = pick(rng, ["standard", "silence"])
    chain = [rand_edit(rng, c) for _ in range(3)]
    model = dict(snap(k))
    for _, _, _, upd in chain:
        upd(model)

    def f(k, vals):
        ed = TensorEditor.edit_controller(k, mode)
        for (_, g, _, _), v in zip(chain, vals):
            ed = g(ed, v)
        return ed.build()
    wrap = utils.jit_and_checkify if mode == "standard" else jax.jit
    desc = [d for d, *_ in chain]
    with ctx.subject(f"a chain of valid edits {desc} under jit in {mode} mode"):
        out = wrap(f)(k, [v for _, _, v, _ in chain])
    judge(ctx, out, model, f"after {desc} under jit in {mode} mode", exact_eps=False)
    ctx.count("traced_chains")
    ctx.seen("traced", tuple(desc), mode)
