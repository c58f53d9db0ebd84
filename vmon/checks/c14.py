"""Invalid edits are refused, valid ones accepted, eagerly and jitted under checkify."""
from vmon.checks._prog import *  # noqa
from vmon.checks.c13 import start, like, num
from vmon.probe import snap
from src.jax_act.core import utils


def make(ctx, rng, b):
    c = config(rng, ctx.x64, b, naccs=int(rng.integers(1, 4)))
    half = c.core == F16 or any(l.dtype == F16 for n in c.names for _, l in tr.leaves(c.specs[n]))
    c.can_jit = not half
    c.T = 14
    ctx.note["config"] = describe(c)
    return c


def up(dt, x):
    """The next value of the dtype above x (away from zero for 1, tiny below for 0)."""
    if x == 1.0:
        return 1.0 + tr.feps(dt)
    return -tr.ftiny(dt) if jnp.dtype(dt) != F16 else -2.0 ** -14


def one_element(rng, c, base, bad):
    v = np.array(base, dtype=np.float64)
    if v.ndim == 0:
        v = np.asarray(bad, dtype=np.float64)
    else:
        v.reshape(-1)[int(rng.integers(v.size))] = bad
    return jnp.asarray(v, dtype=c.core)


def other_dtype(rng, dt):
    return pick(rng, [d for d in (F32, F16, BF16, np.dtype("int32")) if d != jnp.dtype(dt)])


def other_shape(rng, shape):
    s = list(shape)
    cands = [s + [1], s + [2], [1] + s]
    if s:
        cands += [s[:-1], s[1:], s[:-1] + [s[-1] + 1], [s[0] + 1] + s[1:]]
        if s[-1] != 1:
            cands += [s[:-1] + [1]]
        if s[::-1] != s:
            cands += [s[::-1]]
    return tuple(pick(rng, cands))


def tensor_case(rng, c, field):
    """(valid?, value, kind) for probabilities, residuals, iterations"""
    size = int(np.prod(c.bshape))
    base = rng.random(c.bshape) if field != "iterations" else rng.integers(0, 9, c.bshape) * 1.0
    r = int(rng.integers(10))
    if r < 3 or not size and r < 6:
        kind = pick(rng, ["random", "zeros", "ones", "edges"])
        v = {"random": base, "zeros": np.zeros(c.bshape), "ones": np.ones(c.bshape),
             "edges": np.asarray(rng.choice([0.0, -0.0, 1.0, 0.5], c.bshape))}[kind]
        return True, jnp.asarray(np.asarray(v), dtype=c.core), "valid " + kind
    if r < 7 and size:
        if field == "iterations":
            bad = pick(rng, [-1.0, up(c.core, 0.0), -np.inf, -0.5, -3.0])
        else:
            bad = pick(rng, [up(c.core, 1.0), up(c.core, 0.0), 2.0, -1.0, np.inf, -np.inf, np.nan, 1.5, -0.25])
        return False, one_element(rng, c, base, bad), f"value {bad}"
    if r < 9:
        s = other_shape(rng, c.bshape)
        return False, jnp.asarray(np.zeros(s), dtype=c.core), f"shape {s}"
    dt = other_dtype(rng, c.core)
    return False, jnp.asarray(np.zeros(c.bshape), dtype=dt), f"dtype {dt}"


def epsilon_case(rng, c, jitted):
    tiny = 1e-9 if not jitted else 1e-3
    bad = [-tiny, 1 + tiny, -0.5, 2.0, float("inf"), -float("inf"), float("nan"), -1.0]
    if rng.random() < 0.5:
        return True, float(pick(rng, [0.0, 1.0, 0.5, 1e-7, 1 - 1e-7, rng.random()])), "valid"
    v = pick(rng, bad)
    return False, v, f"value {v}"


def restructure(rng, t):
    """Trees of another structure than t."""
    ls = tr.leaves(t)
    path, leaf = ls[int(rng.integers(len(ls)))]
    cands = [("leaf became a list", tr.set_at(t, path, [leaf])), ("wrapped in a tuple", (t,)), ("wrapped in a dict", {"x": t}),
             ("leaf became two", tr.set_at(t, path, (leaf, leaf)))]
    if isinstance(t, dict):
        ks = sorted(t)
        cands += [("key added", dict(t, extra=leaf)), ("key removed", {k: t[k] for k in ks[1:]} or [leaf, leaf]),
                  ("key renamed", {("zz" if k == ks[-1] else k): t[k] for k in ks}), ("dict became a list", [t[k] for k in ks])]
    elif tr.is_nt(t):
        cands += [("named tuple became a tuple", tuple(t)), ("named tuple became a list", list(t))]
    elif isinstance(t, list):
        cands += [("list became a tuple", tuple(t)), ("item added", t + [leaf]), ("item removed", t[:-1])]
    elif isinstance(t, tuple):
        cands += [("tuple became a list", list(t)), ("item added", t + (leaf,)), ("item removed", t[:-1])]
    return pick(rng, cands)


def tree_case(rng, c, nm):
    t = like(rng, c, nm)
    r = int(rng.integers(8))
    ls = tr.leaves(t)
    path, leaf = ls[int(rng.integers(len(ls)))]
    at = f"leaf {path} of {len(ls)}"
    if r < 3:
        return True, t, "valid"
    if r == 3:
        desc, t2 = restructure(rng, t)
        return False, t2, "structure: " + desc
    if r == 4:
        return False, tr.set_at(t, path, None), f"missing {at}"
    if r == 5 or r == 6:
        s = other_shape(rng, leaf.shape)
        return False, tr.set_at(t, path, jnp.asarray(np.zeros(s), dtype=leaf.dtype)), f"{at} has shape {s}, not {leaf.shape}"
    dt = other_dtype(rng, leaf.dtype)
    return False, tr.set_at(t, path, jnp.asarray(np.zeros(leaf.shape), dtype=dt)), f"{at} has dtype {dt}, not {leaf.dtype}"


def case(rng, c, k, jitted=False):
    """(valid, setter(editor, value), value, description, about_a_name)"""
    f = pick(rng, ["set_probabilities", "set_residuals", "set_iterations", "set_epsilon", "set_accumulator", "set_defaults",
                   "set_updates", "set_accumulator", "set_defaults", "set_updates"])
    if f == "set_epsilon":
        valid, v, d = epsilon_case(rng, c, jitted)
        return valid, (lambda ed, x: ed.set_epsilon(x)), v, f"{f}: {d}", False
    if f in ("set_probabilities", "set_residuals", "set_iterations"):
        valid, v, d = tensor_case(rng, c, f[4:])
        return valid, (lambda ed, x: getattr(ed, f)(x)), v, f"{f}: {d}", False
    nm = pick(rng, c.names)
    if rng.random() < 0.12:
        bad = pick(rng, ["undefined", nm + " ", nm.upper() + "x", "0x", "state2", None, 3, "{}", "{0}"])
        if bad in c.names:
            bad = nm + " and more"
        t = like(rng, c, nm) if rng.random() < 0.8 or f != "set_updates" else None
        return False, (lambda ed, x: getattr(ed, f)(bad, x)), t, f"{f}: undefined name {bad!r}", True
    valid, v, d = tree_case(rng, c, nm)
    if f == "set_updates" and (v is None or rng.random() < 0.15):
        valid, v, d = True, None, "valid None"
    return valid, (lambda ed, x: getattr(ed, f)(nm, x)), v, f"{f}({nm!r}): {d}", False


def hosted(ctx, rng, v):
    """The value as it comes out of a stored checkpoint: NumPy arrays, and numbers of NumPy."""
    if v is None or rng.random() < 0.65:
        return v
    ctx.count("values_of_numpy")
    if isinstance(v, float):
        return pick(rng, [np.float64, np.asarray])(v)
    return tr.tmap(lambda x: np.asarray(x) if hasattr(x, "dtype") else x, v)


def episode(ctx, c, rng, e):
    k = start(ctx, c, rng)
    before = tr.tree_bits(snap(k))
    for t in range(c.T if not ctx.thorough else 2 * c.T):
        valid, f, v, desc, name = case(rng, c, k)
        v = hosted(ctx, rng, v)
        k0 = k
        if not valid and not name and v is not None and rng.random() < 0.5:      # setting what is pending already, though it is not valid
            nm = [n for n in c.names if desc.startswith(f"set_updates({n!r}): ")]
            if nm and k.make_viewer().updates[nm[0]] is None:
                with ctx.other("caching what does not fit"):
                    try:
                        k0 = k.cache_update(nm[0], v)
                    except (ValueError, RuntimeError, TypeError):
                        k0 = k
                ctx.count("set_to_what_is_pending", int(k0 is not k))
        with ctx.other("opening an editor"):
            # the mode may come out of a configuration: a string which is equal to the library's, but another object
            mode = pick(rng, ["standard", "".join(["stan", "dard"]), str(np.asarray("standard"))])
            ed = TensorEditor.edit_controller(k0) if rng.random() < 0.5 else TensorEditor.edit_save(k0.save(), mode)
            if rng.random() < 0.2:
                ed = TensorEditor.edit_controller(k0, mode)
        w = dict(value=tr.short(v))
        if valid:
            with ctx.subject(f"a valid edit ({desc})"):
                f(ed, v)
            ctx.count("valid_accepted")
        else:
            ctx.raises(f"an invalid edit ({desc})", Exception, lambda: f(ed, v), **w)
            ctx.count("invalid_refused")
        ctx.count("edit: " + desc.split(":")[0].split("(")[0])
        ctx.seen(desc, c.batch, str(c.core))
        if not name:
            with ctx.subject(f"the edit ({desc}) in silence mode"):
                TensorEditor.edit_controller(k, "silence") if t % 5 == 0 else None
                f(TensorEditor.edit_save(k.save(), "silence"), v)
            ctx.count("silent_edits")
    if c.can_jit:
        for _ in range(2):
            jitted(ctx, c, rng, k)
    bad = pick(rng, ["", "Standard", "debug", "checkify", None, 1, "standard ", "SILENCE", b"standard", True])
    ctx.raises(f"error mode {bad!r} for edit_controller", ValueError, lambda: TensorEditor.edit_controller(k, bad))
    ctx.raises(f"error mode {bad!r} for edit_save", ValueError, lambda: TensorEditor.edit_save(k.save(), bad))
    ctx.count("modes_refused")
    ctx.check(tr.tree_bits(snap(k)) == before, "refused edits changed the controller")
    ctx.sample(config=ctx.note["config"])


def jitted(ctx, c, rng, k):
    valid, f, v, desc, _ = case(rng, c, k, True)
    v = hosted(ctx, rng, v)
    how = int(rng.integers(5))     # arguments by position or by name
    edit = utils.jit_and_checkify(lambda q, x: f(TensorEditor.edit_controller(q), x).build())
    turned = utils.jit_and_checkify(lambda value, controller: f(TensorEditor.edit_controller(controller), value).build())
    g = [edit, lambda q, x: edit(q, x=x), lambda q, x: edit(x=x, q=q), lambda q, x: turned(x, controller=q),
         lambda q, x: turned(value=x, controller=q)][how]
    if valid:
        with ctx.subject(f"a valid edit under jit and checkify ({desc})"):
            out = g(k, v)
            jax.block_until_ready(out.probabilities)
    else:
        ctx.raises(f"an invalid edit under jit and checkify ({desc})", Exception, lambda: g(k, v), value=tr.short(v))
    # the same compiled function decides by value: another value of the same shape
    ctx.count("jitted_verdicts")
    ctx.seen("jit", desc, c.batch)
    if desc.startswith(("set_probabilities: value", "set_residuals: value", "set_iterations: value")):
        good = jnp.asarray(np.asarray(rng.integers(0, 2, c.bshape) * 1.0), dtype=c.core)
        with ctx.subject(f"a valid edit, compiled before for an invalid value ({desc})"):
            g(k, good)
        ctx.count("recompiled_verdicts")
