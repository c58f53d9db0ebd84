"""Nothing left behind: tracer leaks, retained objects and tensors, and effects outside the objects."""
import atexit
import builtins
import contextlib
import decimal
import gc
import io
import locale
import logging
import os
import random
import signal
import sys
import threading
import warnings
import weakref
from vmon.checks._prog import *  # noqa
from vmon import chain
from vmon.checks.c16 import has_half
from src.jax_act import ACTStates


BASE = {}


def make(ctx, rng, b):
    if not BASE:            # before anything of the code under test has run in this process
        BASE.update(world())
    kind = ["leaks", "retained", "effects", "leaks", "retained", "effects", "leaks"][(b + b // 8) % 7]
    kw = dict(core=pick(rng, [None, F32, BF16]), leaf_dtypes=[F32, F32, BF16]) if kind == "leaks" else {}
    c = config(rng, ctx.x64, b, naccs=int(rng.integers(1, 4)), leafless=0.05, **kw)
    c.kind = kind
    for nm in c.names if kind == "leaks" else ():
        c.uspecs[nm] = c.specs[nm]
    if has_half(c) and c.kind == "leaks":
        c.kind = "effects"
    c.n = 12
    ctx.note["config"] = describe(c) + f" {c.kind}"
    return c


def episode(ctx, c, rng, e):
    dict(leaks=leaks, retained=retained, effects=effects)[c.kind](ctx, c, rng)
    ctx.sample(config=ctx.note["config"])


def leaks(ctx, c, rng):
    """Every kind of tracing with the tracer leak checker on."""
    from vmon.checks.c09 import op_table
    with ctx.other("building"):
        ctrl = build(rng, c)
        prog = program(rng, c, 3)
        table = op_table(ctx, c, rng, ctrl, prog)
    names = list(table)
    rng.shuffle(names)
    for nm in names[:4]:
        f, args = table[nm]
        with ctx.subject(f"tracing {nm} with the leak checker on"):
            with jax.checking_leaks():
                jax.jit(f)(*args)
        ctx.count("traced_with_leak_checker")
        ctx.seen("leak", nm, c.batch, str(c.core), tr.skeleton(c.starts))
    mode = pick(rng, ["scan", "while", "act", "vmap", "grad", "edit"])
    with ctx.subject(f"tracing ({mode}) with the leak checker on"):
        with jax.checking_leaks():
            if mode == "vmap":
                k2 = jax.tree_util.tree_map(lambda x: jnp.stack([jnp.asarray(x)] * 2), ctrl)
                jax.vmap(lambda k: step(k, prog[0]["h"], prog[0]["ups"]).reset_batches())(k2)
            elif mode == "grad":
                def loss(h):
                    k = step(ctrl, h, prog[0]["ups"])
                    return jnp.sum(k.residuals) + jnp.sum(k.probabilities)
                jax.grad(loss)(prog[0]["h"].astype(c.core))
            elif mode == "edit":
                v = jnp.full(c.bshape, 0.25, c.core)
                jax.jit(lambda k, v: TensorEditor.edit_controller(k, "silence").set_probabilities(v).set_iterations(v * 4).build())(ctrl, v)
            else:
                MODES[mode](c, ctrl, [dict(s, reset=False) for s in prog])
    ctx.count("traced_with_leak_checker")
    ctx.count("leak mode: " + mode)


KIND = (ACT_Controller, ACTViewer, ControllerBuilder, TensorEditor, ACTStates)


def alive():
    gc.collect()
    n = {}
    for o in gc.get_objects():
        try:
            if isinstance(o, KIND):
                n[type(o).__name__] = n.get(type(o).__name__, 0) + 1
        except ReferenceError:
            pass
    return n


def retained(ctx, c, rng):
    """A history whose results are all dropped, several times: nothing may accumulate."""
    sub = np.random.default_rng(int(rng.integers(1 << 31)))
    with ctx.other("building"):
        names = []

        def once(refs):
            r = np.random.default_rng(7)
            ctrl = build(sub, c)
            b = ControllerBuilder(ctrl.save())
            ch = chain.steps(c, sub, c.n, heavy=0.0)
            names[:] = [n for n, _ in ch]
            env = dict(k=ctrl, b=b)
            for _, f in ch:
                out = f(env)
                for o in out if isinstance(out, tuple) and not tr.is_nt(out) else (out,):
                    if isinstance(o, KIND):
                        refs.append(weakref.ref(o))
                    if isinstance(o, (ACT_Controller, ACTViewer)):
                        refs += [weakref.ref(x) for x in jax.tree_util.tree_leaves(o) if isinstance(x, jax.Array)]
            tr.leaves(())
            c.starts = None
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            once([])            # caches of jax fill
    base = alive()
    arrays = []
    for i in range(3):
        refs = []
        with ctx.other("the history"):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                once(refs)
        gc.collect()
        left = [r() for r in refs]
        left = [type(o).__name__ + (str(o.shape) if hasattr(o, "shape") else "") for o in left if o is not None]
        ctx.check(not left, f"{len(left)} of {len(refs)} dropped objects and tensors are still alive", left=left[:10], operations=names)
        ctx.count("dropped_objects_judged", len(refs))
        now = alive()
        ctx.check(now == base, "objects accumulate although all were dropped", before=base, after=now, operations=names)
        arrays.append(len(jax.live_arrays()))
    ctx.check(not arrays[0] < arrays[1] < arrays[2], "tensors accumulate although all were dropped", live=arrays, operations=names)
    ctx.count("histories_dropped", 3)
    ctx.seen("retained", tuple(names), c.batch, str(c.core))


EVENTS = []
SETTINGS = [(type(jax.config), "update"), (warnings, "simplefilter"), (warnings, "filterwarnings"), (warnings, "resetwarnings"), (np, "seterr"),
            (np, "set_printoptions"), (np.random, "seed"), (random, "seed"), (gc, "disable"), (gc, "enable"), (sys, "setrecursionlimit"),
            (sys, "setswitchinterval")]


@contextlib.contextmanager
def settings_watched():
    """Records calls that change settings of the process, also those to the value they already have."""
    def spy(owner, name, old):
        def f(*a, **k):
            where = sys._getframe(1).f_code.co_filename
            if os.path.realpath(where).startswith(os.path.realpath(boot.REPO) + os.sep):
                EVENTS.append((name, repr(a[1:] if isinstance(owner, type) else a)[:200], where))
            return old(*a, **k)
        return f
    olds = [(o, n, getattr(o, n)) for o, n in SETTINGS]
    for o, n, f in olds:
        setattr(o, n, spy(o, n, f))
    try:
        yield
    finally:
        for o, n, f in olds:
            setattr(o, n, f)
RECORDING = [False]


STDLIB = os.path.dirname(os.path.realpath(os.__file__)) + os.sep


def asked_by_subject():
    """Whether the code under test asked for the file, by itself or through the standard library."""
    f = sys._getframe(2)
    while f is not None:
        name = f.f_code.co_filename
        if os.path.basename(name) in ("linecache.py", "inspect.py", "traceback.py", "tokenize.py", "tracemalloc.py", "warnings.py") or "importlib" in name:
            return False
        if not name.startswith("<") and (not os.path.realpath(name).startswith(STDLIB) or "site-packages" in name):
            return os.path.realpath(name).startswith(os.path.realpath(boot.REPO) + os.sep)
        f = f.f_back
    return False


def hook(event, args):
    if not RECORDING[0]:
        return
    if event == "open":
        mode, flags = args[1], args[2]
        if (isinstance(mode, str) and any(x in mode for x in "wax+")) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
            EVENTS.append((event, str(args[0]), str(mode)))
        elif asked_by_subject():
            EVENTS.append(("read", str(args[0])))
    elif event == "_thread.start_new_thread" and asked_by_subject():
        EVENTS.append((event, str(args[:1])[:200]))
    elif event in ("os.listdir", "os.scandir", "glob.glob") and asked_by_subject():
        EVENTS.append((event, str(args)[:200]))
    elif event.split(".")[0] in ("subprocess", "socket", "shutil", "ftplib", "urllib", "smtplib", "tempfile") or event in (
            "os.mkdir", "os.remove", "os.rename", "os.rmdir", "os.putenv", "os.unsetenv", "os.chdir", "os.system", "os.exec", "os.fork", "os.kill",
            "os.chmod", "os.truncate", "os.link", "os.symlink", "os.utime", "signal.pthread_kill", "sys.settrace", "sys.setprofile", "sys.addaudithook"):
        EVENTS.append((event, str(args)[:200]))


def world():
    """Global state that no operation has any business with."""
    return dict(numpy_random=str(np.random.get_state()[1:3]) + str(hash(np.random.get_state()[1].tobytes())), random=hash(random.getstate()),
                config={k: v for k, v in jax.config.values.items()}, filters=list(warnings.filters), environ=dict(os.environ), cwd=os.getcwd(),
                errstate=np.geterr(), recursion=sys.getrecursionlimit(), switch=sys.getswitchinterval(), path=list(sys.path),
                excepthook=sys.excepthook, printing=np.get_printoptions(), gc=gc.isenabled(), logging=loggers(), locale=locale.setlocale(locale.LC_ALL),
                signals=[signal.getsignal(s) for s in sorted(signal.valid_signals())], exits=atexit._ncallbacks(), decimal=repr(decimal.getcontext()),
                hooks=(threading.excepthook, sys.displayhook, sys.unraisablehook, sys.gettrace(), sys.getprofile(), warnings.showwarning, builtins.print,
                       builtins.open, builtins.__import__, sys.breakpointhook), thresholds=gc.get_threshold(), meta=list(sys.meta_path),
                builtins=sorted(vars(builtins)))


def loggers():
    """How every logger but those of jax (which it makes when needed) is set."""
    out = dict(disabled=logging.root.manager.disable, cls=logging.getLoggerClass(), factory=logging.getLogRecordFactory(), levels=dict(logging._nameToLevel))
    for name, l in [("", logging.root)] + list(logging.root.manager.loggerDict.items()):
        if isinstance(l, logging.Logger):
            out[name] = (l.level, l.disabled, l.propagate, [(id(h), h.level, id(h.formatter)) for h in l.handlers], len(l.filters))
            if name and out[name] == (0, False, True, [], 0):       # as one that nobody asked for yet
                del out[name]
    return {n: v for n, v in out.items() if not n.startswith(("jax", "absl", "flax"))}


def effects(ctx, c, rng):
    effects_of(ctx, c, rng)
    now = world()
    for k in BASE:
        ctx.check(BASE[k] == now[k], f"the global state {k!r} is not what it was when the process began", before=BASE[k], after=now[k])


def effects_of(ctx, c, rng):
    if not getattr(effects, "hooked", False):
        sys.addaudithook(hook)
        effects.hooked = True
    with ctx.other("building"):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ctrl = build(rng, c)
            b = ControllerBuilder(ctrl.save())
            ch = chain.steps(c, rng, c.n, heavy=0.05)
            chain.run(ctrl, b, ch, digests=False)       # compilers and caches have done their work
    env = dict(k=ctrl, b=b)
    for name, f in ch:
        out, err = io.StringIO(), io.StringIO()
        del EVENTS[:]
        exempt = name == "redefine" or name == "define by shape" and "shaped" in env["b"].defaults
        with warnings.catch_warnings(record=True) as said:
            warnings.simplefilter("always")
            before = world()
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), settings_watched():
                RECORDING[0] = True
                try:
                    f(env)
                    jax.effects_barrier()
                except Exception as x:
                    ctx.aborts[f"{name}: {type(x).__name__}: {str(x)[:100]}"] += 1
                    raise Abort(name)
                finally:
                    RECORDING[0] = False
            after = world()
        ours = [w for w in said if os.path.realpath(str(w.filename)).startswith((os.path.realpath(boot.REPO), os.path.realpath(boot.VERIF))) and not exempt]
        ctx.check(not ours, f"{name}: a warning is given without reason", warnings=[str(w.message)[:200] for w in ours])
        ctx.check(not out.getvalue() and not err.getvalue(), f"{name}: printed something", out=out.getvalue(), err=err.getvalue())
        ctx.check(not EVENTS, f"{name}: touched the outside", events=EVENTS[:5])
        for k in before:
            ctx.check(before[k] == after[k], f"{name}: the global state {k!r} changed", before=before[k], after=after[k])
        ctx.count("operations_watched")
        ctx.seen("effects", name, c.batch, str(c.core))
