"""ACT programs and the ways to run them.

A program is a list of steps dict(h=, ups={name: tree}, order=[names], reset=bool): optionally reset, then cache every
accumulator in the given order and iterate. The same program can be run eagerly, with a jitted step, in lax.scan, in
lax.while_loop, through AbstractACTTemplate.execute_act, or vmapped with others.
"""
import numpy as np
import jax
import jax.numpy as jnp

from vmon import trees as tr
from vmon.probe import HUB
from vmon.gen import (pick, halting, update_tree, build, config, describe, HPATTERNS, ACT_Controller, ControllerBuilder,
                      TensorEditor, ACTViewer)
from src.jax_act import AbstractACTTemplate


def program(rng, c, T, resets=0.0, hostile=0.0, pattern=None, hostile_after_halt=True, kind=None, subst=0.0):
    """A random program, tracking the cumulative probabilities roughly to aim near the threshold."""
    p = np.zeros(c.bshape)
    out = []
    pattern = pattern or pick(rng, HPATTERNS)
    for t in range(T):
        pat = pattern if rng.random() < 0.8 else pick(rng, HPATTERNS)
        reset = bool(rng.random() < resets)
        if reset:
            p = np.where((p > 1 - c.eps) | (p >= 1), 0.0, p)
        h = halting(rng, c, pat, p)
        ups = {nm: update_tree(rng, c, nm, hostile, kind or pick(rng, ["normal", "dyadic"])) for nm in c.names}
        order = list(c.names)
        rng.shuffle(order)
        s = p + c.dep * np.clip(tr.f64(h), 0, 1)
        p = np.where((s > 1 - c.eps) | (s >= 1), 1.0, s)
        s = dict(h=h, ups=ups, order=order, reset=reset)
        if subst and rng.random() < subst:
            # eager runs only: update objects which the controller already holds, or which were used before
            s["subst"] = {nm: pick(rng, ["accumulators", "defaults", "last"]) for nm in c.names if rng.random() < 0.6}
        out.append(s)
    return out


def step(ctrl, h, ups, order=None):
    for nm in (order or list(ups)):
        ctrl = ctrl.cache_update(nm, ups[nm])
    return ctrl.iterate_act(h)


def stack(prog):
    hs = jnp.stack([s["h"] for s in prog])
    rs = jnp.asarray([s["reset"] for s in prog])
    ups = {nm: jax.tree_util.tree_map(lambda *x: jnp.stack(x), *[s["ups"][nm] for s in prog])
           for nm in prog[0]["ups"]}
    return hs, ups, rs


# --- the modes. Each takes (c, ctrl, prog) and returns the final controller -----------------------------------

def run_eager(c, ctrl, prog):
    last = None
    for s in prog:
        if s["reset"]:
            ctrl = ctrl.reset_batches()
        ups = s["ups"]
        if s.get("subst"):
            ups = dict(ups)
            for nm, how in s["subst"].items():
                ups[nm] = last[nm] if how == "last" and last else ups[nm] if how == "last" else \
                    getattr(ctrl.save(), how)[nm]
        last = ups
        ctrl = step(ctrl, s["h"], ups, s["order"])
    return ctrl


def _cached(c, key, make):
    if not hasattr(c, "_jits"):
        c._jits = {}
    if key not in c._jits:
        c._jits[key] = make()
    return c._jits[key]


def run_jit(c, ctrl, prog):
    order = prog[0]["order"]
    f = _cached(c, "step", lambda: jax.jit(lambda k, h, u: step(k, h, u, order)))
    r = _cached(c, "reset", lambda: jax.jit(lambda k: k.reset_batches()))
    for s in prog:
        if s["reset"]:
            ctrl = r(ctrl)
        ctrl = f(ctrl, s["h"], s["ups"])
    return ctrl


def _body(k, x):
    h, u, r = x
    k = jax.lax.cond(r, lambda q: q.reset_batches(), lambda q: q, k)
    return step(k, h, u)


def _body_noreset(k, x):
    h, u, _ = x
    return step(k, h, u)


def run_scan(c, ctrl, prog):
    body = _body if any(s["reset"] for s in prog) else _body_noreset
    f = _cached(c, ("scan", body), lambda: jax.jit(lambda k, xs: jax.lax.scan(lambda q, x: (body(q, x), None), k, xs)[0]))
    return f(ctrl, stack(prog))


def run_while(c, ctrl, prog):
    """Stops early when everything has halted."""
    T = len(prog)

    def make():
        def f(k, xs):
            def cond(s):
                return jnp.logical_and(~s[0].is_completely_halted, s[1] < T)

            def body(s):
                q, t = s
                x = jax.tree_util.tree_map(lambda a: a[t], xs)
                return _body_noreset(q, x), t + 1
            return jax.lax.while_loop(cond, body, (k, 0))[0]
        return jax.jit(f)
    return _cached(c, ("while", T), make)(ctrl, stack(prog))


class ReplayLayer(AbstractACTTemplate):
    """A layer which plays a stacked program; its state is (position, the program)."""
    def __init__(self, ctrl):
        self.ctrl = ctrl

    def make_controller(self, initial_state, depression_constant, *args, **kwargs):
        return self.ctrl

    def setup_lazy_parameters(self, controller, state):
        pass

    def run_iteration(self, controller, state):
        t, xs = state
        h, u, _ = jax.tree_util.tree_map(lambda a: a[t], xs)
        return step(controller, h, u), (t + 1, xs)


def run_act(c, ctrl, prog):
    layer = ReplayLayer(ctrl)
    out, _ = layer.execute_act((jnp.asarray(0), stack(prog)), max_iterations=len(prog))
    return out


def run_vmap(c, ctrls, progs):
    """Several controllers and programs of one configuration at once. Returns the list of final controllers."""
    k = jax.tree_util.tree_map(lambda *x: jnp.stack([jnp.asarray(v) for v in x]), *ctrls)
    f = _cached(c, "vmap", lambda: jax.jit(jax.vmap(_body_noreset)))
    stacked = [stack(p) for p in progs]
    for t in range(len(progs[0])):
        x = jax.tree_util.tree_map(lambda *a: jnp.stack([v[t] for v in a]), *stacked)
        k = f(k, x)
    n = len(ctrls)
    return [jax.tree_util.tree_map(lambda a: a[i], k) for i in range(n)]


MODES = dict(eager=run_eager, jit=run_jit, scan=run_scan, act=run_act)
MODES["while"] = run_while


def settle():
    jax.effects_barrier()


def monitored(ctx, c, mode, rng, prog, monitors, status=False, ctrl=None, what="running the ACT program"):
    """Run one program in one mode with the monitors attached. Returns the final controller (None for vmap)."""
    HUB.start(monitors, ordered=mode != "vmap", status=status, limit=50 * len(prog) * (len(c.names) + 3) + 200)
    try:
        with ctx.subject(f"{what} ({mode})"):
            if mode == "vmap":
                n = 3
                with HUB.paused():
                    ctrls = [build(rng, c, None if i == 0 else c.starts) for i in range(n)]
                progs = [prog] + [program(rng, c, len(prog)) for _ in range(n - 1)]
                for q in progs:
                    for s in q:
                        s["reset"] = False
                out = run_vmap(c, ctrls, progs)
                jax.block_until_ready(out[0].probabilities)
                settle()
                return None
            if ctrl is None:
                with HUB.paused():
                    ctrl = build(rng, c)
            out = MODES[mode](c, ctrl, prog)
            jax.block_until_ready(out.probabilities)
            settle()
            return out
    finally:
        HUB.enabled = False
