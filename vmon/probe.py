"""Instrumentation of the public API of the code under test.

The methods of ACT_Controller are wrapped from outside. Each call is an event (operation, state before, arguments,
state after or exception). Outside tracing the event carries the actual values at once; inside jit, scan,
while_loop or vmap a jax.debug.callback inserted behind the call delivers the concrete values each time the
compiled code executes. Monitors subscribed to the HUB see one stream of events in every mode.
"""
import functools

import numpy as np
import jax
from jax import core as jcore

from vmon import boot
from vmon import trees as tr
from vmon.ctx import Violation

boot.import_subject()
from src.jax_act import ACT_Controller  # noqa: E402


class Event:
    __slots__ = ("op", "pre", "args", "post", "err", "traced")

    def __init__(self, op, pre, args, post, err, traced):
        self.op, self.pre, self.args, self.post, self.err, self.traced = op, pre, args, post, err, traced


def fields(c, status=False):
    """The observable fields of a controller (or viewer, builder, editor), as a plain tree."""
    s = c if type(c).__name__ == "ACTStates" else c.state
    d = dict(probabilities=s.probabilities, residuals=s.residuals, iterations=s.iterations,
             accumulators=s.accumulators, defaults=s.defaults, updates=s.updates,
             epsilon=s.epsilon, depression_constant=s.depression_constant)
    if status:
        d["status"] = dict(halted=c.halted_batches, all=c.is_completely_halted, any=c.is_any_halted,
                           viewer=c.make_viewer().halted_batches,
                           ready=c.updates_ready_to_commit, cached=c.has_cached_updates)
    return d


def snap(c, status=False):
    """fields as numpy, containers copied."""
    return tr.tmap(lambda x: np.asarray(x) if hasattr(x, "dtype") else x, fields(c, status))


def is_tracer(x):
    return isinstance(x, jcore.Tracer)


class Hub:
    def __init__(self):
        self.reset()

    def reset(self):
        self.monitors = []
        self.ordered = True
        self.status = False
        self.limit = None
        self.n = 0
        self.enabled = False
        self.enrich = None

    def start(self, monitors, ordered=True, status=False, limit=None):
        self.reset()
        self.monitors, self.ordered, self.status, self.limit, self.enabled = list(monitors), ordered, status, limit, True

    def emit(self, ev):
        self.n += 1
        if self.limit is not None and self.n > self.limit:
            raise RuntimeError("VMON-RUNAWAY: more iterations observed than the program can have")
        for m in self.monitors:
            m(ev)

    def paused(self):
        return _Paused(self)


class _Paused:
    def __init__(self, hub):
        self.hub = hub

    def __enter__(self):
        self.was, self.hub.enabled = self.hub.enabled, False

    def __exit__(self, *a):
        self.hub.enabled = self.was


HUB = Hub()


def _emit_values(op, tree, err=None):
    """tree: dict(pre=, args=, post=) of arrays/tracers/static values."""
    flat = tr.leaves(tree)
    dyn = [(p, x) for p, x in flat if hasattr(x, "dtype")]
    if any(is_tracer(x) for _, x in dyn):
        def cb(*vals):
            it = {p: np.asarray(v) for (p, _), v in zip(dyn, vals)}
            t = tr.unzip_map(lambda p, x: it[p] if p in it else x, tree)
            HUB.emit(Event(op, t["pre"], t["args"], t.get("post"), err, True))
        jax.debug.callback(cb, *[x for _, x in dyn], ordered=HUB.ordered)
    else:
        t = tr.tmap(lambda x: np.asarray(x) if hasattr(x, "dtype") else x, tree)
        HUB.emit(Event(op, t["pre"], t["args"], t.get("post"), err, False))


def _wrap(name, argnames):
    orig = getattr(ACT_Controller, name)

    @functools.wraps(orig)
    def wrapper(self, *a, **kw):
        if not HUB.enabled:
            return orig(self, *a, **kw)
        HUB.enabled = False            # nested public calls are not separate events
        try:
            bound = dict(zip(argnames, a))
            bound.update(kw)
            pre = fields(self, HUB.status)
            pre = tr.tmap(lambda x: x, pre)    # copies the containers
            args = {k: tr.tmap(lambda x: x, v) for k, v in bound.items()}
            try:
                out = orig(self, *a, **kw)
            except Exception as err:
                dyn = any(is_tracer(x) for _, x in tr.leaves(pre))
                if not dyn:
                    _emit_values(name, dict(pre=pre, args=args), err)
                raise
            post = fields(out, HUB.status)
            _emit_values(name, dict(pre=pre, args=args, post=post))
            return out
        finally:
            HUB.enabled = True
    setattr(ACT_Controller, name, wrapper)


for _n, _a in (("iterate_act", ["h"]), ("reset_batches", []), ("cache_update", ["name", "item"])):
    _wrap(_n, _a)


def norm_args(ev):
    return ev.args
