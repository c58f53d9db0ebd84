"""The same objects used by several threads at once, with switches forced inside the code under test."""
import gc
import os
import random
import re
import sys
import threading
import time
import types
from vmon.checks._prog import *  # noqa
from vmon import chain
from vmon.checks.c30 import linked
from vmon.probe import snap
from src.jax_act import AbstractACTTemplate
from src.jax_act.core import utils
from src.jax_act.layers.core import ContractValidationWrapper

SRC = os.path.join(os.path.realpath(boot.REPO), "src", "jax_act") + os.sep
TOOL = 3


def make(ctx, rng, b):
    c = config(rng, ctx.x64, b, naccs=int(rng.integers(1, 4)), batches=[[2], [3], [2, 3], [], [1], [4], [3, 3]])
    c.threads = int(pick(rng, [2, 3, 4, 6]))
    c.n = int(rng.integers(5, 14)) if not ctx.thorough else int(rng.integers(8, 30))
    c.b = b
    ctx.note["config"] = describe(c) + f" threads={c.threads}"
    return c


def codes():
    """All code objects of the code under test."""
    todo = [f.__code__ for f in gc.get_objects() if isinstance(f, types.FunctionType)
            and os.path.realpath(f.__code__.co_filename).startswith(SRC)]
    seen = set()
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += [y for y in x.co_consts if isinstance(y, types.CodeType)]
    return seen


class Switcher:
    """Yields at random lines of the code under test, and records who ran."""
    def __init__(self, seed, p):
        self.p, self.seed, self.last, self.order, self.lines = p, seed, None, [], 0
        self.me = threading.local()
        mon = sys.monitoring
        if mon.get_tool(TOOL) is None:
            mon.use_tool_id(TOOL, "vmon")
            for x in codes():
                mon.set_local_events(TOOL, x, mon.events.LINE)
        mon.register_callback(TOOL, mon.events.LINE, self.line)

    def start(self, i):
        self.me.rng = random.Random(self.seed * 1000 + i)
        self.me.i = i

    def line(self, code, number):
        i = getattr(self.me, "i", None)
        if i is None:
            return
        self.lines += 1
        if self.last != i:
            self.last = i
            self.order.append((i, code.co_name))
        r = self.me.rng.random()
        if r < self.p:
            time.sleep(0 if r < self.p / 2 else 0.0003)


class Layer(AbstractACTTemplate):
    """A layer of one thread, with numbers of its own."""
    def __init__(self, c, starts, gain, h):
        self.c, self.starts, self.gain, self.h = c, starts, gain, h

    def make_controller(self, initial_state, depression_constant=1.0, *args, **kwargs):
        b = self.new_builder(list(self.c.bshape), self.c.core_arg, self.c.eps, depression_constant)
        for n in self.c.names:
            b = b.define_accumulator_directly(n, self.starts[n])
        return b.build()

    def setup_lazy_parameters(self, controller, state):
        pass

    def run_iteration(self, controller, state):
        for n in self.c.names:
            controller = controller.cache_update(n, jax.tree_util.tree_map(lambda a: jnp.full(a.shape, self.gain, a.dtype), self.starts[n]))
        return controller.iterate_act(self.h), state + 1


def layers(c, rng, n):
    """For every thread the operations on a layer of its own."""
    out = []
    for i in range(n):
        starts = {}
        for nm in c.names:
            starts[nm] = start_tree(rng, c.specs[nm], "dyadic")
        l = Layer(c, starts, float(i + 1), jnp.full(c.bshape, 0.125 * (i % 5 + 1), c.core))
        w = ContractValidationWrapper(l, bool(rng.integers(4)))
        ops = []
        for _ in range(int(rng.integers(2, 5))):
            kind, bound = int(rng.integers(5)), int(rng.integers(0, 4))
            if kind == 0:
                ops.append(("execute_act", lambda l=l, bound=bound: l.execute_act(jnp.asarray(0), 1.0, bound)))
            elif kind == 1:
                def by_wrapper(w=w, k=bound):
                    q, s = w.make_controller(jnp.asarray(0), 1.0), jnp.asarray(0)
                    for _ in range(k + 1):
                        q, s = w.run_iteration(q, s)
                    return q, s
                ops.append(("run_iteration by the wrapper", by_wrapper))
            elif kind == 2:
                def fresh(l=l, k=bound):
                    q = l.make_controller(None)
                    w = ContractValidationWrapper(l, True)
                    for _ in range(k + 1):
                        q, _s = w.run_iteration(q, jnp.asarray(0))
                    return q, jnp.asarray(k)
                ops.append(("run_iteration by a new wrapper", fresh))
            else:
                def edited(l=l, k=bound):
                    q, s = l.run_iteration(l.make_controller(None), jnp.asarray(0))
                    ed = TensorEditor.edit_controller(q, "silence").set_iterations(q.iterations + k)
                    return ed.build(), s
                ops.append(("iterate and edit", edited))
        out.append(ops)
    return out


def shared_nothing(ctx, c, rng):
    """Layers of different threads have nothing to do with one another."""
    with ctx.other("the layers on their own"):
        per = layers(c, rng, c.threads)
        digest = lambda o: (snap(o[0]), np.asarray(o[1]))
        want = [[digest(f()) for _, f in ops] for ops in per]
    got, errs, sw = threads(ctx, c, rng, lambda i: [digest(f()) for _, f in per[i]], [[n for n, _ in ops] for ops in per])
    for i, ops in enumerate(per):
        ctx.check(errs[i] is None, f"a valid layer raised {type(errs[i]).__name__}: {str(errs[i])[:300]} while others were executed by other threads")
        for (name, _), w, g in zip(ops, want[i], got[i]):
            ctx.same(tr.diff_tree(g, w), f"{name} of a layer gave another result than on its own")
            ctx.count("layer_results_compared")
    # the same by turns in one thread
    ls = [Layer(c, per_starts(c, rng), 2.0 + i, jnp.full(c.bshape, 0.25, c.core)) for i in range(2)]
    with ctx.subject("two layers by turns"):
        ws = [ContractValidationWrapper(l, True) for l in ls]
        ks = [w.make_controller(None, 1.0) for w in ws]
        for _ in range(2):
            ks = [w.run_iteration(k, jnp.asarray(0))[0] for w, k in zip(ws, ks)]
    for l, k in zip(ls, ks):
        with ctx.other("the layer on its own"):
            q = l.make_controller(None)
            for _ in range(2):
                q = l.run_iteration(q, jnp.asarray(0))[0]
            want = snap(q)
        ctx.same(tr.diff_tree(snap(k), want), "a layer wrapped before another gave another result than on its own")
    ctx.count("layer_runs")
    ctx.seen("layers", tuple(sw.order))


def per_starts(c, rng):
    out = {}
    for nm in c.names:
        out[nm] = start_tree(rng, c.specs[nm], "dyadic")
    return out


def threads(ctx, c, rng, job, names):
    got, errs = [None] * c.threads, [None] * c.threads
    sw = Switcher(int(rng.integers(1 << 30)), float(pick(rng, [0.02, 0.1, 0.3])))
    gate = threading.Barrier(c.threads)

    def work(i):
        sw.start(i)
        try:
            gate.wait(60)
            got[i] = job(i)
        except Exception as err:
            errs[i] = err
        finally:
            sw.me.i = None
    old = sys.getswitchinterval()
    sys.setswitchinterval(float(pick(rng, [1e-5, 1e-4, 1e-3])))
    try:
        ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(c.threads)]
        for t in ts:
            t.start()
        deadline = time.time() + 150
        for t in ts:
            t.join(max(0.1, deadline - time.time()))
    finally:
        sys.setswitchinterval(old)
    ctx.check(not any(t.is_alive() for t in ts), "threads did not finish", operations=names)
    return got, errs, sw


def same_result(a, b):
    """None, or how what a thread got differs: results, or what an error says."""
    if type(a) is list or type(b) is list:
        return None if a == b else f"{a} instead of {b}"
    return tr.diff_tree(a, b)


def overlapping(ctx, c, rng):
    """Two threads inside functions of the user at the same time, the first in being the first out."""
    from vmon.checks.c26 import world
    with ctx.other("building"):
        ctrl = warm(ctx, c, rng, build(rng, c))
    kind = pick(rng, ["transform", "transform", "merge", "iteration", "operator", "operator"])
    fails = [rng.random() < 0.35 for _ in range(2)]      # in the function of the user
    where = threading.local()
    inside, leave, seen = [threading.Event(), threading.Event()], [threading.Event(), threading.Event()], [False, False]

    def pause():
        """Once for each thread, at a random call of its function."""
        i = getattr(where, "i", None)
        if i is None:
            return
        where.calls += 1
        if where.calls == where.at:
            inside[i].set()
            seen[i] = leave[i].wait(20)

    def function(x):
        pause()
        i = where.i if getattr(where, "i", None) is not None else where.who
        where.done += 1
        if fails[i] and where.done >= ats[i]:
            raise KeyError(f"on purpose, thread {i}")
        return x * (2 + i)

    class Waiting(Layer):
        def run_iteration(self, controller, state):
            pause()
            i = where.i if getattr(where, "i", None) is not None else where.who
            if fails[i]:
                raise KeyError(f"on purpose, thread {i}")
            return super().run_iteration(controller, state)

    layer = Waiting(c, per_starts(c, rng), 2.0, jnp.full(c.bshape, 0.25, c.core))

    def job(i):
        where.done = 0
        try:
            return work_of(i)
        except Exception as err:
            if not fails[i]:
                raise
            return [(type(x).__name__, re.sub(r"0x[0-9a-f]+", "", str(x))) for x in linked(err)]

    def work_of(i):
        if kind == "operator":
            return tr.tmap(np.asarray, utils.execute_binary_operator(lambda a, b: function(a) + b, ctrl.accumulators, ctrl.save().defaults, f"the context of thread {i}: "))
        if kind == "transform":
            return snap(ctrl.make_viewer().transform(function))
        if kind == "merge":
            t = {n: ctrl.accumulators[n] for n in ctrl.accumulators}
            return tr.tmap(np.asarray, utils.merge_pytrees(lambda a, b: function(a) + b, t, t))
        w = ContractValidationWrapper(layer, True)
        return snap(w.run_iteration(w.make_controller(jnp.asarray(0), 1.0), jnp.asarray(0))[0])
    ats = [int(rng.integers(1, 1 + (3 if kind == "transform" else 1))) for _ in range(2)]
    with ctx.other("the operation on its own"):
        want = []
        for i in range(2):
            where.who = i
            want.append([job(i), job(i)][1])
    got, errs = [None, None], [None, None]

    def work(i):
        where.i, where.calls, where.at = i, 0, ats[i]
        try:
            got[i] = job(i)
        except Exception as err:
            errs[i] = err
        finally:
            where.i = None
            inside[i].set()
    before = world()
    ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(2)]
    ts[0].start()
    inside[0].wait(30)
    during = world()
    ts[1].start()
    both = inside[1].wait(4)         # a lock of the code under test may have it wait for the first one
    order = [0, 1] if rng.random() < 0.7 else [1, 0]
    if not both:
        order = [0, 1]
    for i in order:
        leave[i].set()
        ts[i].join(60)
    ctx.check(not any(t.is_alive() for t in ts), "threads did not finish", kind=kind)
    after = world()
    for i in range(2):
        ctx.check(errs[i] is None, f"{kind}: raised {type(errs[i]).__name__}: {str(errs[i])[:300]} while another thread was within the same", order=order)
        ctx.same(same_result(got[i], want[i]), f"{kind}: another result than on its own while another thread was within the same", order=order)
    for k in before:
        ctx.check(before[k] == during[k], f"{kind}: other threads see {k!r} of the process changed while a thread is in a function of the user",
                  before=before[k], during=during[k])
        ctx.check(before[k] == after[k], f"{kind}: {k!r} of the process is another after two threads were in functions of the user",
                  before=before[k], after=after[k], order=order)
    ctx.count("overlapping_runs")
    ctx.count("overlapping_refusals", sum(fails))
    ctx.count("both_inside_at_once", int(both and all(seen)))
    ctx.seen("overlap", kind, tuple(order), tuple(ats), c.batch)


def episode(ctx, c, rng, e):
    if (c.b + e) % 4 == 3 and c.core != F16:
        overlapping(ctx, c, rng)
    if (c.b + e) % 4 == 1 and c.core != F16 and not any(l.dtype == F16 for n in c.names for _, l in tr.leaves(c.specs[n])):
        return shared_nothing(ctx, c, rng)
    with ctx.other("building"):
        ctrl = build(rng, c)
        builder = ControllerBuilder(ctrl.save())
        if rng.random() < 0.5:
            ctrl = warm(ctx, c, rng, ctrl)
        chains = [chain.steps(c, rng, c.n, heavy=0.04) for _ in range(c.threads)]
        if rng.random() < 0.25:
            chains[1:] = [chains[0]] * (c.threads - 1)      # everybody does the same
        want = [chain.run(ctrl, builder, ch) for ch in chains]
    before = chain.dig((ctrl, builder))
    names = [[n for n, _ in ch] for ch in chains]
    got, errs, sw = threads(ctx, c, rng, lambda i: chain.run(ctrl, builder, chains[i]), names)
    for i in range(c.threads):
        ctx.check(errs[i] is None, f"an operation valid on its own raised {type(errs[i]).__name__}: {str(errs[i])[:300]} while other threads "
                  "were using the same objects", operations=names)
        for t, (w, g) in enumerate(zip(want[i], got[i])):
            ctx.check(w == g, f"operation {t} ({w[0]}) of a thread gave another result than on its own", want=w, got=g, operations=names)
            ctx.count("results_compared")
    ctx.check(chain.dig((ctrl, builder)) == before, "a shared object changed while several threads used it", operations=names)
    ctx.count("concurrent_runs")
    ctx.count("lines_traced", sw.lines)
    ctx.count("switches_inside_the_code", len(sw.order))
    ctx.seen("interleaving", tuple(sw.order))
    ctx.sample(config=ctx.note["config"], operations=names[:2], switches=sw.order[:30])
