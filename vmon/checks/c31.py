"""The same programs in other interpreters: other hash seeds, optimisation, locale, directory. Processes move from one to another."""
import hashlib
import os
import pickle
import re
import subprocess
import sys
import tempfile
import traceback
import warnings
from vmon.checks._prog import *  # noqa
from vmon import chain
from vmon.ctx import rng_for
from vmon.checks.c16 import has_half
from vmon.checks.c10 import digest
from vmon.probe import snap
from src.jax_act import AbstractACTTemplate
from src.jax_act.core import utils

N = 3       # programs per interpreter


def make(ctx, rng, b):
    class C:
        pass
    c = C()
    c.keys = [[int(rng.integers(1 << 31)), i] for i in range(N)]
    c.seed = int(pick(rng, [1, 2, 3, 77, 12345, 4294967295]))
    c.flags = [[], ["-O"], ["-O", "-X", "dev"], ["-X", "dev"], ["-B", "-W", "error::DeprecationWarning:src"], ["-X", "utf8=0"]][(b + b // 6) % 6]
    c.env = [{}, {"LC_ALL": "C", "LANG": "C"}, {"TZ": "Asia/Kolkata"}, {"PYTHONUTF8": "1"}, {"PYTHONINTMAXSTRDIGITS": "0"}][int(rng.integers(5))]
    ctx.note["config"] = f"hash seed {c.seed}, flags {c.flags}, {c.env}"
    return c


def plain(t):
    """Numbers as NumPy arrays in builtin containers, so that they can be stored without any class of the library."""
    return tr.tmap(lambda x: np.asarray(x), t)


def arrays(k):
    return [np.asarray(x) if hasattr(x, "dtype") else x for x in jax.tree_util.tree_leaves(k)]


class Defective(AbstractACTTemplate):
    """Layers that break their contract."""

    def __init__(self, kind, k, ups, h):
        self.kind, self.k, self.ups, self.h = kind, k, ups, h * 0

    def make_controller(self, initial_state, depression_constant, *args, **kwargs):
        return {"a": jnp.zeros(2)} if self.kind == "no controller" else self.k

    def setup_lazy_parameters(self, controller, state):
        pass

    def run_iteration(self, controller, state):
        nm = sorted(self.ups)[0]
        if self.kind == "same controller":
            return controller, state
        if self.kind == "uncommitted":
            return controller.cache_update(nm, self.ups[nm]), state
        if self.kind == "other controller":
            return ControllerBuilder(step(controller, self.h, self.ups).save()).define_accumulator_by_shape("surplus", list(self.h.shape)).build(), state
        if self.kind == "other state":
            return step(controller, self.h, self.ups), jnp.zeros((3, 2))
        return [step(controller, self.h, self.ups)] * 3 if self.kind == "no pair" else None


def crowded(rng):
    """Many names that resemble one another."""
    words = ["state", "stock", "shape", "skip", "s_one", "output", "outputs", "out", "memory", "mem", "key", "keys", "value", "query"]
    rng.shuffle(words)
    return words[:int(rng.integers(6, 13))]


def refusals(c, rng, k):
    """Kinds of the errors of defective calls."""
    nm = pick(rng, c.names)
    ups = {n: update_tree(rng, c, n) for n in c.names}
    h = halting(rng, c, "uniform")
    out = []

    def note(what, f):
        try:
            f()
            out.append((what, "accepted"))
        except Exception as err:
            out.append((what, type(err).__name__, re.sub(r"0x[0-9a-f]+", "", str(err))))

    def commit(bad):
        q = k
        for n in c.names:
            q = q.cache_update(n, bad[n])
        return q.iterate_act(h)
    note("more leaves", lambda: commit(dict(ups, **{nm: [ups[nm], jnp.zeros(c.bshape)]})))
    note("fewer leaves", lambda: commit(dict(ups, **{nm: ()})) if tr.leaves(ups[nm]) else 1 / 0)
    note("other shape", lambda: commit(dict(ups, **{nm: tr.tmap(lambda x: x[..., None], ups[nm])})) if tr.leaves(ups[nm]) else 1 / 0)
    note("missing", lambda: k.cache_update(nm, ups[nm]).iterate_act(h) if len(c.names) > 1 else k.iterate_act(h))
    note("twice", lambda: k.cache_update(nm, ups[nm]).cache_update(nm, ups[nm]))
    note("unknown", lambda: k.cache_update("never", ups[nm]))
    note("halting shape", lambda: k.iterate_act(jnp.ones(c.bshape + (2,))))
    note("pending reset", lambda: k.cache_update(nm, ups[nm]).reset_batches())
    note("mask", lambda: k.make_viewer().mask_data(jnp.ones(c.bshape + (2,), bool)))
    note("mask of updates of too few dimensions", lambda: k.cache_update(nm, jnp.zeros(c.bshape[:-1] if len(c.bshape) > 1 else ())).make_viewer().halted_only() if c.bshape else 1 / 0)
    note("left broadcast", lambda: utils.setup_left_broadcast(jnp.ones((2, 3)), jnp.ones(2)))
    note("integer definition", lambda: ControllerBuilder(k.save()).define_accumulator_directly("q", jnp.ones(c.bshape, int)))
    note("epsilon", lambda: ControllerBuilder.new_builder(2, None, 1.5))
    note("edit", lambda: TensorEditor.edit_controller(k).set_probabilities(jnp.full(c.bshape + (1,), 2.0)))
    note("edit of an unknown", lambda: TensorEditor.edit_controller(k).set_accumulator("never", ups[nm]))
    note("error mode", lambda: TensorEditor.edit_controller(k, "other"))
    note("mismatch", lambda: utils.execute_binary_operator(lambda a, b: a + b, [jnp.ones(2)], (jnp.ones(2),), "c"))
    note("several missing", lambda: k.iterate_act(h))
    for empty in ((), {}, [], {"a": ()}):
        q = ControllerBuilder(k.save()).define_accumulator_directly("empty", empty).build()
        for n in c.names:
            q = q.cache_update(n, ups[n])
        note(f"nothing for an accumulator {empty!r}", lambda: q.iterate_act(h))
        note(f"twice for an accumulator {empty!r}", lambda: q.cache_update("empty", empty).cache_update("empty", empty))
        note(f"a tensor for an accumulator {empty!r}", lambda: q.cache_update("empty", jnp.ones(c.bshape)).iterate_act(h))
        note(f"a pending reset with an accumulator {empty!r}", lambda: build(np.random.default_rng(1), c).cache_update("empty", empty))
        note(f"an edit of an accumulator {empty!r}", lambda: TensorEditor.edit_controller(q).set_updates("empty", jnp.ones(c.bshape)))
    note("a tree of shapes", lambda: ControllerBuilder(k.save()).define_accumulator_by_shape("q", list(c.bshape) + [2.5]))
    note("a definition of few dimensions", lambda: ControllerBuilder(k.save()).define_accumulator_directly("q", jnp.ones(c.bshape[:-1] if c.bshape else (), jnp.int8)))
    note("a mask of numbers", lambda: k.make_viewer().mask_data(jnp.ones(c.bshape)))
    note("a transform", lambda: k.make_viewer().transform(lambda x: x.nothing))
    note("merging", lambda: utils.merge_pytrees(lambda a, b: a, [jnp.ones(1)], [jnp.ones(1)] * 2))
    note("values", lambda: TensorEditor.edit_controller(k).set_epsilon(1.5))
    note("negative iterations", lambda: TensorEditor.edit_controller(k).set_iterations(k.iterations - 1e4) if k.iterations.size else 1 / 0)

    def several(bad):
        for n in sorted(c.names, reverse=True):
            ls = tr.leaves(ups[n])
            bad[n] = bad[n] if not ls else {"more leaves": [ups[n], jnp.zeros(c.bshape)], "shape": tr.set_at(ups[n], ls[0][0], ls[0][1][..., None])}[pick(rng, ["more leaves", "shape"])]
        return bad
    if any(tr.leaves(ups[n]) for n in c.names):
        note("several at fault", lambda: commit(several(dict(ups))))
    for kind in (["no controller", "same controller", "uncommitted", "other controller", "other state", "no pair"] if not has_half(c) else []):
        note("layer: " + kind, lambda: Defective(kind, k, ups, h).execute_act(jnp.zeros(3), 1.0, 4, True))
    crowd, names = ControllerBuilder.new_builder(2), crowded(rng)
    for n in names:
        crowd = crowd.define_accumulator_by_shape(n, [2])
    q = crowd.build()
    for n in [pick(rng, names)[:-1], pick(rng, names) + "s", pick(rng, names)[:1] + "oun", pick(rng, names).upper()]:
        if n not in names:
            note(f"crowd: unknown {n}", lambda: q.cache_update(n, jnp.ones(2)))
            note(f"crowd: edit of an unknown {n}", lambda: TensorEditor.edit_controller(q).set_defaults(n, jnp.ones(2)))
            note(f"crowd: indexing {n}", lambda: q[n])
            note(f"crowd: deleting {n}", lambda: crowd._delete_definition(n) if hasattr(crowd, "_delete_definition") else crowd.delete_definition(n))
    some = [n for n in names[1:-1] if rng.random() < 0.4] + names[-1:]
    for n in some:
        q = q.cache_update(n, jnp.ones(2))
    note("crowd: many missing", lambda: q.iterate_act(jnp.ones(2)))
    note("crowd: many pending", lambda: q.reset_batches())
    note("merge", lambda: commit(dict(ups, **{nm: {"a": ups[nm], "b": ups[nm]}})) if tr.leaves(ups[nm]) else 1 / 0)
    return out


def work(key, x64, names_last=None, load=None):
    """A random program, from its key alone. With load, its second half starts from stored leaves."""
    rng = rng_for(*key)
    c = config(rng, x64, 0, naccs=int(rng.integers(1, 5)), leafless=0.05)
    for nm in c.names:
        c.uspecs[nm] = c.specs[nm]
    starts = {}
    for nm in c.names:
        starts[nm] = start_tree(rng, c.specs[nm])
    order = list(c.names)
    if load is not None:        # the restoring program defines its accumulators in another order
        order = order[::-1]
    b = ControllerBuilder.new_builder(list(c.bshape), c.core_arg, c.eps, c.dep)
    for nm in order:
        b = b.define_accumulator_directly(nm, starts[nm])
    k = b.build()
    prog = program(rng, c, int(rng.integers(3, 7)), resets=0.3)
    cut = int(rng.integers(0, len(prog)))
    some = [nm for nm in c.names if rng.random() < 0.4]         # pending when stored
    sub, sub2 = (np.random.default_rng(int(rng.integers(1 << 31))) for _ in range(2))
    out = dict(states=[], stored=None, pickled=None)
    for t, s in enumerate(prog):
        if t == cut:
            for nm in some:
                k = k.cache_update(nm, s["ups"][nm])
            if load is None:
                out["stored"], out["pickled"] = arrays(k), pickle.dumps(k)
            elif load[0] == "leaves":
                td = jax.tree_util.tree_structure(k)
                k = jax.tree_util.tree_unflatten(td, [jnp.asarray(x) if hasattr(x, "dtype") else x for x in load[1]])
            else:
                k = pickle.loads(load[1])
        elif s["reset"]:
            k = k.reset_batches()
        for nm in (s["order"] if t != cut else [n for n in s["order"] if n not in some]):
            k = k.cache_update(nm, s["ups"][nm])
        k = k.iterate_act(s["h"])
        out["states"].append(hashlib.blake2b(repr(digest(k)).encode()).hexdigest() if load is None or t >= cut else None)
        out.setdefault("leaf_order", []).append([(str(p), x.shape, str(x.dtype)) for p, x in leaf_paths(k)])
    out["final"] = plain({q: v for q, v in snap(k).items()})
    out["cut"] = cut
    out["names"] = [list(d) for d in (k.accumulators, k.save().defaults, k.save().updates)]
    if load is None:
        out["chain"] = [(n, hashlib.blake2b(repr(d).encode()).hexdigest()) for n, d in chain.run(k, ControllerBuilder(k.save()), chain.steps(c, sub, 12, heavy=0.08))]
        out["refusals"] = refusals(c, sub2, build(sub2, c, starts))
    return out, c


def leaf_paths(k):
    return [(i, np.asarray(x)) for i, x in enumerate(jax.tree_util.tree_leaves(k))]


def child(keys, x64, parent):
    """What the other interpreter does."""
    warnings.simplefilter("ignore")
    out = []
    for key, (stored, pickled) in zip(keys, parent):
        res = {}
        for name, f in (("alone", lambda: work(key, x64)[0]), ("from leaves", lambda: work(key, x64, load=("leaves", stored))[0]),
                        ("from a pickle", lambda: work(key, x64, load=("pickle", pickled))[0])):
            try:
                res[name] = f()
            except Exception as err:
                res[name] = "".join(traceback.format_exception(err))[-1500:]
        out.append(res)
    return out


def episode(ctx, c, rng, e):
    with ctx.other("the programs in this interpreter"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        mine = [work(key, ctx.x64) for key in c.keys]
    with tempfile.TemporaryDirectory() as d:
        with open(d + "/in", "wb") as f:
            pickle.dump((c.keys, ctx.x64, [(m["stored"], m["pickled"]) for m, _ in mine]), f)
        env = dict(os.environ, PYTHONHASHSEED=str(c.seed), PYTHONPATH=boot.VERIF, **c.env)
        r = subprocess.run([sys.executable] + c.flags + ["-m", "vmon.child", d + "/in", d + "/out"], cwd=d, env=env, capture_output=True, timeout=400)
        if r.returncode or not os.path.exists(d + "/out"):
            if r.returncode < 0:        # a native crash of the compiler is not the library's
                ctx.count("other_interpreters_lost")
                return
            raise RuntimeError("the other interpreter failed: " + r.stderr.decode(errors="replace")[-1500:])
        with open(d + "/out", "rb") as f:
            theirs = pickle.load(f)
    for (m, cfg), t in zip(mine, theirs):
        ctx.note["program"] = describe(cfg)
        for how in ("alone", "from leaves", "from a pickle"):
            o = t[how]
            ctx.check(not isinstance(o, str), f"a program that works in one interpreter fails in another ({how}; {ctx.note['config']})", trace=o)
            ctx.check(o["leaf_order"] == m["leaf_order"], "the leaves of a controller come in another order in another interpreter", here=m["leaf_order"], there=o["leaf_order"])
            a, b = m["states"][m["cut"]:], o["states"][m["cut"]:]
            d = tr.diff_tree(o["final"], m["final"])
            ctx.check(a == b and d is None, f"the program gives other results in another interpreter ({how}; {ctx.note['config']})",
                      difference=d, first_at=next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), None))
            ctx.count("states_compared", len(a))
            ctx.count("resumed_elsewhere", how != "alone")
        ctx.check(m["names"] == t["alone"]["names"], "the accumulators come in another order in another interpreter", here=m["names"], there=t["alone"]["names"])
        for x, y in zip(m["chain"], t["alone"]["chain"]):
            ctx.check(x == y, f"the operation {x[0]} gives another result in another interpreter ({ctx.note['config']})")
            ctx.count("operations_compared")
        for x, y in zip(m["refusals"], t["alone"]["refusals"]):
            ctx.check(x[1] != "accepted", f"a call that must be refused ({x[0]}) is accepted")
            ctx.check(x == y, f"a call is refused with {x} here and gives {y} in another interpreter ({ctx.note['config']})")
            ctx.count("refusals_compared")
        ctx.seen(c.seed, tuple(c.flags), str(c.env), ctx.note["program"])
    ctx.count("other_interpreters")
    ctx.sample(config=ctx.note["config"], program=ctx.note["program"])
