"""Refusals are provoked at random places; what they say and what they carry is judged."""
import re
from vmon.checks._prog import *  # noqa
from vmon.checks.c16 import has_half
from src.jax_act import AbstractACTTemplate
from src.jax_act.core import utils

# Names that do not occur in one another or in any message by chance
WORDS = ["qavon", "zilber", "mokrate", "{pluvo}", "%s trondel", "häxvuk", "wo bri", "0", "fenzig", "drumlok", "a_name_that_goes_on_for_quite_some_time_before_it_ends_one",
         "a_name_that_goes_on_for_quite_some_time_before_it_ends_two", "w" * 130 + " vo", "x.y/z-" * 12]


class OnPurpose(Exception):
    """An exception of the user's own."""


class Odd(BaseException):
    pass


def make(ctx, rng, b):
    c = config(rng, ctx.x64, b, naccs=int(rng.integers(2, 5)))
    words = [w for w in WORDS if w != "0"]
    rng.shuffle(words)
    new = dict(zip(c.names, words))
    c.specs = {new[n]: c.specs[n] for n in c.names}
    if rng.random() < 0.4:      # numbers of several digits
        wide = [Leaf(rand_leaf_shape(rng, c.bshape)[:max(3, len(c.bshape))], F32) for _ in range(int(rng.integers(11, 30)))]
        wide = pick(rng, [wide, tuple(wide), {"a": wide[:3], "b": tuple(wide[3:])}, {f"k{(7 * i) % 101:03d}": l for i, l in enumerate(wide)}])
        c.specs[pick(rng, sorted(c.specs))] = wide
    c.uspecs = dict(c.specs)
    c.spare = words[len(c.names)]
    c.names = [new[n] for n in c.names]
    c.half = has_half(c)
    ctx.note["config"] = describe(c)
    return c


def linked(err):
    """The exception and all that a traceback shows it was raised from, or while handling."""
    out, todo = [], [err]
    while todo:
        x = todo.pop()
        if x is not None and not any(x is y for y in out):
            out.append(x)
            todo += [x.__cause__, None if x.__suppress_context__ else x.__context__]
    return out


def said(err):
    return "\n".join(str(x) for x in linked(err))


def names_only(ctx, c, err, name, what):
    t = said(err)
    ctx.check(name in t, f"{what}: nothing in the error names {name!r}", error=t)
    for n in c.names:
        if n != name:
            ctx.check(f"'{n}'" not in t and f'"{n}"' not in t, f"{what}: the error names {n!r}, which has nothing to do with it, beside {name!r}", error=t)
    ctx.count("names_judged")


def leaf_number(ctx, err, i, what):
    t = said(err)
    got = [int(x) for x in re.findall(r"lea(?:f|ves)\D{0,14}(\d+)", t)]
    ctx.check(i in got, f"{what}: the error speaks of leaf {got}, the offending one is leaf {i}", error=t)
    ctx.count("leaf_numbers_judged")


def episode(ctx, c, rng, e):
    with ctx.other("preparing"):
        k = build(rng, c)
        for s in program(rng, c, int(rng.integers(0, 3)), kind="normal"):
            k = step(k, s["h"], s["ups"], s["order"])
        ups = {nm: update_tree(rng, c, nm, 0.0) for nm in c.names}
        h = halting(rng, c, "uniform")
    commits(ctx, c, rng, k, ups, h)
    definitions(ctx, c, rng, k)
    edits(ctx, c, rng, k)
    own_errors(ctx, c, rng, k, ups, h, e)
    ctx.sample(config=ctx.note["config"])


def commits(ctx, c, rng, k, ups, h):
    for _ in range(3):
        nm = pick(rng, c.names)
        err = ctx.raises("caching for an unknown accumulator", ValueError, lambda: k.cache_update(c.spare, ups[nm]))
        names_only(ctx, c, err, c.spare, "caching for an unknown accumulator")
        with ctx.other("caching"):
            q = k.cache_update(nm, ups[nm])
        err = ctx.raises("caching twice", RuntimeError, lambda: q.cache_update(nm, ups[nm]))
        names_only(ctx, c, err, nm, "caching twice")
        # one accumulator is at fault at a commit
        order = list(c.names)
        rng.shuffle(order)
        what = pick(rng, ["missing", "missing", "shape", "number of leaves"])
        bad = dict(ups)
        ls = tr.leaves(ups[nm])
        if what == "shape" and ls:
            path, x = ls[int(rng.integers(len(ls)))]
            bad[nm] = tr.set_at(ups[nm], path, jnp.zeros(x.shape + (2,), x.dtype))
        elif what == "number of leaves":
            bad[nm] = [ups[nm], jnp.zeros(c.bshape)]
        else:
            what = "missing"
        with ctx.other("caching"):
            q = k
            for n in order:
                if n != nm or what != "missing":
                    q = q.cache_update(n, bad[n])
        err = ctx.raises(f"committing with an update at fault ({what})", RuntimeError, lambda: q.iterate_act(h))
        names_only(ctx, c, err, nm, f"committing with the update of one accumulator at fault ({what})")
        if not c.half and rng.random() < 0.15:
            err = ctx.raises(f"committing under jit with an update at fault ({what})", RuntimeError, lambda: jax.jit(lambda q: q.iterate_act(h))(q))
            names_only(ctx, c, err, nm, f"committing under jit with an update at fault ({what})")
        ctx.count("commits: " + what)
        ctx.seen("commit", what, nm, tuple(c.names), tr.skeleton(ups[nm]))


def flat_index(tree, path):
    paths = [p for p, _ in tr.leaves(tree)]
    return paths.index(path)


def definitions(ctx, c, rng, k):
    b = ControllerBuilder.new_builder(list(c.bshape), c.core_arg, c.eps, c.dep)
    for _ in range(3):
        spec = pick(rng, [c.specs[n] for n in c.names])
        ls = tr.leaves(spec)
        if not ls:
            continue
        i = int(rng.integers(len(ls)))
        path = ls[i][0]
        good = tr.tmap(lambda l: jnp.zeros(l.shape, l.dtype), spec)
        if rng.random() < 0.5 or not c.bshape:
            bad, exc, what = tr.set_at(good, path, jnp.zeros(ls[i][1].shape, jnp.int32)), TypeError, "an integer leaf"
        else:
            shape = (c.bshape[0] + 1,) + tuple(c.bshape[1:])
            bad, exc, what = tr.set_at(good, path, jnp.zeros(shape)), ValueError, "a leaf of another batch shape"
        err = ctx.raises(f"defining with {what}", exc, lambda: b.define_accumulator_directly(c.spare, bad))
        leaf_number(ctx, err, order_in_jax(bad, path), f"defining with {what}")
        if exc is ValueError:
            shapes = tr.tmap(lambda x: list(x.shape), bad)
            err = ctx.raises(f"defining by shapes with {what}", exc, lambda: b.define_accumulator_by_shape(c.spare, shapes))
            names_only(ctx, c, err, c.spare, "defining by shapes")
            leaf_number(ctx, err, order_in_jax(bad, path), f"defining by shapes with {what}")
        ctx.seen("define", what, i, len(ls), tr.skeleton(good))


def order_in_jax(tree, path):
    """The number of the leaf at the path, dictionaries being walked in the order of their keys."""
    marked = tr.unzip_map(lambda p, x: 1 if p == path else 0, tree)
    return jax.tree_util.tree_leaves(marked).index(1)


def edits(ctx, c, rng, k):
    ed = TensorEditor.edit_controller(k)
    for _ in range(2):
        nm = pick(rng, [n for n in c.names])
        plain = c.spare if not set("{}%") & set(c.spare) else "never"
        f = [lambda: ed.set_accumulator(plain, k.accumulators[nm]), lambda: ed.set_defaults(plain, k.accumulators[nm]),
             lambda: ed.set_updates(plain, k.accumulators[nm])][int(rng.integers(3))]
        err = ctx.raises("editing an undefined accumulator", Exception, f)
        names_only(ctx, c, err, plain, "editing an undefined accumulator")
        ls = tr.leaves(k.accumulators[nm])
        if not ls or set("{}%") & set(nm):
            continue
        path, x = ls[int(rng.integers(len(ls)))]
        bad = tr.set_at(k.accumulators[nm], path, jnp.zeros(x.shape + (1,), x.dtype))
        f = [lambda: ed.set_accumulator(nm, bad), lambda: ed.set_defaults(nm, bad), lambda: ed.set_updates(nm, bad)][int(rng.integers(3))]
        err = ctx.raises("an edit with one leaf of another shape", Exception, f)
        leaf_number(ctx, err, order_in_jax(bad, path), "an edit with one leaf of another shape")
        ctx.seen("edit", nm, path, tr.skeleton(k.accumulators[nm]))


class Layer(AbstractACTTemplate):
    def __init__(self, k, ups, h, where, err, at=0):
        self.k, self.ups, self.h, self.where, self.err, self.at, self.n = k, ups, h, where, err, at, 0

    def fail(self, where):
        if self.where == where:
            raise self.err

    def make_controller(self, initial_state, depression_constant, *args, **kwargs):
        self.fail("make_controller")
        return self.k

    def setup_lazy_parameters(self, controller, state):
        self.fail("setup_lazy_parameters")

    def run_iteration(self, controller, state):
        self.n += 1
        if self.n > self.at:
            self.fail("run_iteration")
        return step(controller, self.h, self.ups), state


def exception(rng):
    """An exception, sometimes one which is itself raised from another, or while handling another."""
    err, how = plain_exception(rng), int(rng.integers(5))
    if how in (0, 1):
        err.__cause__ = plain_exception(rng)
    if how in (1, 2):
        err.__context__ = plain_exception(rng)
        err.__context__.__cause__ = KeyError("deeper")
    return err


def plain_exception(rng):
    return pick(rng, [lambda: OnPurpose("purpose"), lambda: KeyError("purpose"), lambda: ValueError("purpose"), lambda: RuntimeError("purpose"),
                      lambda: TypeError("purpose"), lambda: StopIteration("purpose"), lambda: AssertionError("purpose"), lambda: IndexError(3),
                      lambda: ZeroDivisionError(), lambda: NotImplementedError("purpose"), lambda: AttributeError("purpose")])()


def carried(ctx, got, err, what):
    ctx.check(any(x is err for x in linked(got)), f"{what}: the error of the user's own code is not among what the error was raised from",
              got=[repr(x)[:200] for x in linked(got)], raised=repr(err))
    ctx.count("causes_judged")


def own_errors(ctx, c, rng, k, ups, h, e):
    """What the user's code raises reaches the caller."""
    for _ in range(2):
        err = exception(rng)
        if c.half:
            break
        where = pick(rng, ["make_controller", "setup_lazy_parameters", "run_iteration", "run_iteration"])
        untraced = rng.random() < 0.3
        at = int(rng.integers(0, 3)) if untraced and where == "run_iteration" else 0
        check = bool(rng.integers(4))
        with ctx.other("a controller not halted"):
            q = build(rng, c, c.starts)
        zero = jnp.zeros_like(h)
        layer = Layer(q, ups, zero, where, err, at)
        if where == "run_iteration" and untraced and not np.prod(c.bshape):
            continue
        if isinstance(err, StopIteration) and where == "run_iteration":
            continue
        what = f"a layer whose {where} fails with {type(err).__name__}"
        with jax.disable_jit(untraced):
            got = ctx.raises(what, BaseException, lambda: layer.execute_act(jnp.asarray(0), 1.0, 5, check))
        ctx.check(got is err, f"{what}: the caller does not get this error", got=repr(got)[:300], raised=repr(err))
        ctx.count("errors_of_layers_judged")
        ctx.seen("layer", where, type(err).__name__, check, untraced)
    # a function given to a viewer fails on one tensor
    err = exception(rng)
    hit = int(rng.integers(len(jax.tree_util.tree_leaves(k.accumulators)) + 3))
    n = []

    def f(x):
        n.append(1)
        if len(n) > hit:
            raise err
        return x
    got = ctx.raises("transforming with a function that fails", RuntimeError, lambda: k.make_viewer().transform(f))
    carried(ctx, got, err, f"transforming with a function that fails with {type(err).__name__} at the {hit + 1}th tensor")
    # an operator fails on one pair of leaves
    nm = pick(rng, c.names)
    t = ups[nm]
    ls = jax.tree_util.tree_leaves(t)
    if not ls:
        return
    err, at, m = exception(rng), int(rng.integers(len(ls))), []

    def op(a, b):
        m.append(1)
        if len(m) == at + 1:
            raise err
        return a
    got = ctx.raises("a binary operator that fails", RuntimeError, lambda: utils.execute_binary_operator(op, t, t, "while blenching: "))
    carried(ctx, got, err, "a binary operator that fails")
    ctx.check("while blenching" in said(got), "the context given to execute_binary_operator is not in the error", error=said(got))
    ctx.check(re.search(rf"\b{at}\b", str(got)) is not None, f"the error does not say that leaf {at} was being worked on", error=str(got))
    ctx.seen("operator", type(err).__name__, at, len(ls))
