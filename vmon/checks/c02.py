from vmon.checks._prog import *  # noqa
from vmon.monitors import Accumulation, halted_of, Monitor
from vmon.trees import f64, lb


class History(Monitor):
    """Records the events for the offline replay of the whole weighted sum."""
    def __init__(self, ctx):
        super().__init__(ctx)
        self.events = []

    def on_iterate_act(self, ev):
        self.events.append(ev)

    def replay(self, c):
        """acc_T = acc_0 + sum of w_t u_t, and the weights of halted elements total one (in float64)."""
        ctx, evs = self.ctx, self.events
        if not evs or any(f64(evs[0].pre["probabilities"]).reshape(-1) != 0):
            return
        p0, pT = f64(evs[0].pre["probabilities"]), f64(evs[-1].post["probabilities"])
        W = [f64(e.post["probabilities"]) - f64(e.pre["probabilities"]) for e in evs]
        halted, unsure = halted_of(evs[-1].post)
        tot = sum(W)
        ec = tr.feps(evs[0].pre["probabilities"].dtype)
        ctx.check(bool(np.all(~(halted & ~unsure) | (np.abs(tot - 1.0) <= ec * (2 + len(W))))),
                  "the weights of a halted element do not total one", weights=[list(w.reshape(-1)[:8]) for w in W])
        for name in evs[0].pre["accumulators"]:
            for path, a0 in tr.leaves(evs[0].pre["accumulators"][name]):
                aT = dict(tr.leaves(evs[-1].post["accumulators"][name]))[path]
                ea = tr.feps(a0.dtype)
                with np.errstate(all="ignore"):
                    s, mag = f64(a0).copy(), np.abs(f64(a0))
                    fin = np.isfinite(s)
                    for e, w in zip(evs, W):
                        u = f64(dict(tr.leaves(e.pre["updates"][name]))[path])
                        wl = np.broadcast_to(lb(w, u.ndim), u.shape)
                        # a tiny weight may be lost in the rounding of the cumulative probability, and still be used
                        h0, un0 = halted_of(e.pre)
                        used = np.broadcast_to(lb(~(h0 & ~un0), u.ndim), u.shape)
                        fin &= ~used | np.isfinite(u)
                        uu = np.where(used, u, 0)
                        s = s + wl * uu
                        mag = mag + np.abs(wl * uu) + np.abs(uu) * (ec / max(ea, 1e-30) if not c.dyadic or ec < ea else 1)
                    big = 3e4 if any(str(x.dtype) == "float16" for x in (a0, *(dict(tr.leaves(e.pre["updates"][name]))[path] for e in evs))) else 1e36
                    tol = ea * mag * (4 + 2 * len(W)) + tr.ftiny(a0.dtype) * (1 + mag) * len(W) * 2
                    ok = ~fin | (np.abs(s) > big) | (mag > big) | (np.abs(f64(aT) - s) <= tol)
                ctx.check(bool(np.all(ok)), f"accumulator {name!r}{path} is not its start plus the weighted sum of the updates",
                          expected=s.reshape(-1)[:8], got=tr.short(aT), events=len(evs))
        ctx.count("histories_replayed")


def make(ctx, rng, b):
    c = config(rng, ctx.x64, b, batches=[[2], [3], [2, 3], [3, 3], [2, 2], [1], [], [5], [2, 2, 2], [1, 4], [4], [3, 1], [2, 2, 1]] if b % 4 else None)
    if rng.random() < 0.4:      # accumulators that look alike, and so do their updates
        for nm in c.names[1:]:
            c.specs[nm], c.uspecs[nm] = c.specs[c.names[0]], c.uspecs[c.names[0]]
    c.mode = mode_of(b, c)
    c.T = int(rng.integers(2, 9)) if b % 7 else 40
    ctx.note["config"] = describe(c) + f" mode={c.mode} T={c.T}"
    return c


def magnify(k, t):
    """The tree with its single and double precision leaves multiplied by a power of two."""
    return tr.tmap(lambda x: jnp.asarray(np.asarray(x) * np.asarray(k, x.dtype)) if str(x.dtype) in ("float32", "float64") else x, t)


def share(ctx, rng, ups):
    """Names whose updates look alike get the very same update, or the same tensors."""
    names = list(ups)
    rng.shuffle(names)
    whole, pool = {}, {}
    for nm in names:
        if ups[nm] is None:
            continue
        ls, td = jax.tree_util.tree_flatten(ups[nm])
        look = (str(td), tuple((x.shape, str(x.dtype)) for x in ls))
        if look in whole and rng.random() < 0.7:
            ups[nm] = whole[look]
            ctx.count("updates_given_for_several_accumulators")
            continue
        ls = [pool.setdefault((x.shape, str(x.dtype)), x) if rng.random() < 0.5 else x for x in ls]
        ups[nm] = whole[look] = jax.tree_util.tree_unflatten(td, ls)


def episode(ctx, c, rng, e):
    if rng.random() < 0.2:
        landing(ctx, c, rng, "C02")
    with ctx.other("building"):
        ctrl = build(rng, c)
        if c.mode in ("eager", "jit") and e % 2:
            ctrl = warm(ctx, c, rng, ctrl)
    whole = e % 2 == 0
    scaled = {}
    if rng.random() < 0.3:      # accumulators of very different orders of magnitude
        scaled = {nm: 2.0 ** int(pick(rng, [0, -27, -40, -66, 20, 40])) for nm in c.names}
        with ctx.other("building"):
            starts = {nm: magnify(scaled[nm], c.starts[nm]) for nm in c.names}
            ctrl = build(rng, c, starts)
    prog = program(rng, c, c.T, subst=0.15 if c.mode == "eager" else 0, resets=0 if whole or c.mode not in ("eager", "jit", "scan") else 0.15,
                   hostile=0.0 if whole else 0.1)
    for s in prog if scaled else ():
        s["ups"] = {nm: magnify(scaled[nm], s["ups"][nm]) for nm in c.names}
        ctx.count("steps_with_scaled_updates")
    for s in prog if rng.random() < 0.35 else ():     # the same tensor for several accumulators
        share(ctx, rng, s["ups"])
    mons = [Accumulation(ctx, c.dyadic)]
    hist = History(ctx)
    if whole and c.mode != "vmap":
        mons.append(hist)
    monitored(ctx, c, c.mode, rng, prog, mons, ctrl=ctrl)
    hist.replay(c)
    ctx.sample(config=ctx.note["config"], h=[tr.short(s["h"]) for s in prog[:6]])
