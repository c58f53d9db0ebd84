"""Online monitors: each decides one property from the events of the probe, against float64 arithmetic."""
import numpy as np

from vmon import trees as tr
from vmon.trees import f64, lb


def _h(ev):
    a = ev.args
    return a.get("h", a.get("halting_probabilities"))


def halted_of(s):
    """Halting status from the definition, plus a mask of elements too close to the threshold to tell."""
    p = s["probabilities"]
    e = tr.feps(p.dtype)
    thr = 1.0 - float(s["epsilon"])
    p64 = f64(p)
    halted = (p64 > thr) | (p64 >= 1.0)
    unsure = (np.abs(p64 - thr) <= 4 * e) & (p64 < 1.0)
    if _exact_in(thr, p.dtype):          # the threshold is representable: > is decided exactly
        unsure = np.zeros_like(unsure)
    return halted, unsure


def _exact_in(x, dtype):
    x = np.asarray(x, dtype=np.float64)
    with np.errstate(all="ignore"):
        return bool(np.all(f64(x.astype(dtype)) == x))


class Monitor:
    def __init__(self, ctx, dyadic=False):
        self.ctx, self.dyadic, self.n = ctx, dyadic, 0

    def __call__(self, ev):
        if ev.err is None:
            f = getattr(self, "on_" + ev.op, None)
            if f:
                f(ev)


class ProbabilityLaw(Monitor):
    """C01"""
    def on_iterate_act(self, ev):
        ctx = self.ctx
        ctx.count("iterate_events")
        self.n += 1
        pre, post = ev.pre["probabilities"], ev.post["probabilities"]
        e = tr.feps(pre.dtype)
        ctx.check(post.shape == pre.shape, "shape of the probabilities changed", pre=pre, post=post)
        p, q = f64(pre), f64(post)
        h = f64(_h(ev))
        c = float(ev.pre["depression_constant"])
        eps = float(ev.pre["epsilon"])
        w = dict(p_before=tr.short(pre), h=tr.short(_h(ev)), p_after=tr.short(post), c=c, eps=eps, traced=ev.traced)
        ctx.check(bool(np.all((q >= 0) & (q <= 1.0))), "cumulative probability outside [0, 1]", **w)
        ctx.check(bool(np.all(q >= p)), "cumulative probability decreased", **w)
        add = c * np.clip(h, 0.0, 1.0)
        s = p + add
        thr = 1.0 - eps
        tol = 4 * e * max(1.0, c)
        is_one = np.abs(q - 1.0) <= 2 * e
        is_sum = np.abs(q - s) <= tol
        must_halt = (s > thr + tol) | (s >= 1.0 + tol)
        must_not = (s < thr - tol) & (s < 1.0 - tol)
        # thresholds at or above the largest value below one: only reaching one halts
        if self.dyadic and _exact_in(thr, pre.dtype) and _exact_in(eps, pre.dtype):
            ex = np.vectorize(lambda x: _exact_in(x, pre.dtype))
            if p.size:
                exact = ex(add) & ex(s)
                must_halt = np.where(exact, (s > thr) | (s >= 1.0), must_halt)
                must_not = np.where(exact, ~((s > thr) | (s >= 1.0)), must_not)
                is_sum = np.where(exact, q == s, is_sum)
                ctx.count("exact_decisions", int(exact.sum()))
        already = (p >= 1.0)
        known_h, unsure = halted_of(ev.pre)
        skip = (known_h | unsure) & ~already      # halted only by an edit: frozen probabilities not claimed
        ok = np.where(skip, True, np.where(already, q == 1.0,
              np.where(must_halt, q == 1.0, np.where(must_not, is_sum & (q <= np.maximum(thr + tol, 0)),
                                                     is_one | is_sum))))
        ctx.check(bool(np.all(ok)), "cumulative probability does not follow the law", expected=s, **w)
        if p.size:
            ctx.seen("p", str(pre.dtype), np.round(p, 2).tobytes(), np.round(q, 2).tobytes())
            ctx.count("elements_judged", int(p.size))
            ctx.count("halting_transitions", int((must_halt & (p < thr)).sum()))
            if np.any((h < 0) | (h > 1)):
                ctx.count("clipped_inputs")


class Accumulation(Monitor):
    """C02: one step."""
    def on_iterate_act(self, ev):
        ctx = self.ctx
        ctx.count("iterate_events")
        pp = ev.pre["probabilities"]
        ec = tr.feps(pp.dtype)
        p, q = f64(pp), f64(ev.post["probabilities"])
        dp = q - p
        pre_h, unsure = halted_of(ev.pre)
        edge = (pre_h | unsure) & (p < 1.0)
        for name in ev.pre["accumulators"]:
            ctx.check(name in ev.post["accumulators"], f"accumulator {name!r} vanished")
            a0 = dict(tr.leaves(ev.pre["accumulators"][name]))
            a1 = dict(tr.leaves(ev.post["accumulators"][name]))
            up = dict(tr.leaves(ev.pre["updates"][name]))
            ctx.check(set(a0) == set(a1), f"leaves of accumulator {name!r} changed")
            for path, acc in a0.items():
                new, u = a1[path], up[path]
                ctx.check(new.shape == acc.shape, f"shape of leaf {name!r}{path} changed", pre=acc, post=new)
                if acc.size == 0:
                    continue
                ea = tr.feps(acc.dtype)
                with np.errstate(all="ignore"):
                    A, N, U = f64(acc), f64(new), f64(u)
                    D = np.broadcast_to(lb(dp, A.ndim), A.shape)
                    live = ~np.broadcast_to(lb(pre_h | edge, A.ndim), A.shape)
                    want = A + D * U
                    tol = 4 * ea * (np.abs(A) + np.abs(D * U) + np.abs(want)) + 2 * tr.ftiny(acc.dtype) * (1 + np.abs(U))
                    tol = tol + (0 if self.dyadic and ec >= ea else 4 * ec * np.abs(U))
                    big = float(np.finfo(np.float64).max) if str(acc.dtype) == "float64" else 3e4 if str(acc.dtype) == "float16" or str(u.dtype) == "float16" else 1e36
                    judge = live & np.isfinite(A) & np.isfinite(U) & (np.abs(want) < big)
                    ok = ~judge | (np.abs(N - want) <= tol)
                    # what is not finite has no value to compare, but must show
                    odd = live & ~(np.isfinite(A) & np.isfinite(U)) & (D > 1e-2) & (np.isinf(U) | (np.abs(U) < 1e4) | np.isnan(U))
                    ok &= ~odd | (N == want) | np.isnan(N) & np.isnan(want)
                    ctx.count("non_finite_elements_judged", int(odd.sum()))
                if not ok.all():
                    i = tuple(int(x[0]) for x in np.nonzero(~ok)) if ok.ndim else ()
                    ctx.report(f"accumulator {name!r} leaf {path} did not change by weight times update: element {i} "
                               f"was {A[i]}, update {U[i]}, weight {D[i]}, expected {want[i]}, got {N[i]}",
                               acc=tr.short(acc), update=tr.short(u), after=tr.short(new), p=tr.short(pp),
                               p_after=tr.short(ev.post["probabilities"]), traced=ev.traced)
                ctx.count("oracle_decisions")
                ctx.count("leaf_elements_judged", int(judge.sum()))
                ctx.seen("acc", name, acc.shape, str(acc.dtype), str(u.dtype), np.round(p, 2).tobytes())


class Frozen(Monitor):
    """C03"""
    def on_iterate_act(self, ev):
        ctx = self.ctx
        ctx.count("iterate_events")
        halted, unsure = halted_of(ev.pre)
        sure = halted & ~unsure
        if not sure.any():
            return
        ctx.count("events_with_halted_elements")
        ctx.count("halted_elements_judged", int(sure.sum()))
        p0, p1 = ev.pre["probabilities"], ev.post["probabilities"]
        one = sure & (f64(p0) == 1.0)
        self._bits("cumulative probability", p0, p1, one, ev)
        self._bits("residual", ev.pre["residuals"], ev.post["residuals"], sure, ev)
        self._bits("iteration count", ev.pre["iterations"], ev.post["iterations"], sure, ev)
        for name in ev.pre["accumulators"]:
            a1 = dict(tr.leaves(ev.post["accumulators"][name]))
            ups = dict(tr.leaves(ev.pre["updates"][name]))
            for path, acc in tr.leaves(ev.pre["accumulators"][name]):
                self._bits(f"accumulator {name!r}{path}", acc, a1.get(path), sure, ev)
                with np.errstate(all="ignore"):
                    if not np.isfinite(f64(ups[path])).all():
                        ctx.count("hostile_updates_seen")
        ctx.seen("frozen", halted.tobytes(), halted.shape, str(p0.dtype), np.round(f64(_h(ev)), 2).tobytes())

    def _bits(self, what, a, b, mask, ev):
        ctx = self.ctx
        ctx.check(b is not None and a.shape == b.shape and a.dtype == b.dtype, f"{what}: shape or dtype changed",
                  pre=tr.short(a), post=tr.short(b))
        m = np.broadcast_to(lb(mask, a.ndim), a.shape)
        x, y = np.ascontiguousarray(a)[m], np.ascontiguousarray(b)[m]
        n = a.dtype.itemsize
        same = np.array_equal(np.frombuffer(x.tobytes(), np.uint8), np.frombuffer(y.tobytes(), np.uint8))
        if not same and x.size:      # any NaN payload is the same NaN, either zero the same zero
            fx, fy = f64(x), f64(y)
            same = bool(np.all((fx == fy) | (np.isnan(fx) & np.isnan(fy))))
        ctx.check(same, f"{what} of a halted batch element changed", before=tr.short(a), after=tr.short(b),
                  halted=tr.short(mask), p=tr.short(ev.pre["probabilities"]), h=tr.short(_h(ev)), traced=ev.traced)


class Bookkeeping(Monitor):
    """C04"""
    def on_iterate_act(self, ev):
        ctx = self.ctx
        ctx.count("iterate_events")
        pre_h, pre_u = halted_of(ev.pre)
        post_h, post_u = halted_of(ev.post)
        p0 = ev.pre["probabilities"]
        e = tr.feps(p0.dtype)
        sure = ~pre_u
        i0, i1 = f64(ev.pre["iterations"]), f64(ev.post["iterations"])
        r0, r1 = f64(ev.pre["residuals"]), f64(ev.post["residuals"])
        w = dict(p_before=tr.short(p0), p_after=tr.short(ev.post["probabilities"]), h=tr.short(_h(ev)),
                 iterations=f"{tr.short(ev.pre['iterations'])} -> {tr.short(ev.post['iterations'])}",
                 residuals=f"{tr.short(ev.pre['residuals'])} -> {tr.short(ev.post['residuals'])}",
                 eps=ev.pre["epsilon"], traced=ev.traced)
        ctx.check(i1.shape == i0.shape and r1.shape == r0.shape, "shape of the statistics changed", **w)
        big = 1.0 / e if ev.pre["iterations"].dtype.kind not in "iu" else np.inf
        okc = np.where(sure & (i0 < big - 1), i1 == i0 + (~pre_h), True)
        ctx.check(bool(np.all(okc)), "iteration counter is not advanced by one exactly where unhalted", **w)
        newly = ~pre_h & post_h & sure & ~post_u
        one = f64(ev.post["probabilities"]) >= 1.0
        ok = np.where(~pre_h & sure, (r1 != r0) == one, True) | (r0 != 0) | (f64(p0) >= 1.0)
        ctx.check(bool(np.all(ok)), "a residual was set although the element did not halt, or not set although it did", **w)
        want = 1.0 - f64(p0)
        ok = np.where(newly, np.abs(r1 - want) <= e * np.maximum(want, e), True)
        ctx.check(bool(np.all(ok)), "residual of a newly halted element is not one minus its previous probability",
                  expected=want, **w)
        still = sure & ~post_u & ~newly
        same = np.where(still, r1 == r0, True)
        ctx.check(bool(np.all(same)), "residual changed although the element did not halt in this iteration", **w)
        ctx.count("newly_halted_elements", int(newly.sum()))
        ctx.count("live_elements", int((~pre_h).sum()))
        if newly.any():
            ctx.seen("book", str(p0.dtype), np.round(f64(p0), 2).tobytes(), newly.tobytes(), i0.tobytes())


class Status(Monitor):
    """C05: needs HUB.status."""
    def __init__(self, ctx, dyadic=False):
        super().__init__(ctx, dyadic)
        self.prev = None

    def on_iterate_act(self, ev):
        self.ctx.count("iterate_events")
        self.judge(ev.pre, "before an iteration", ev)
        self.judge(ev.post, "after an iteration", ev)
        h0, u0 = np.asarray(ev.pre["status"]["halted"]), None
        h1 = np.asarray(ev.post["status"]["halted"])
        self.ctx.check(bool(np.all(~h0 | h1)), "a halted element is reported unhalted after an iteration",
                       p=tr.short(ev.pre["probabilities"]), p_after=tr.short(ev.post["probabilities"]),
                       eps=ev.pre["epsilon"], h=tr.short(_h(ev)))

    def on_cache_update(self, ev):
        self.judge(ev.post, "after caching", ev)

    def on_reset_batches(self, ev):
        self.judge(ev.post, "after a reset", ev)
        st = np.asarray(ev.post["status"]["halted"])
        self.ctx.check(not st.any() or float(ev.post["epsilon"]) >= 1.0, "halted elements reported right after a reset",
                       status=tr.short(st))

    def judge(self, s, when, ev=None):
        judge_status(self.ctx, s, when)


def judge_status(ctx, s, when):
    st = s["status"]
    halted, unsure = halted_of(s)
    w = dict(when=when, p=tr.short(s["probabilities"]), eps=s["epsilon"], reported=str(st))
    for key in ("halted", "viewer"):
        got = np.asarray(st[key])
        ctx.check(got.shape == halted.shape, f"halted_batches ({key}) has another shape than the batch", **w)
        ctx.check(got.dtype == np.bool_, f"halted_batches ({key}) is not boolean", **w)
        ctx.check(bool(np.all((got == halted) | unsure)), f"halted_batches ({key}) does not match the probabilities", **w)
    got = np.asarray(st["halted"])
    ctx.check(bool(st["all"]) == bool(got.all()), "is_completely_halted is not the conjunction over the batch", **w)
    ctx.check(bool(st["any"]) == bool(got.any()), "is_any_halted is not the disjunction over the batch", **w)
    ups = s["updates"]
    ctx.check(bool(st["ready"]) == all(v is not None for v in ups.values()), "updates_ready_to_commit is wrong",
              updates=tr.short(ups), **w)
    ctx.check(bool(st["cached"]) == any(v is not None for v in ups.values()), "has_cached_updates is wrong",
              updates=tr.short(ups), **w)
    ctx.count("status_reports_judged")
    ctx.seen("status", str(s["probabilities"].dtype), halted.tobytes(), halted.shape,
             tuple(v is not None for v in ups.values()), round(float(s["epsilon"]), 6))


class Reset(Monitor):
    """C07"""
    def on_reset_batches(self, ev):
        ctx = self.ctx
        ctx.count("reset_events")
        halted, unsure = halted_of(ev.pre)
        live = ~halted & ~unsure
        hal = halted & ~unsure
        w = dict(p=tr.short(ev.pre["probabilities"]), eps=ev.pre["epsilon"], traced=ev.traced)
        for key in ("probabilities", "residuals", "iterations"):
            a, b = ev.pre[key], ev.post[key]
            ctx.check(a.shape == b.shape and a.dtype == b.dtype, f"{key}: shape or dtype changed by a reset", **w)
            ctx.check(bool(np.all(f64(b)[hal] == 0)), f"{key} of a halted element not reset to zero",
                      before=tr.short(a), after=tr.short(b), **w)
            ctx.check(_same_values(a[live], b[live]), f"{key} of an unhalted element changed by a reset",
                      before=tr.short(a), after=tr.short(b), **w)
        ctx.check(list(sorted(ev.pre["accumulators"])) == list(sorted(ev.post["accumulators"])),
                  "accumulator names changed by a reset", **w)
        for name in ev.pre["accumulators"]:
            post = dict(tr.leaves(ev.post["accumulators"][name]))
            dfl = dict(tr.leaves(ev.pre["defaults"][name]))
            ctx.same(None if tr.skeleton(ev.pre["accumulators"][name]) == tr.skeleton(ev.post["accumulators"][name])
                     else "", f"structure of accumulator {name!r} changed by a reset", **w)
            for path, a in tr.leaves(ev.pre["accumulators"][name]):
                b, d = post[path], dfl[path]
                mh = np.broadcast_to(lb(hal, a.ndim), a.shape)
                ml = np.broadcast_to(lb(live, a.ndim), a.shape)
                ctx.check(_same_values(b[mh], d[mh]), f"accumulator {name!r}{path} of a halted element is not its default",
                          after=tr.short(b), default=tr.short(d), **w)
                ctx.check(_same_values(b[ml], a[ml]), f"accumulator {name!r}{path} of an unhalted element changed",
                          before=tr.short(a), after=tr.short(b), **w)
        ctx.same(tr.diff_tree(ev.pre["defaults"], ev.post["defaults"]), "defaults changed by a reset", **w)
        ctx.check(float(ev.pre["epsilon"]) == float(ev.post["epsilon"]), "epsilon changed by a reset", **w)
        ctx.check(float(ev.pre["depression_constant"]) == float(ev.post["depression_constant"]),
                  "depression constant changed by a reset", **w)
        ctx.check(all(v is None for v in ev.post["updates"].values()), "updates pending after a reset", **w)
        ctx.count("elements_reset", int(hal.sum()))
        ctx.count("elements_kept", int(live.sum()))
        if hal.any() and live.any():
            ctx.count("mixed_resets")
        ctx.seen("reset", hal.tobytes(), hal.shape, tuple(sorted(ev.pre["accumulators"])),
                 np.round(f64(ev.pre["probabilities"]), 2).tobytes())


def _same_values(x, y):
    x, y = np.ascontiguousarray(x), np.ascontiguousarray(y)
    if x.dtype != y.dtype or x.shape != y.shape:
        return False
    if x.tobytes() == y.tobytes():
        return True
    fx, fy = f64(x), f64(y)
    return bool(np.all((fx == fy) | (np.isnan(fx) & np.isnan(fy))))


class Stability(Monitor):
    """C20"""
    def on_iterate_act(self, ev):
        self.ctx.count("iterate_events")
        self.judge(ev, "an iteration")
        self.ctx.check(all(v is None for v in ev.post["updates"].values()), "updates still pending after an iteration",
                       updates=tr.short(ev.post["updates"]))

    def on_reset_batches(self, ev):
        self.ctx.count("reset_events")
        self.judge(ev, "a reset")

    def on_cache_update(self, ev):
        self.ctx.count("cache_events")
        self.judge(ev, "caching an update")
        for k in ("probabilities", "residuals", "iterations", "accumulators"):
            self.ctx.same(tr.diff_tree(ev.pre[k], ev.post[k]), f"{k} changed by caching an update")
        self.ctx.check(sorted(ev.pre["updates"]) == sorted(ev.post["updates"]), "names of the updates changed")

    def judge(self, ev, what):
        ctx = self.ctx
        for k in ("probabilities", "residuals", "iterations"):
            a, b = ev.pre[k], ev.post[k]
            ctx.check(a.shape == b.shape and a.dtype == b.dtype,
                      f"{k} changed from {a.dtype}{a.shape} to {b.dtype}{b.shape} by {what}", traced=ev.traced)
        for k in ("accumulators", "defaults"):
            a, b = tr.skeleton(ev.pre[k]), tr.skeleton(ev.post[k])
            ctx.check(a == b, f"structure, shape or dtype of the {k} changed by {what}", before=a, after=b,
                      updates=tr.skeleton(ev.pre["updates"]), traced=ev.traced)
        ctx.check(sorted(ev.post["updates"]) == sorted(ev.post["accumulators"]), f"update slots do not match the "
                  f"accumulators after {what}", updates=sorted(ev.post["updates"]))
        ctx.same(tr.diff_tree(ev.pre["defaults"], ev.post["defaults"]), f"defaults changed by {what}")
        for k in ("epsilon", "depression_constant"):
            ctx.check(float(ev.pre[k]) == float(ev.post[k]), f"{k} changed by {what}: {ev.pre[k]} to {ev.post[k]}")
        ctx.seen("stab", what, str(ev.pre["probabilities"].dtype), tr.skeleton(ev.pre["accumulators"]),
                 tr.skeleton(ev.pre["updates"]), ev.traced)
