"""python -m vmon.worker SPEC.json : runs the blocks of one check and writes what was observed."""
import importlib
import json
import os
import sys
import time
import traceback
import warnings


def main():
    spec = json.load(open(sys.argv[1]))
    out = spec["out"]
    from vmon import boot
    boot.import_subject()
    import jax  # noqa
    warnings.filterwarnings("ignore")
    from vmon.ctx import Ctx, Violation, Abort, rng_for
    prop = spec["prop"]
    mod = importlib.import_module(f"vmon.checks.{prop.lower()}")
    pid = int(prop[1:])
    tier, seed, x64 = spec["tier"], spec["seed"], spec["x64"]
    t0 = time.time()
    state = dict(status="running")

    def dump(status, **kw):
        state.update(status=status, counters=dict(ctx.counters), aborts=dict(ctx.aborts.most_common(12)),
                     distinct=sorted(ctx.distinct), samples=ctx.samples, known=ctx.known, wall=time.time() - t0, **kw)
        tmp = out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(state, f)
        os.replace(tmp, out)

    cur = {}

    def sink(v):
        dump("violation", violation=dict(v, **cur))

    ctx = Ctx(prop, tier, seed, x64, sink)
    E = spec["episodes"]
    errors = 0
    for b in spec["blocks"]:
        if time.time() - t0 > spec["soft"]:
            ctx.count("blocks_skipped_for_time")
            continue
        cur.clear()
        cur.update(block=b, episode=-1)
        dump("running", next_block=b)
        ctx.note = dict(block=b)
        try:
            cfg = None
            for e in range(-1, E if spec.get("upto") is None else spec["upto"] + 1):
                cur["episode"] = e
                try:
                    if e == -1:
                        cfg = mod.make(ctx, rng_for(seed, pid, b), b)
                        continue
                    mod.episode(ctx, cfg, rng_for(seed, pid, b, e + 1), e)
                    ctx.count("episodes")
                except Abort:
                    ctx.count("episodes_aborted")
                    if e == -1:
                        break
            ctx.count("blocks")
        except Violation:
            pass
        except Exception:
            if ctx.violation is None:
                errors += 1
                ctx.aborts["HARNESS " + traceback.format_exc()[-900:]] += 1
        finally:
            try:
                from vmon import probe
                probe.HUB.reset()
            except Exception:
                pass
        if ctx.violation is not None:
            dump("violation")
            return
        if errors > 3:
            break
    dump("error" if errors else "done", errors=errors)


if __name__ == "__main__":
    main()
