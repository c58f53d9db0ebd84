"""python -m vmon.runner Cxx [--replay FILE]

Exit 0: held on everything observed. 1: VIOLATION line printed. 2: inconclusive (harness error, time-out, or
too few events reached the deciding monitor).
"""
import collections
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from vmon import boot
from vmon.findings import known_findings

NW = 8


def main():
    prop = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    # plain data of the check module, without importing the code under test
    meta = importlib.import_module("vmon.meta").CHECKS[prop]
    budget = meta[tier]
    t0 = time.time()
    upto = None
    blocks = list(range(budget["blocks"]))
    if replay:
        r = json.load(open(replay))
        tier, seed, blocks, upto = r["tier"], r["seed"], [r["block"]], max(r["episode"], 0)
        budget = meta[tier]
    soft = float(os.environ.get("VMON_SOFT", budget.get("soft", 60 if tier == "quick" else 600)))
    hard = soft + 240
    tmp = tempfile.mkdtemp(prefix="vmon_")
    try:
        res, problems = [], []
        live = []
        gen = [0]

        def spawn(w, mine):
            gen[0] += 1
            tag = f"{w}_{gen[0]}"
            x64 = w % 4 == 3
            out, log = os.path.join(tmp, f"w{tag}.json"), os.path.join(tmp, f"l{tag}.txt")
            spec = dict(prop=prop, tier=tier, seed=seed, x64=x64, blocks=mine, episodes=budget["episodes"],
                        soft=max(1.0, soft - (time.time() - t0)), out=out, upto=upto)
            sp = os.path.join(tmp, f"s{tag}.json")
            json.dump(spec, open(sp, "w"))
            p = subprocess.Popen([sys.executable, "-m", "vmon.worker", sp], cwd=boot.VERIF,
                                 env=boot.worker_env(x64, meta.get("devices", 1)), stdout=open(log, "w"), stderr=subprocess.STDOUT)
            live.append((w, p, out, log, mine))

        for w in range(NW):
            mine = [b for b in blocks if b % NW == w]
            if mine:
                spawn(w, mine)
        nproc, native, early, timed_out = len(live), 0, None, False
        while live:
            time.sleep(0.1)
            for item in list(live):
                w, p, out, log, mine = item
                if p.poll() is None:
                    if early is None and _status(out) == "violation":
                        early = time.time()
                    continue
                live.remove(item)
                r = _read(out)
                if r:
                    res.append(r)
                if r and r["status"] == "violation":
                    early = early or time.time()
                elif p.returncode < 0 and r and "next_block" in r and native < 6:
                    # the compiler of jaxlib crashed natively: skip that block and go on
                    native += 1
                    rest = mine[mine.index(r["next_block"]) + 1:]
                    if rest and early is None:
                        spawn(w, rest)
                elif not r or r["status"] != "done":
                    tail = open(log).read()[-800:] if not r or not r.get("aborts") else \
                        str([k for k in r["aborts"] if k.startswith("HARNESS")])[:1500]
                    problems.append(f"worker {w}: rc={p.returncode} status={r and r['status']} {tail}")
            now = time.time()
            if now - t0 > hard or (early is not None and now - early > 3):
                timed_out = early is None
                for _, p, out, _, _ in live:
                    p.kill()
                    p.wait()
                    r = _read(out)
                    if r:
                        res.append(r)
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    counters, aborts, distinct, samples = collections.Counter(), collections.Counter(), set(), []
    viols = []
    for r in res:
        counters.update(r.get("counters", {}))
        aborts.update(r.get("aborts", {}))
        distinct.update(r.get("distinct", []))
        samples += r.get("samples", [])
        if r.get("violation"):
            viols.append(r["violation"])
    viols.sort(key=lambda v: (v["block"], v["episode"]))
    known = known_findings(prop)
    fresh = [v for v in viols if not (v.get("mechanism") and v["mechanism"] in known)]
    missing = [f"{k}: {counters.get(k, 0)} < {n}" for k, n in meta["required"].items() if counters.get(k, 0) < n]
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=int(counters.get("episodes", 0)), distinct_nontrivial=len(distinct),
                            rule=meta["rule"], samples=samples[:6] or ["none"],
                            observed={k: int(v) for k, v in sorted(counters.items())},
                            episodes_ended_early=dict(aborts.most_common(10)),
                            required_minimum=meta["required"], workers=nproc, blocks_lost_to_native_compiler_crashes=native),
              assumptions=meta.get("assumptions", []) + COMMON, wall_s=round(time.time() - t0, 2),
              violations=len(fresh))
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    if not replay:
        with open(os.path.join(boot.VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for mech, msg in sorted({k: m for r in res for k, m in r.get("known", {}).items()}.items()):
        print(f"KNOWN-FINDING: property={prop} {mech}: {msg[:200]}")
    for v in viols:
        if v not in fresh:
            print(f"KNOWN-FINDING: property={prop} {v['msg'][:200]}")
    if fresh:
        v = fresh[0]
        rp = replay
        if not rp:
            d = os.path.join(boot.VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, f"{prop}-{tier}-{seed}-{v['block']}-{v['episode']}.json")
            json.dump(dict(v, property=prop, tier=tier, seed=seed), open(rp, "w"), indent=1)
        print(f"VIOLATION property={prop} replay={rp}")
        print("  " + v["msg"][:1000])
        for k, x in list(v["note"].items()) + list(v["witness"].items()):
            print(f"  {k}: {x}")
        return 1
    if timed_out or problems:
        print(f"INCONCLUSIVE property={prop}: " + ("timed out; " if timed_out else "") + "; ".join(problems))
        return 2
    if replay:
        print(f"replay: property={prop} held")
        return 0
    if missing:
        print(f"INCONCLUSIVE property={prop}: too few events reached the monitors: {missing}; "
              f"episodes ended early: {dict(aborts.most_common(5))}")
        return 2
    print(f"HELD property={prop} tier={tier} seed={seed} episodes={counters['episodes']} "
          f"decisions={counters['oracle_decisions']} distinct={len(distinct)} aborted={counters.get('episodes_aborted', 0)} native_crashes={native} "
          f"wall={time.time() - t0:.1f}s")
    return 0


COMMON = ["XLA's CPU backend and jax.debug.callback deliver the values the program computed",
          "numpy float64 arithmetic is the reference"]


def _read(p):
    try:
        return json.load(open(p))
    except (OSError, ValueError):
        return None


def _status(p):
    r = _read(p)
    return r and r["status"]


if __name__ == "__main__":
    sys.exit(main())
