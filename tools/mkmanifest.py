import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from vmon.meta import CHECKS
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1,
         setup_cmd="/opt/venv/bin/python -c 'import jax, flax, numpy; print(jax.__version__)'",
         hooks=dict(guard="none", enable="no hooks in /repo: the probe wraps the public API from the harness at import time",
                    source_commits=[]),
         checks=[dict(property=p, quick_cmd=f"bash run.sh {p}", thorough_cmd=f"VERIF_TIER=thorough bash run.sh {p}",
                      evidence_file=f"evidence/{p}.json", technique=c["technique"], level="exploration",
                      level_note=c["note"]) for p, c in sorted(CHECKS.items())],
         not_applicable=[dict(property=p, reason="check not built yet") for p in props if p not in CHECKS])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
