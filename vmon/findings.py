"""The committed list of findings (KNOWN_FINDINGS.txt)."""
import functools
import os

from vmon import boot


@functools.lru_cache(None)
def known_findings(prop):
    out = []
    try:
        for line in open(os.path.join(boot.VERIF, "KNOWN_FINDINGS.txt")):
            if line.startswith("finding: property=" + prop + " "):
                out.append(line.split(" mechanism=", 1)[1].split(" ", 1)[0].strip())
    except OSError:
        pass
    return out
