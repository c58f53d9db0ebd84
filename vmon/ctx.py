"""Verdict bookkeeping shared by all checks."""
import collections
import contextlib
import hashlib
import traceback

import numpy as np


class Violation(Exception):
    """The property was observed to be broken."""


class Abort(Exception):
    """This episode cannot go on for a reason that is not this property's business."""


class Ctx:
    def __init__(self, prop, tier, seed, x64, sink=None):
        self.prop, self.tier, self.seed, self.x64 = prop, tier, seed, x64
        self.counters = collections.Counter()
        self.aborts = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.violation = None
        self.note = {}          # description of the running episode, for witnesses
        self.sink = sink
        self.known = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def count(self, name, n=1):
        self.counters[name] += n

    def seen(self, *key):
        self.distinct.add(hashlib.blake2b(repr(key).encode(), digest_size=6).hexdigest())

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append({k: str(v)[:600] for k, v in kw.items()})

    def report(self, msg, mechanism="", **witness):
        if self.violation is None:
            self.violation = dict(msg=msg, mechanism=mechanism, note={k: str(v)[:800] for k, v in self.note.items()},
                                  witness={k: str(v)[:1500] for k, v in witness.items()})
            if self.sink:
                self.sink(self.violation)
        raise Violation(msg)

    def finding(self, mechanism, msg, **witness):
        """A violation, unless the committed list of findings names this mechanism."""
        from vmon.findings import known_findings
        self.counters["oracle_decisions"] += 1
        if mechanism in known_findings(self.prop):
            self.known.setdefault(mechanism, msg)
            self.counters["known finding: " + mechanism] += 1
            return
        self.report(msg, mechanism=mechanism, **witness)

    def check(self, cond, msg, **witness):
        self.counters["oracle_decisions"] += 1
        if not cond:
            self.report(msg, **witness)

    def same(self, diff, msg, **witness):
        """diff is None when fine, otherwise a description."""
        self.counters["oracle_decisions"] += 1
        if diff is not None:
            self.report(f"{msg}: {diff}", **witness)

    @contextlib.contextmanager
    def subject(self, what):
        """Valid use of the code under test that the property says must succeed."""
        try:
            yield
        except (Violation, Abort):
            raise
        except Exception as err:
            if self.violation is not None:
                raise Violation("recorded") from err
            self.report(f"{what} raised {type(err).__name__}: {str(err)[:400]}",
                        trace="".join(traceback.format_exception(err))[-1400:])

    @contextlib.contextmanager
    def other(self, what):
        """Use of the code under test that another property is about: its failure ends the episode only."""
        try:
            yield
        except (Violation, Abort):
            raise
        except Exception as err:
            if self.violation is not None:
                raise Violation("recorded") from err
            self.aborts[f"{what}: {type(err).__name__}: {str(err)[:120]}"] += 1
            raise Abort(what) from err

    def raises(self, what, types, fn, **witness):
        """fn must raise one of types. Returns the exception."""
        self.counters["oracle_decisions"] += 1
        try:
            got = fn()
        except (Violation, Abort):
            raise
        except types as err:
            return err
        except Exception as err:
            self.report(f"{what}: expected {_tn(types)}, got {type(err).__name__}: {str(err)[:300]}",
                        trace="".join(traceback.format_exception(err))[-1400:], **witness)
        self.report(f"{what}: expected {_tn(types)}, but the call returned {str(type(got))}", **witness)


def _tn(types):
    return types.__name__ if isinstance(types, type) else "/".join(t.__name__ for t in types)


def rng_for(*key):
    return np.random.default_rng([int(k) & 0xFFFFFFFF for k in key])
