"""
Obligation bookkeeping shared by all checks.

A check enumerates obligations (what must hold, at which construct).  Each one
is discharged, definitely broken (violation) or undecided; undecided is never
reported as a violation and never as success.
"""
import json, os, time, traceback
from .inst import Undecided, Definite
from .interp import AnalysisError


class Check:
    def __init__(self, pid, tier="quick", seed=1, root="/repo"):
        self.pid, self.tier, self.seed, self.root = pid, tier, seed, root
        self.total = self.ok = 0
        self.viol = []  # (msg, site, context)
        self.und = []
        self.kinds = {}
        self.ctx = []
        self.sites = set()
        self.subjects = set()
        self.notes = []
        self.t0 = time.time()
        self._world = None

    thorough = property(lambda self: self.tier == "thorough")

    @property
    def world(self):
        if self._world is None:
            from .world import World

            self._world = World(self.root)
            for n in self._world.load_notes:
                self.notes.append("module level: " + n)
        return self._world

    def where(self):
        return " / ".join(self.ctx)

    # ---------------------------------------------------------- obligations
    def ob(self, kind, ok, msg="", site=None):
        """one obligation; `msg` is the report if it is broken"""
        self.total += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        if site:
            self.sites.add(str(site))
        if ok:
            self.ok += 1
            return True
        self.violation("%s: %s" % (kind, msg() if callable(msg) else msg), site)
        return False

    def violation(self, msg, site=None):
        self.viol.append((msg, str(site) if site else "", self.where()))

    def undecided(self, msg, site=None):
        self.und.append((msg, str(site) if site else "", self.where()))

    def case(self, label, f, *a, **k):
        """run one group of obligations; contains analysis failures"""
        self.ctx.append(label)
        self.subjects.add(self.where())
        try:
            return f(*a, **k)
        except Definite as e:
            self.total += 1
            self.violation(str(e), e.site)
        except AnalysisError as e:
            self.total += 1
            self.undecided(str(e))
        except Exception as e:
            self.total += 1
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.undecided("analyser failure %s: %s (%s:%s)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
            if os.environ.get("QTA_DEBUG") and len(self.und) < 3:
                traceback.print_exc()
        finally:
            self.ctx.pop()
        return None

    # ---------------------------------------------------------- output
    def evidence(self, extra=None):
        cov = {
            "explanation": getattr(self, "explanation", None) or "static: abstract interpretation of the current source into closed-form effect/value summaries; every obligation below was decided on those summaries, no code of the repository was executed",
            "obligations": self.total,
            "discharged": self.ok,
            "obligations_by_rule": dict(sorted(self.kinds.items())),
            "undecided": len(self.und),
            "subjects": len(self.subjects),
            "subject_samples": sorted(self.subjects)[:40],
            "constructs_touched": len(self.sites),
            "construct_samples": sorted(self.sites)[:60],
            "trusted_base": [
                "qta abstract interpreter (Python semantics of the constructs it models)",
                "qta models of qiskit registers/gates/broadcasting, numpy and retworkx signatures",
            ],
        }
        if self._world is not None:
            ip = self._world.ip
            cov["functions_analysed"] = len(ip.visited_funcs)
            cov["call_sites_analysed"] = ip.call_sites
            cov["modules_loaded"] = len(ip.modules)
        if self.notes:
            cov["notes"] = self.notes[:20]
        cov.update(extra or {})
        return cov
