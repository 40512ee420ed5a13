"""What a monitor reports about one observed execution."""
from __future__ import annotations

import collections
import traceback


class Rejected(Exception):
    """the case turned out to be outside of the domain of the property"""


class Obs:
    def __init__(self):
        self.violations = []  # [kind, message]
        self.counts = collections.Counter()
        self.nontrivial = False
        self.gcode = None

    def bad(self, kind, msg):
        if len(self.violations) < 20:
            self.violations.append([kind, str(msg)[:600]])

    def count(self, name, n=1):
        self.counts[name] += n

    def expect(self, cond, kind, msg):
        if not cond:
            self.bad(kind, msg() if callable(msg) else msg)
        return bool(cond)

    def as_dict(self):
        return {
            "violations": self.violations,
            "counts": dict(self.counts),
            "nontrivial": bool(self.nontrivial),
            "gcode": self.gcode,
        }


def observe(mod, case):
    o = Obs()
    try:
        mod.run(case, o)
    except Rejected as e:
        o.count("outside_domain")
        o.count("outside_domain: " + str(e)[:60])
    except Exception as e:  # the API failed on a request it has to serve
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{f.filename.rsplit('/', 1)[-1]}:{f.name}" for f in reversed(tb) if "cq_cam" in f.filename), None)
        if where is None and not getattr(e, "_from_repo", False):
            # an error of the monitor itself must never look like a finding
            o.counts["monitor_error"] += 1
            o.violations = []
            o.monitor_error = traceback.format_exc()
            d = o.as_dict()
            d["monitor_error"] = o.monitor_error
            return d
        o.bad("exception", f"{type(e).__name__}: {e} (in {where})")
    return o.as_dict()
