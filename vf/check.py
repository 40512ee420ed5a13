"""Runs one property monitor over its workload.

  python -m vf.check C01 [quick|thorough]        exit 0 / 1 (+ VIOLATION line)
  python -m vf.check C01 --replay FILE           re-runs one recorded case
"""
from __future__ import annotations

import collections
import faulthandler
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import random
import re
import signal
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T0 = time.time()


def known_findings(pid):
    path = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


def is_known(kf, kind, case):
    for k in kf:
        if k["kind"] == kind:
            return k
    return None


def child(conn, mod, cases, log):
    from .result import observe

    signal.signal(signal.SIGINT, signal.SIG_IGN)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)  # OCCT prints to stdout
    os.dup2(devnull, 2)
    faulthandler.enable(log)
    while True:
        try:
            i = conn.recv()
        except EOFError:
            return
        if i is None:
            return
        t = time.time()
        r = observe(mod, cases[i])
        r["t"] = time.time() - t
        conn.send((i, r))


class Pool:
    def __init__(self, mod, cases, n):
        self.mod, self.cases, self.n = mod, cases, n
        self.died = ""
        self.ctx = mp.get_context("fork")

    def spawn(self):
        a, b = self.ctx.Pipe()
        log = tempfile.TemporaryFile("w+")
        p = self.ctx.Process(target=child, args=(b, self.mod, self.cases, log), daemon=True)
        p.start()
        b.close()
        return {"p": p, "c": a, "i": None, "t": 0, "log": log}

    def died_in(self, w):
        """name of the python function that was running when the process was killed"""
        w["log"].seek(0)
        m = re.search(r"most recent call first\):\s+File .* in (\w+)", w["log"].read())
        self.died = m.group(1) if m else ""

    def run(self, order, limit, deadline, stop):
        """yields (index, result | 'crash' | 'timeout')"""
        todo = collections.deque(order)
        ws = [self.spawn() for _ in range(min(self.n, max(1, len(todo))))]
        try:
            while True:
                for w in ws:
                    if w["i"] is None and todo and time.time() < deadline and not stop():
                        w["i"], w["t"] = todo.popleft(), time.time()
                        try:
                            w["c"].send(w["i"])
                        except OSError:
                            pass
                busy = [w for w in ws if w["i"] is not None]
                if not busy:
                    return
                ready = mpc.wait([w["c"] for w in busy], timeout=1.0)
                for w in list(busy):
                    if w["c"] in ready:
                        i = w["i"]
                        try:
                            j, r = w["c"].recv()
                            w["i"] = None
                            yield j, r
                        except (EOFError, OSError):
                            w["p"].join()
                            self.died_in(w)
                            ws[ws.index(w)] = self.spawn()
                            yield i, "crash"
                    elif time.time() - w["t"] > limit:
                        i = w["i"]
                        w["p"].kill()
                        w["p"].join()
                        ws[ws.index(w)] = self.spawn()
                        yield i, "timeout"
        finally:
            for w in ws:
                w["p"].kill()
            for w in ws:
                w["p"].join()


def build_cases(mod, pid, tier, seed):
    cases = []
    for c in mod.directed():
        c = dict(c)
        c.setdefault("tag", "directed")
        cases.append(c)
    n = mod.QUICK if tier == "quick" else mod.THOROUGH
    i = 0
    made = 0
    while made < n:
        rng = random.Random(f"{seed}:{pid}:{tier}:{i}")
        i += 1
        c = mod.gen(rng, made, tier)
        if c is None:
            if i > 20 * n + 1000:
                break
            continue
        c.setdefault("tag", "random")
        cases.append(json.loads(json.dumps(c)))
        made += 1
    return cases


def digest(c):
    return hashlib.sha1(json.dumps(c, sort_keys=True).encode()).hexdigest()[:12]


def main(argv):
    pid = argv[0]
    os.environ.setdefault("VERIF_SEED", "1")
    seed = int(os.environ["VERIF_SEED"])
    replay = argv[2] if len(argv) > 2 and argv[1] == "--replay" else None
    tier = "quick"
    if not replay:
        tier = (argv[1] if len(argv) > 1 else None) or os.environ.get("VERIF_TIER") or "quick"
    from . import boot

    boot.load()
    mod = importlib.import_module(f"vf.monitors.{pid.lower()}")
    from .result import observe

    kf = known_findings(pid)
    if replay:
        d = json.load(open(replay))
        r = observe(mod, d["case"])
        print(json.dumps({k: v for k, v in r.items() if k != "gcode"}, indent=1))
        if r.get("gcode") and os.environ.get("VERIF_SHOW"):
            print(r["gcode"])
        bad = [v for v in r["violations"] if not is_known(kf, v[0], d["case"])]
        if bad:
            print(f"VIOLATION property={pid} replay={replay}")
            return 1
        return 0

    cases = build_cases(mod, pid, tier, seed)
    workers = int(os.environ.get("VERIF_JOBS", 0)) or max(2, min(16, os.cpu_count() or 4))
    budget = float(os.environ.get("VERIF_BUDGET", 0)) or (700 if tier == "quick" else 7200)
    deadline = T0 + budget
    limit = getattr(mod, "CASE_LIMIT", 90)
    pool = Pool(mod, cases, workers)
    counts = collections.Counter()
    seen, nontrivial = set(), set()
    found, known_hit, kinds = [], {}, collections.Counter()
    trouble, errors, slow = [], [], []
    ncases = 0
    samples = []

    def take(i, r):
        nonlocal ncases
        ncases += 1
        h = digest(cases[i])
        seen.add(h)
        counts.update(r["counts"])
        slow.append((round(r["t"], 2), i))
        if r.get("monitor_error"):
            errors.append((i, r["monitor_error"]))
            return
        if r["nontrivial"]:
            nontrivial.add(h)
            if len(samples) < 3 and (i % 7 == 0 or i < 3):
                samples.append(cases[i])
        new = []
        for kind, msg in r["violations"]:
            k = is_known(kf, kind, cases[i])
            if k:
                known_hit.setdefault(k["kind"], msg)
                counts["known_finding_events"] += 1
            else:
                new.append([kind, msg])
        if new:
            for kind in {k for k, _ in new}:
                kinds[kind] += 1
            found.append((i, new, r.get("gcode")))

    stop = lambda: len(found) >= 12
    for i, r in pool.run(range(len(cases)), limit, deadline, stop):
        if isinstance(r, str):
            trouble.append((i, r))
        else:
            take(i, r)
    # a crash or a hang only counts when it happens again on its own
    if trouble and not found:
        redo = [i for i, _ in trouble][:6]
        p2 = Pool(mod, cases, min(3, workers))
        for i, r in p2.run(redo, limit * 3, T0 + budget + limit * 3, stop):
            if isinstance(r, str):
                kind = "crash" if r == "crash" else "hang"
                if kind == "crash" and p2.died in getattr(mod, "CRASHES", {}):
                    kind = mod.CRASHES[p2.died]
                    if is_known(kf, kind, cases[i]):
                        known_hit.setdefault(kind, "crash")
                        counts["known_finding_events"] += 1
                        continue
                kinds[kind] += 1
                found.append((i, [[kind, f"the planner {'killed the process' if r == 'crash' else 'did not return within %d s' % (limit * 3)}"]], None))
            else:
                take(i, r)
    counts["retried_cases"] = len(trouble)

    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    first = None
    found.sort(key=lambda f: f[0])
    for i, v, g in found[:8]:
        path = os.path.join(ROOT, "replays", f"{pid}-{digest(cases[i])}.json")
        json.dump({"property": pid, "seed": seed, "tier": tier, "case": cases[i], "violations": v, "gcode": g}, open(path, "w"), indent=1)
        first = first or path
        print(f"# case {i}: " + "; ".join(f"{k}: {m}" for k, m in v[:3])[:500])
    missing = {k: n for k, n in getattr(mod, "REQUIRED", {}).items() if counts[k] < n}
    slow.sort(reverse=True)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": ncases,
            "distinct_nontrivial": len(nontrivial),
            "rule": mod.RULE,
            "samples": samples[:3] or [cases[0]],
            "distinct_cases": len(seen),
            "planned_cases": len(cases),
            "observed": dict(sorted(counts.items())),
            "known_findings_seen": sorted(known_hit),
            "violation_kinds": dict(kinds),
            "monitor_errors": len(errors),
            "slowest_case_s": slow[0][0] if slow else 0,
            "workers": workers,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - T0, 2),
        "violations": len(found),
    }
    json.dump(ev, open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w"), indent=1)
    for k in kf:
        if k["kind"] in known_hit:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    print(f"# {pid} {tier} seed={seed}: {ncases}/{len(cases)} cases, {len(nontrivial)} non-trivial, "
          f"{len(found)} violating, {ev['wall_s']} s; " + ", ".join(f"{k}={v}" for k, v in sorted(counts.items()))[:900])
    if os.environ.get("VERIF_VERBOSE"):
        print("# slowest:", slow[:5])
    if errors:
        print("# monitor error:", errors[0][0], errors[0][1][-1200:])
    if found:
        print(f"VIOLATION property={pid} replay={first}")
        return 1
    if errors:
        return 4
    if missing:
        print(f"# inconclusive, not observed often enough: {missing}")
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
