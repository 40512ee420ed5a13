"""Helpers shared by the monitors: building jobs from JSON cases, reading traces."""
from __future__ import annotations

import math
import random

import numpy as np
import shapely

from . import gcode, geo, shapes
from .result import Rejected
from .shapes import plane, place

RND = 0.0005  # half a unit of the last printed digit
PLAIN = {"origin": [0, 0, 0], "x": [1, 0, 0], "n": [0, 0, 1]}


def job(j, frame):
    """j: keyword arguments of Job in JSON form"""
    from cq_cam import Job
    from cq_cam.groups import CoolantState, PlannerControlMode, Unit, WorkOffset

    kw = dict(j)
    for k, e in (("unit", Unit), ("coolant", CoolantState), ("coordinate", WorkOffset), ("controller_motion", PlannerControlMode)):
        if kw.get(k) is not None:
            kw[k] = getattr(e, kw[k])
    kw.setdefault("feed", 200)
    return Job(plane(frame), **kw)


def tool(t):
    from cq_cam.tool import Tool

    return None if t is None else Tool(**t)


def tabs(t):
    from cq_cam.operations.tabs import EdgeTabs, WireTabs

    if t is None:
        return None
    kw = {k: v for k, v in t.items() if k != "kind"}
    return (WireTabs if t["kind"] == "wire" else EdgeTabs)(**kw)


def op_trace(job_, i=-1):
    text = job_.operations[i].to_gcode()
    return text, gcode.run(text, dict(distance="90"))


def cutting(trace):
    return [m for m in trace.moves if not m.is_rapid]


def layers(trace):
    """the runs of cutting moves between rapids"""
    out, cur = [], []
    for m in trace.moves:
        if m.is_rapid:
            if cur:
                out.append(cur)
                cur = []
        else:
            cur.append(m)
    if cur:
        out.append(cur)
    return out


def xy_moves(ms):
    return [m for m in ms if m.moves_xy]


def length(ms):
    """length of the path in XY; chords of the size of the printed resolution are smoothed"""
    s, run = 0.0, []

    def flush():
        r = 0.0
        if len(run) > 1:
            r = shapely.LineString(run).simplify(0.0012).length if len(run) > 50 else math.fsum(math.dist(a, b) for a, b in zip(run, run[1:]))
        run.clear()
        return r

    for m in ms:
        if not m.moves_xy:
            continue
        a = [b if a is None else a for a, b in zip(m.start, m.end)]
        if m.is_arc:
            s += flush()
            r = sum(gcode.arc_radii(m)) / 2
            s += abs(gcode.arc_sweep(m)) * r
        else:
            if not run or run[-1] != (a[0], a[1]):
                s += flush()
                run.append((a[0], a[1]))
            run.append((m.end[0], m.end[1]))
    return s + flush()


def path_points(ms, step):
    pl = [geo.densify(geo.move_polyline(m), step) for m in ms]
    return np.vstack(pl) if pl else np.zeros((0, 2))


def check_readable(o, t, text):
    """the recorded text has to be executable before its geometry can be judged"""
    bad = [f for f in t.faults if f.kind in ("syntax", "arc", "motion", "duplicate_word", "modal_clash", "unknown_code")]
    for f in bad[:3]:
        o.bad("unreadable-" + f.kind, f"line {f.line}: {f.msg}")
    for m in t.moves:
        if not m.is_rapid and (None in m.end or None in m.start[:2]):
            o.bad("unreadable-position", f"cut from/to an unknown position: {m.text}")
            bad.append(m)
            break
    return not bad


def choice_w(rng, pairs):
    """pairs: [(weight, value)]"""
    t = rng.random() * sum(w for w, _ in pairs)
    for w, v in pairs:
        t -= w
        if t <= 0:
            return v
    return pairs[-1][1]


def gen_job(rng, **over):
    """ordinary and less ordinary job settings that don't change the geometry"""
    j = {"feed": rng.choice([200, 100, 350.5, 1200]), "tool_diameter": rng.choice([1, 2, 3, 3.175, 6])}
    if rng.random() < 0.4:
        j["plunge_feed"] = rng.choice([50, 33.3, 120])
    if rng.random() < 0.5:
        j["rapid_height"] = rng.choice([5, 12.5, 30])
    if rng.random() < 0.5:
        j["op_safe_height"] = rng.choice([0.5, 2, 3.25])
    if rng.random() < 0.3:
        j["speed"] = rng.choice([8000, 12000, 18000])
    j.update(over)
    return j


def rapid_height(j):
    return j.get("rapid_height", 0.4 if j.get("unit") == "IMPERIAL" else 10)


def safe_height(j):
    return j.get("op_safe_height", 0.04 if j.get("unit") == "IMPERIAL" else 1)
