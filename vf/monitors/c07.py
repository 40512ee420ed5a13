"""C07: every arc can be executed and follows the curve it stands for."""
import math

import numpy as np

from .. import common as C
from .. import gcode, geo, proglib as P, shapes as S
from ..result import Rejected
from . import c01

PID = "C07"
QUICK, THOROUGH = 500, 10000
RULE = ("outlines with arcs from 0.005 to 5000 in radius, slivers, nearly full circles, tabs and join arcs of offsets; each emitted arc is executed the way a controller would; "
        "non-trivial: at least one arc was executed and compared with the outline")
REQUIRED = {"arcs": 3000, "tiny": 60, "huge": 60, "nearly_full": 40, "reversed": 100}
ASSUMPTIONS = ["centres are relative to the start of the arc (G91.1)", "radii at both ends may differ by the rounding of six coordinates to 3 decimals"]


def arc_outline(c, r, a0, sweep):
    """chord + arc"""
    p0 = [c[0] + r * math.cos(a0), c[1] + r * math.sin(a0)]
    pm = [c[0] + r * math.cos(a0 + sweep / 2), c[1] + r * math.sin(a0 + sweep / 2)]
    p1 = [c[0] + r * math.cos(a0 + sweep), c[1] + r * math.sin(a0 + sweep)]
    return {"kind": "segs", "start": p0, "segs": [["A", pm, p1], ["L", p0]]}


def gen(rng, i, tier):
    k = i % 5
    base = {"frame": S.gen_frame(rng, plain=rng.random() < 0.3), "job": C.gen_job(rng, tool_diameter=rng.choice([1, 2, 3.175])), "entry": rng.choice(["wire", "face"]),
            "depth": rng.choice([1, 2.5]), "outer": 0, "inner": None, "moved": rng.random() < 0.3, "reverse": rng.random() < 0.5, "kw": {}}
    if k == 0:  # segments of circles of all sizes
        r = 10 ** rng.uniform(-2, 3.7)
        sw = rng.choice([rng.uniform(0.3, 6), rng.uniform(6.0, 6.27), rng.uniform(0.02, 0.3) if r > 1 else 1.0])
        if 0.5 * r * r * (sw - math.sin(sw)) < 1e-5 or r * sw < 0.01 or (r < 0.05 and 2 * math.pi - sw < 0.3):
            return None
        c = [rng.uniform(-50, 50), rng.uniform(-50, 50)]
        base["region"] = {"outer": arc_outline(c, r, rng.uniform(-4, 4), sw), "inners": []}
    elif k == 1:  # circles
        r = 10 ** rng.uniform(-2.2, 3.7)
        base["region"] = {"outer": S.circle(rng.uniform(-50, 50), rng.uniform(-50, 50), r), "inners": []}
    elif k == 2:  # joining arcs of offsets, tiny kinks included
        n = rng.randint(3, 9)
        rr = rng.choice([8, 20, 100])
        pts = []
        for q in range(n):
            a = 2 * math.pi * q / n
            pts.append((rr * math.cos(a) * rng.uniform(0.9, 1.1), rr * math.sin(a) * rng.uniform(0.9, 1.1)))
            if rng.random() < 0.4:  # an almost straight corner
                b = 2 * math.pi * (q + 1) / n
                e = (rr * math.cos(b), rr * math.sin(b))
                m = ((pts[-1][0] + e[0]) / 2, (pts[-1][1] + e[1]) / 2)
                s = 1 + 10 ** rng.uniform(-6, -2)
                pts.append((m[0] * s, m[1] * s))
        P_ = S.polygon(S.seg_poly(pts))
        if not P_.is_valid or P_.exterior.is_ccw is False:
            return None
        base["region"] = {"outer": S.seg_poly(pts), "inners": []}
        base["outer"] = rng.choice([1, 1, 2, 0.01])
    elif k == 3:
        base["region"] = {"outer": S.gen_outline(rng, rng.choice([10, 30, 300]), ["slot", "rrect", "bulge", "circle"]), "inners": []}
        base["outer"] = rng.choice([0, 0, 1, -0.25])
        if rng.random() < 0.3:
            base["kw"] = {"stepdown": 0.4}
    else:  # slices
        base["region"] = {"outer": S.gen_outline(rng, rng.choice([14, 30]), ["slot", "rrect", "circle"]), "inners": []}
        w = rng.choice([0.05, 0.3, 1])
        base["kw"] = {"tabs": rng.choice([{"kind": "wire", "count": rng.randint(1, 9), "width": w, "height": 0.5}, {"kind": "edge", "spacing": S.rnd(w * rng.uniform(1.3, 6)), "width": w, "height": 0.5}])}
    return base


def directed():
    out = []
    base = {"frame": C.PLAIN, "job": {"feed": 200, "tool_diameter": 2}, "entry": "wire", "depth": 1, "outer": 0, "inner": None, "moved": False, "reverse": False, "kw": {}}
    for r in (0.006, 0.01, 0.1, 1, 10, 1000, 5000):
        for rev in (False, True):
            out.append(dict(base, reverse=rev, region={"outer": S.circle(1.2345, -2.3456, r), "inners": []}))
            for sw in (0.1, 1, math.pi - 1e-6, math.pi, math.pi + 1e-6, 5, 6.2, 6.28):
                if 0.5 * r * r * (sw - math.sin(sw)) < 1e-5 or r * sw < 0.01 or (r < 0.05 and sw > 5.9):
                    continue
                out.append(dict(base, reverse=rev, region={"outer": arc_outline((1 / 3, -1 / 7), r, 0.7, sw), "inners": []}))
    for frame in ({"origin": [1, 2, 3], "x": [0, 1, 0], "n": [0, 0, -1]}, {"origin": [1, 2, 3], "x": [0, 0, 1], "n": [1, 0, 0]}, {"origin": [0, 0, 0], "x": [-1, 0, 0], "n": [0, 0, 1]}):
        for sw in (1, 4, 6):
            for rev in (False, True):
                out.append(dict(base, reverse=rev, frame=frame, region={"outer": arc_outline((1, 2), 5, 0.3, sw), "inners": []}))
    return out


def run(case, o):
    R = case["job"]["tool_diameter"] / 2
    try:
        job, want, order, wires = c01.plan(case)
    except Rejected:
        raise
    P, m_, hole = want[-1]
    if m_:
        c01.reference(P, m_ * R)
    text, t = C.op_trace(job)
    o.gcode = text
    if not C.check_readable(o, t, text):
        return
    sc = max(abs(v) for v in P.bounds)
    cuts = [m for m in t.moves if not m.is_rapid and m.moves_xy]
    if not o.expect(cuts, "no-cut", "nothing is cut"):
        return
    B = geo.Segs.of_rings(c01_rings(case, P))
    arcs = [m for m in cuts if m.is_arc]
    tol_r = 0.0024 + 1e-9 * sc
    for m in arcs:
        r0, r1 = gcode.arc_radii(m)
        o.count("arcs")
        o.count("tiny", r0 < 0.1)
        o.count("huge", r0 > 500)
        sw = gcode.arc_sweep(m)
        o.count("nearly_full", abs(sw) > 5.9)
        o.expect(abs(r0 - r1) <= tol_r, "radius", lambda: f"{m.text!r}: radius {r0:.4f} at the start, {r1:.4f} at the end")
        o.expect(m.start[:2] != m.end[:2], "full-circle", lambda: f"{m.text!r} ends where it starts: a controller cuts a full circle")
        o.expect(abs(m.end[2] - m.start[2]) < 1e-9, "helix", lambda: f"{m.text!r} changes its height")
        o.expect(m.words.get("K", 0) == 0, "plane", lambda: f"{m.text!r} has a centre outside of the XY plane")
        pts = C.path_points([m], max(0.02 * r0, 0.005))
        err = np.abs(B.dist(pts) - abs(m_) * R).max()
        o.expect(err <= 0.0035 + 2e-7 * sc + (0.002 if r0 < 0.05 else 0), "off-curve", lambda: f"{m.text!r} leaves the curve by {err:.4f}")
    # the path as a whole goes around once
    for l in C.layers(t):
        ms = C.xy_moves(l)
        if not ms:
            continue
        L = C.length(ms)
        ref = geo_len(P, m_ * R, case)
        o.expect(abs(L - ref) <= 0.02 + 0.003 * ref + 0.002 * len(ms), "length", lambda: f"path is {L:.4f} long, the outline {ref:.4f}")
    o.count("reversed", case["reverse"])
    o.nontrivial = bool(arcs)


def steps(r, sw):
    return max(16, int(abs(sw) / (2 * math.sqrt(2e-4 / r))))


def c01_rings(case, P):
    """a finer polygon of the outline than the one used elsewhere"""
    o = case["region"]["outer"]
    if o["kind"] == "circle":
        a = np.linspace(0, 2 * np.pi, steps(o["r"], 7))
        return [np.column_stack([o["c"][0] + o["r"] * np.cos(a), o["c"][1] + o["r"] * np.sin(a)])]
    pts = [o["start"]]
    for s in o["segs"]:
        if s[0] == "L":
            pts.append(s[1])
        else:
            p0, pm, p1 = (np.asarray(q, float) for q in [pts[-1], *s[1:]])
            c, r, a0, sw = circle3(p0, pm, p1)
            a = a0 + np.linspace(0, sw, steps(r, sw))
            pts += list(np.column_stack([c[0] + r * np.cos(a), c[1] + r * np.sin(a)]))
    pts = np.asarray(pts + [pts[0]], float)
    keep = np.r_[True, np.abs(np.diff(pts, axis=0)).max(axis=1) > 0]
    return [pts[keep]]


def circle3(p0, pm, p1):
    A = np.array([pm - p0, p1 - p0]) * 2
    b = np.array([pm @ pm - p0 @ p0, p1 @ p1 - p0 @ p0])
    c = np.linalg.solve(A, b)
    r = math.hypot(*(p0 - c))
    a0, am, a1 = (math.atan2(*(p - c)[::-1]) for p in (p0, pm, p1))
    sw = (a1 - a0) % (2 * math.pi)
    if (am - a0) % (2 * math.pi) > sw:
        sw -= 2 * math.pi
    return c, r, a0, sw


def geo_len(P, d, case):
    if not d:
        r = c01_rings(case, P)[0]
        return float(np.hypot(*np.diff(r, axis=0).T).sum())
    return sum(g.length for g in c01.rings_of(P.buffer(d, quad_segs=64)))
