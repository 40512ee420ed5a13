"""C04: with a stepdown no pass goes deeper than one step below what was cut before it."""
import math

import numpy as np

from .. import common as C
from .. import geo, pocketlib as L, shapes as S
from ..result import Rejected
from . import c01, c22

PID = "C04"
QUICK, THOROUGH = 260, 4000
RULE = ("random profile (polygons, arcs, circles, splines, holes) or pocket, in a random job plane, stepdown from a fraction of to more than the depth; "
        "or areas of several depths (nested, adjacent, rings) in one request; non-trivial: at least two passes at different depths were compared")
REQUIRED = {"passes": 200, "profile_cases": 40, "pocket_cases": 40, "pass_points": 20000, "areas_cases": 25, "nested_cases": 10}
ASSUMPTIONS = ["fewer than 100 passes (documented limit of the job)", "depths are compared with the printed resolution"]

SD = [0.25, 0.3, 0.5, 0.7, 1, 1.5, 2, 3, 10]


def gen(rng, i, tier):
    if i % 4 == 0:  # areas of several depths
        for _ in range(20):
            c = c22.gen(rng, i, tier)
            if c and len({a["depth"] for a in c["areas"]}) > 1 and len(c["areas"]) > 1:
                c["what"] = "areas"
                c["kw"]["stepdown"] = rng.choice([0.3, 0.4, 0.5, 0.7, 1])
                if rng.random() < 0.5:  # inside of each other, with a third level
                    n, u, kind = rng.choice([3, 3, 4]), case_unit(c) * 1.2, rng.choice(["rect", "rrect", "circle"] if c["job"]["precision"] < 3 else ["rect"])
                    s, x, ds, areas = u * n, 0.0, sorted(rng.sample([0.5, 1, 1.6, 2, 3.2, 4.5], n)), []
                    for q in range(n):
                        if q and rng.random() < 0.9 and not S.polygon(areas[-1]["outer"]).contains(S.polygon(S.rect(S.rnd(x), 0, 1.3 * s, 1.3 * s)).buffer(0.1)):
                            s *= 0.6
                        areas.append({"outer": S.xform(S.gen_outline(rng, s, [kind]), S.Sim(dx=S.rnd(x))), "inners": [], "depth": ds[q]})
                        x += rng.uniform(-0.05, 0.05) * s
                        s = s * 0.45 + (s - u) * 0.3
                    if rng.random() < 0.5:
                        rng.shuffle(areas)
                    c["areas"], c["arr"] = areas, "nested"
                return c
        return None
    if i % 2:
        c = L.gen(rng, tier)
        if c is None:
            return None
        c["what"] = "pocket"
        c["kw"]["stepdown"] = S.rnd(rng.choice([0.2, 0.25, 0.3, 1 / 3, 0.5, 0.9, 1, 2]) * c["depth"])
        if c["job"].get("precision") == 3 and c["job"].get("unit") != "IMPERIAL":
            c["job"]["precision"] = 2
        return c
    c = c01.gen(rng, i, tier)
    c["what"] = "profile"
    c["depth"] = rng.choice([1, 2, 2.5, 3, 4.2, 7.123])
    c["kw"] = {"stepdown": rng.choice(SD)}
    if any(q["kind"] == "spline" for q in [c["region"]["outer"]] + c["region"]["inners"]):
        c["job"]["precision"] = 1
    return c


def case_unit(c):
    return 4 * c["job"]["tool_diameter"]


def directed():
    base = {"what": "profile", "frame": C.PLAIN, "job": {"feed": 200, "tool_diameter": 3}, "entry": "wire", "outer": 1, "inner": -1, "moved": False, "reverse": False,
            "region": {"outer": S.rect(0, 0, 20, 20), "inners": []}}
    out = []
    for d, s in ((3, 1), (3, 3), (3, 5), (0.9, 0.3), (2.1, 0.7), (1, 0.1), (5, 2), (3, 0.999), (3, 1.001)):
        for f in (C.PLAIN, {"origin": [1, 2, -3], "x": [1, 0, 0], "n": [0, 0, 1]}, {"origin": [10, 20, 7.5], "x": [0, 1, 0], "n": [1, 0, 0]}):
            out.append(dict(base, depth=d, kw={"stepdown": s}, frame=f))
    pk = {"what": "pocket", "frame": C.PLAIN, "job": {"feed": 200, "tool_diameter": 3, "precision": 2}, "entry": "face", "region": {"outer": S.rect(0, 0, 20, 20), "inners": []}}
    for d, s in ((3, 1), (3, 3), (3, 5), (0.9, 0.3), (2.1, 0.7), (1, 0.1)):
        out.append(dict(pk, depth=d, kw={"stepdown": s}))
        out.append(dict(pk, depth=d, kw={"stepdown": s}, region={"outer": S.rect(0, 0, 24, 20), "inners": [S.circle(0, 0, 3)]}))
    return out


def groups_of(layers):
    """consecutive passes with strictly descending depth"""
    out = []
    for l in layers:
        z = l[-1].end[2]
        if out and z < out[-1][-1][-1].end[2] - 1e-9:
            out[-1].append(l)
        else:
            out.append([l])
    return out


def run_areas(case, o):
    """passes over areas of several depths: flat, steps bounded, none where everything was cut deeper before"""
    R, kw = case["job"]["tool_diameter"] / 2, case["kw"]
    if L.eff(R, kw.get("stepover"), 0.5) > R + 1e-9:
        raise Rejected("stepover beyond the radius")
    pl = S.plane(case["frame"])
    faces = [S.place(S.face(a, -a["depth"]), pl) for a in case["areas"]]
    text, t = C.op_trace(C.job(case["job"], case["frame"]).pocket(faces, **{k: tuple(v) if isinstance(v, list) else v for k, v in kw.items()}))
    o.gcode = text
    if not C.check_readable(o, t, text):
        return
    o.count("areas_cases")
    # (an area that is only partly within a shallower one is stepped down from the top as a whole)
    A = sorted(((a["depth"], S.polygon(a["outer"])) for a in case["areas"]), key=lambda q: q[0])
    nested = not any(a["inners"] for a in case["areas"]) and all(A[j][0] > A[i][0] and A[i][1].contains(A[j][1].buffer(0.05)) for j in range(len(A)) for i in range(j))
    o.count("nested_cases", nested)
    done = []  # (z, segs)
    rim = np.array([[math.cos(a), math.sin(a)] for a in np.arange(8) * math.pi / 4] + [[0, 0]]) * (R - 0.02)
    last = None
    for l in C.layers(t):
        ms = C.xy_moves(l)
        if not ms:
            continue
        zs = {m.end[2] for m in ms}
        if not o.expect(len(zs) == 1, "not-flat", lambda: f"one pass cuts at depths {sorted(zs)}"):
            return
        z = ms[0].end[2]
        pts = C.path_points(ms, R / 2)
        deeper = [s for z2, s in done if z2 < z - 0.0015]
        if nested and deeper and len(pts) >= 4:
            q = pts[:: max(1, len(pts) // 80)]
            q = (q[:, None, :] + rim[None]).reshape(-1, 2)
            o.count("air_points", len(q))
            # only judge the passes that may be all within
            cut = np.full(len(q), np.inf)
            for s in deeper:
                cut = np.minimum(cut, s.dist(q))
            o.expect((cut > R + 0.002).any(), "air", lambda: f"the pass at {z} near {pts[0].round(3)} only moves where everything was cut deeper before ({min(z2 for z2, _ in done)})")
        done.append((z, geo.path_segs(ms)))
    levels = {z for z, _ in done}
    o.nontrivial = len(levels) > 1


def run(case, o):
    if case["what"] == "areas":
        return run_areas(case, o)
    d, sd = case["depth"], case["kw"]["stepdown"]
    if case["what"] == "profile":
        R = case["job"]["tool_diameter"] / 2
        job, want, order, wires = c01.plan(case)
        for P, m, hole in want:
            c01.reference(P, m * R)
    else:
        job = L.plan(case)
    text, t = C.op_trace(job)
    o.gcode = text
    if not C.check_readable(o, t, text):
        return
    eps = 0.0015
    layers = [l for l in C.layers(t) if C.xy_moves(l)]
    if not layers:
        o.count("empty_paths")
        return
    o.count(case["what"] + "_cases")
    o.count("passes", len(layers))
    # every pass is flat and no pass is wasted in the air
    for l in layers:
        zs = {m.end[2] for m in C.xy_moves(l)}
        o.expect(len(zs) == 1, "not-flat", lambda: f"one pass cuts at depths {sorted(zs)}")
    allz = sorted({l[-1].end[2] for l in layers}, reverse=True)
    o.expect(abs(allz[-1] + d) <= eps, "final-depth", lambda: f"the last pass is at {allz[-1]}, requested depth is {d}")
    prev = 0.0
    for z in allz:
        o.expect(prev - z <= sd + eps, "step", lambda: f"pass at {z} after {prev}, stepdown is {sd}")
        o.expect(z < 0, "air", lambda: f"pass at {z}, above the stock")
        prev = z
    o.expect(len(allz) <= math.ceil(d / sd - 1e-3) + 1, "passes", lambda: f"{len(allz)} levels for depth {d} and stepdown {sd}")
    o.nontrivial = len(allz) > 1
    if case["what"] == "profile":
        n = math.ceil(d / sd - 1e-4)
        for g in groups_of(layers):
            zs = [l[-1].end[2] for l in g]
            exp = [-d + sd * j for j in range(n - 1, -1, -1)]
            o.expect(len(zs) == len(exp) and max(abs(a - b) for a, b in zip(zs, exp)) <= eps, "levels",
                     lambda: f"outline cut at {zs}, expected {[round(e, 3) for e in exp]}")
    # where the tool is at some depth, it has been one step higher before
    tol = 0.02 + 2 * 10 ** -case["job"].get("precision", 3)
    seen = []  # (z, segs)
    for l in layers:
        z = l[-1].end[2]
        pts = C.path_points(C.xy_moves(l), 0.5 * case["job"]["tool_diameter"])
        if z < -sd - eps:
            best = np.full(len(pts), np.inf)
            for z2, s in seen:
                if z < z2 <= z + sd + eps:
                    best = np.minimum(best, s.dist(pts))
            k = int(best.argmax())
            o.count("pass_points", len(pts))
            o.expect(best[k] <= tol, "engagement", lambda: f"the pass at {z} reaches {pts[k].round(3)}, which was not cut within {sd} above before (nearest {best[k]:.3f})")
        seen.append((z, geo.path_segs(C.xy_moves(l))))
