"""C13: every requested hole is drilled exactly once, at its place and to its depth."""
import math

import cadquery as cq
import numpy as np

from .. import common as C
from .. import shapes as S
from ..result import Rejected

PID = "C13"
QUICK, THOROUGH = 500, 12000
RULE = ("random hole patterns given as vectors, wires, faces, faces with inner outlines, holes of solids or Workplane selections in random job planes; "
        "non-trivial: at least one hole was matched")
REQUIRED = {"holes": 2500, "solid_holes": 100, "inner_outline_holes": 150, "duplicates": 10, "off_origin": 150}
ASSUMPTIONS = ["the place of a hole is the area centre of its outline"]

OUTLINES = ["circle", "circle", "circle", "rect", "convex", "L", "slot"]


def gen(rng, i, tier):
    n = rng.choice([1, 2, 3, 5, 8, 13, 20, 40])
    span = rng.choice([5, 30, 100, 500, 5000])
    pts = []
    while len(pts) < n:
        k = rng.random()
        if pts and k < 0.08:
            pts.append(list(rng.choice(pts)))  # the same place twice
        elif pts and k < 0.2:
            p = rng.choice(pts)  # ties / tiny distances
            pts.append([S.rnd(p[0] + rng.choice([0.001, -0.002, 0.01, 1, -1])), S.rnd(p[1] + rng.choice([0, 0, 0.003, 1]))])
        else:
            pts.append([S.rnd(rng.uniform(-span, span), 3), S.rnd(rng.uniform(-span, span), 3)])
    form = rng.choice(["vectors", "vectors", "vector", "wires", "wire", "faces", "face", "inner", "solid", "workplane-v", "workplane-f", "mixed"])
    if form in ("inner", "solid"):  # not overlapping
        g = max(1, math.ceil(math.sqrt(n)))
        cells = [(a, b) for a in range(g) for b in range(g)]
        rng.shuffle(cells)
        pts = [[S.rnd(a * 10 - 5 * g + rng.uniform(-1, 1)), S.rnd(b * 10 - 5 * g + rng.uniform(-1, 1))] for a, b in cells[:n]]
    if form in ("vector", "wire", "face"):
        pts = pts[:1]
    shp = []
    for x, y in pts:
        k = rng.choice(OUTLINES)
        o = S.gen_outline(rng, 3 if form in ("inner", "solid") else rng.choice([1, 3, 8]), [k])
        shp.append(S.xform(o, S.Sim(dx=x, dy=y)) if k != "circle" else S.circle(x, y, S.rnd(rng.uniform(0.2, 2))))
    return {"frame": S.gen_frame(rng, plain=rng.random() < 0.3), "job": C.gen_job(rng, tool_diameter=rng.choice([None, 1, 3]), **({"unit": "IMPERIAL"} if rng.random() < 0.2 else {})),
            "pts": pts, "shapes": shp, "form": form, "z": rng.choice([0, -1, -3.5, 2]), "depth": rng.choice([1, 0.5, 3.2, 12, -2, 0.01, 7.125]), "reverse": rng.random() < 0.3,
            "zs": [rng.choice([0, 0, -1, -4]) for _ in pts]}


def directed():
    out = []
    base = {"frame": C.PLAIN, "job": {"feed": 100}, "shapes": [], "form": "vectors", "z": 0, "depth": 2, "reverse": False}
    for pts in ([[0, 0]], [[0, 0], [0, 0]], [[1, 1], [0, 0], [1, 1]], [[0, 0], [1, 0], [-1, 0], [0, 1], [0, -1]], [[1e-3, 0], [0, 1e-3], [0, 0]], [[1e5, -1e5], [0, 0]]):
        for f in (C.PLAIN, {"origin": [10, 20, 30], "x": [1, 0, 0], "n": [0, 0, 1]}, {"origin": [1, 2, 3], "x": [0, 1, 0], "n": [1, 0, 0]}):
            out.append(dict(base, pts=pts, frame=f, zs=[0] * len(pts)))
    return out


def centre(o):
    c = S.polygon(o).centroid
    if o["kind"] == "circle":
        return tuple(o["c"])
    return c.x, c.y


def build(case):
    """-> (argument of drill, expected places, tolerance)"""
    pl = S.plane(case["frame"])
    f, pts, z = case["form"], case["pts"], case["z"]
    shp = [S.reverse(s) for s in case["shapes"]] if case["reverse"] else case["shapes"]
    vec = lambda: [pl.toWorldCoords((x, y, zz)) for (x, y), zz in zip(pts, case["zs"])]
    wires = lambda: [S.place(S.wire(s, z), pl) for s in shp]
    if f in ("vectors", "vector", "workplane-v"):
        v = vec()
        return (v[0] if f == "vector" else cq.Workplane().newObject(v) if f == "workplane-v" else v), pts, pl
    exp = [centre(s) for s in case["shapes"]]
    if f in ("wires", "wire"):
        w = wires()
        return (w[0] if f == "wire" else w), exp, pl
    if f in ("faces", "face", "workplane-f"):
        fs = [cq.Face.makeFromWires(w) for w in wires()]
        return (fs[0] if f == "face" else fs if f == "faces" else cq.Workplane().newObject(fs)), exp, pl
    if f == "mixed":
        out, e = [], []
        for i, (v, w) in enumerate(zip(vec(), wires())):
            out.append((v, w, cq.Face.makeFromWires(w))[i % 3])
            e.append(pts[i] if i % 3 == 0 else exp[i])
        return out, e, pl
    n = len(pts)
    half = 5 * max(1, math.ceil(math.sqrt(n))) + 12
    plate = {"outer": S.rect(0, 0, 2 * half, 2 * half), "inners": shp}
    if f == "inner":
        return S.place(S.face(plate, z), pl), exp, pl
    body = cq.Workplane().newObject([S.place(S.prism({"outer": plate["outer"]}, z - 4, z), pl)])
    tools = [S.place(S.prism({"outer": s}, z - 6, z + 2), pl) for s in shp]
    s = body.val().cut(*tools)
    want = pl.zDir
    fs = [g for g in s.Faces() if g.geomType() == "PLANE" and abs(pl.toLocalCoords(g.Center()).z - z) < 1e-4 and g.normalAt(g.Center()).dot(want) > 0.99]
    if len(fs) != 1:
        raise Rejected("plate has no single top face")
    return cq.Workplane().newObject(fs), exp, pl


def run(case, o):
    arg, exp, pl = build(case)
    j = {k: v for k, v in case["job"].items() if v is not None}
    job = C.job(j, case["frame"]).drill(arg, depth=case["depth"])
    text, t = C.op_trace(job)
    o.gcode = text
    if not C.check_readable(o, t, text):
        return
    cuts = C.cutting(t)
    depth = -abs(case["depth"])
    got = []
    for m in cuts:
        o.expect(not m.moves_xy, "sideways", lambda: f"drilling moves sideways: {m.text!r}")
        o.expect(m.end[2] < m.start[2], "direction", lambda: f"feeds upwards: {m.text!r}")
        o.expect(abs(m.end[2] - depth) <= 0.0006, "depth", lambda: f"hole is {m.end[2]} deep, expected {depth}")
        got.append(m.end[:2])
    o.expect(len(got) == len(exp), "count", lambda: f"{len(got)} holes drilled, {len(exp)} requested")
    # one to one
    tol = 0.0011 if case["form"] in ("vectors", "vector", "workplane-v") else 0.004
    left = [tuple(e) for e in exp]
    sc = max(1.0, max(abs(c) for e in exp for c in e) / 1000)
    for g in got:
        if not left:
            break
        k = min(range(len(left)), key=lambda q: math.dist(left[q], g))
        if not o.expect(math.dist(left[k], g) <= tol * sc, "place", lambda: f"hole at {g}, nearest requested place without a hole is {left[k]}"):
            continue
        left.pop(k)
        o.count("holes")
        o.nontrivial = True
    if left:
        o.bad("missing", f"not drilled: {left[:3]}")
    # rapids between the holes: lifted out of the stock, straight down on the place
    z = None
    for m in t.moves:
        if m.is_rapid:
            if m.moves_xy and m.start[0] is not None:
                o.expect(m.start[2] is not None and m.start[2] >= 0 and m.end[2] >= 0, "not-lifted", lambda: f"{m.text!r} moves sideways inside the stock")
    o.count("solid_holes", len(got) * (case["form"] == "solid"))
    o.count("inner_outline_holes", len(got) * (case["form"] == "inner"))
    o.count("duplicates", len({tuple(p) for p in case["pts"]}) < len(case["pts"]))
    o.count("off_origin", any(case["frame"]["origin"]))
