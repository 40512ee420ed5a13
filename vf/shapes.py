"""Case specs <-> cadquery shapes <-> reference polygons.

A spec is plain JSON.  All 2D data is in the *job frame*: x/y of the machining plane,
z = 0 at the stock top, depths negative.  `place()` carries shapes into the world.
"""
from __future__ import annotations

import math
import random

import cadquery as cq
from shapely.geometry import LineString, Polygon
from shapely.ops import polygonize, unary_union

CHORD = 1e-4


# ----------------------------------------------------------------- outline -> polygon
def _arc3(p0, pm, p1):
    (x1, y1), (x2, y2), (x3, y3) = p0, pm, p1
    d = 2 * (x1 * (y2 - y3) + x2 * (y3 - y1) + x3 * (y1 - y2))
    ux = ((x1**2 + y1**2) * (y2 - y3) + (x2**2 + y2**2) * (y3 - y1) + (x3**2 + y3**2) * (y1 - y2)) / d
    uy = ((x1**2 + y1**2) * (x3 - x2) + (x2**2 + y2**2) * (x1 - x3) + (x3**2 + y3**2) * (x2 - x1)) / d
    r = math.hypot(x1 - ux, y1 - uy)
    a0 = math.atan2(y1 - uy, x1 - ux)
    am = math.atan2(y2 - uy, x2 - ux)
    a1 = math.atan2(y3 - uy, x3 - ux)
    tau = 2 * math.pi
    dm, d1 = (am - a0) % tau, (a1 - a0) % tau
    sweep = d1 if dm < d1 else d1 - tau
    return (ux, uy), r, a0, sweep


def _nseg(r, sweep, chord=CHORD):
    step = 2 * math.acos(max(-1.0, 1 - min(chord / max(r, 1e-9), 1.0)))
    return max(4, int(math.ceil(abs(sweep) / max(step, 2e-3))))


def outline_points(o):
    k = o["kind"]
    if k == "circle":
        (cx, cy), r = o["c"], o["r"]
        n = _nseg(r, 2 * math.pi)
        return [(cx + r * math.cos(2 * math.pi * i / n), cy + r * math.sin(2 * math.pi * i / n)) for i in range(n)]
    if k == "spline":
        e = spline_edge(o, 0.0)
        n = 600
        return [(v.x, v.y) for v in (e.positionAt(i / n) for i in range(n))]
    pts = [tuple(o["start"])]
    for s in o["segs"]:
        if s[0] == "L":
            pts.append(tuple(s[1]))
        else:
            c, r, a0, sw = _arc3(pts[-1], s[1], s[2])
            n = _nseg(r, sw)
            for i in range(1, n):
                a = a0 + sw * i / n
                pts.append((c[0] + r * math.cos(a), c[1] + r * math.sin(a)))
            pts.append(tuple(s[2]))
    if pts[0] == pts[-1]:
        pts.pop()
    return pts


def polygon(o) -> Polygon:
    p = Polygon(outline_points(o))
    return p


def region(r) -> Polygon:
    """{'outer': outline, 'inners': [outline]} -> polygon with holes"""
    return Polygon(outline_points(r["outer"]), [outline_points(i) for i in r.get("inners", [])])


# ----------------------------------------------------------------- outline -> cadquery
def spline_edge(o, z):
    return cq.Edge.makeSpline([cq.Vector(x, y, z) for x, y in o["pts"]], periodic=True)


def edges(o, z):
    k = o["kind"]
    V = cq.Vector
    if k == "circle":
        return [cq.Edge.makeCircle(o["r"], V(*o["c"], z), V(0, 0, 1))]
    if k == "spline":
        return [spline_edge(o, z)]
    out, p = [], tuple(o["start"])
    for s in o["segs"]:
        e = tuple(s[-1])
        if s[0] == "L":
            out.append(cq.Edge.makeLine(V(*p, z), V(*e, z)))
        else:
            out.append(cq.Edge.makeThreePointArc(V(*p, z), V(*s[1], z), V(*e, z)))
        p = e
    return out


def wire(o, z=0.0) -> cq.Wire:
    return cq.Wire.assembleEdges(edges(o, z))


def face(r, z=0.0) -> cq.Face:
    return cq.Face.makeFromWires(wire(r["outer"], z), [wire(i, z) for i in r.get("inners", [])])


def prism(r, z0, z1) -> cq.Solid:
    """solid over region r between z0 < z1"""
    return cq.Solid.extrudeLinear(
        wire(r["outer"], z0), [wire(i, z0) for i in r.get("inners", [])], cq.Vector(0, 0, z1 - z0)
    )


# ----------------------------------------------------------------- outline generators
def seg_poly(pts):
    pts = [[float(a), float(b)] for a, b in pts]
    return {"kind": "segs", "start": pts[0], "segs": [["L", p] for p in pts[1:]] + [["L", pts[0]]]}


def rect(cx, cy, w, h, ang=0.0):
    c, s = math.cos(ang), math.sin(ang)
    return seg_poly([
        (cx + c * x - s * y, cy + s * x + c * y)
        for x, y in ((-w / 2, -h / 2), (w / 2, -h / 2), (w / 2, h / 2), (-w / 2, h / 2))
    ])


def slot(cx, cy, length, d, ang=0.0):
    r, a = d / 2, length / 2
    t = lambda x, y: [cx + math.cos(ang) * x - math.sin(ang) * y, cy + math.sin(ang) * x + math.cos(ang) * y]
    return {"kind": "segs", "start": t(-a, -r), "segs": [
        ["L", t(a, -r)], ["A", t(a + r, 0), t(a, r)], ["L", t(-a, r)], ["A", t(-a - r, 0), t(-a, -r)]]}


def rounded_rect(cx, cy, w, h, r, ang=0.0):
    t = lambda x, y: [cx + math.cos(ang) * x - math.sin(ang) * y, cy + math.sin(ang) * x + math.cos(ang) * y]
    k = r * (1 - math.sqrt(0.5))
    x, y = w / 2, h / 2
    return {"kind": "segs", "start": t(-x + r, -y), "segs": [
        ["L", t(x - r, -y)], ["A", t(x - k, -y + k), t(x, -y + r)],
        ["L", t(x, y - r)], ["A", t(x - k, y - k), t(x - r, y)],
        ["L", t(-x + r, y)], ["A", t(-x + k, y - k), t(-x, y - r)],
        ["L", t(-x, -y + r)], ["A", t(-x + k, -y + k), t(-x + r, -y)]]}


def circle(cx, cy, r):
    return {"kind": "circle", "c": [cx, cy], "r": r}


def xform(o, f):
    """apply a similarity f((x,y))->(x,y) and radius scale attribute f.k"""
    if o["kind"] == "circle":
        return {"kind": "circle", "c": list(f(o["c"])), "r": o["r"] * f.k}
    if o["kind"] == "spline":
        return {"kind": "spline", "pts": [list(f(p)) for p in o["pts"]]}
    return dict(o, start=list(f(o["start"])), segs=[[s[0]] + [list(f(p)) for p in s[1:]] for s in o["segs"]])


class Sim:
    def __init__(self, k=1.0, ang=0.0, dx=0.0, dy=0.0):
        self.k, self.c, self.s, self.dx, self.dy = k, math.cos(ang), math.sin(ang), dx, dy

    def __call__(self, p):
        x, y = p
        return (self.k * (self.c * x - self.s * y) + self.dx, self.k * (self.s * x + self.c * y) + self.dy)


def reverse(o):
    """same curve, opposite direction"""
    if o["kind"] == "circle":
        return o
    if o["kind"] == "spline":
        return {"kind": "spline", "pts": o["pts"][::-1]}
    pts = [o["start"]] + [s[-1] for s in o["segs"]]
    segs = []
    for i in range(len(o["segs"]) - 1, -1, -1):
        s = o["segs"][i]
        segs.append(["L", pts[i]] if s[0] == "L" else ["A", s[1], pts[i]])
    return dict(o, start=pts[-1], segs=segs)


def rnd(x, n=4):
    return round(x, n)


def gen_outline(rng: random.Random, size: float, kinds=None):
    """a simple closed outline roughly within +-size/2 around the origin"""
    k = rng.choice(kinds or ["rect", "rect", "convex", "star", "L", "T", "U", "rrect", "slot", "circle", "bulge", "spline", "plus"])
    s = size
    a = rng.choice([0, 0, rng.uniform(0, 2 * math.pi)])
    if k == "rect":
        o = rect(0, 0, rnd(s * rng.uniform(0.35, 1)), rnd(s * rng.uniform(0.35, 1)))
    elif k == "rrect":
        w, h = s * rng.uniform(0.5, 1), s * rng.uniform(0.5, 1)
        o = rounded_rect(0, 0, rnd(w), rnd(h), rnd(min(w, h) * rng.uniform(0.08, 0.42)))
    elif k == "slot":
        d = s * rng.uniform(0.3, 0.6)
        o = slot(0, 0, rnd(s * rng.uniform(0.2, 0.6)), rnd(d))
    elif k == "circle":
        return circle(rnd(s * rng.uniform(-0.1, 0.1)), rnd(s * rng.uniform(-0.1, 0.1)), rnd(s * rng.uniform(0.25, 0.5)))
    elif k == "convex":
        n = rng.randint(3, 8)
        off = rng.uniform(0, 6.28)
        ang = [off + (i + rng.uniform(-0.3, 0.3)) * 2 * math.pi / n for i in range(n)]
        o = seg_poly([(rnd(s / 2 * math.cos(t)), rnd(s / 2 * math.sin(t))) for t in ang])
    elif k == "star":
        n = rng.randint(4, 7)
        off = rng.uniform(0, 6.28)
        pts = []
        for i in range(2 * n):
            t = off + i * math.pi / n
            r = s / 2 * (rng.uniform(0.85, 1) if i % 2 == 0 else rng.uniform(0.5, 0.7))
            pts.append((rnd(r * math.cos(t)), rnd(r * math.sin(t))))
        o = seg_poly(pts)
    elif k in ("L", "T", "U", "plus"):
        w = s * rng.uniform(0.28, 0.4)
        h = s / 2
        if k == "L":
            pts = [(-h, -h), (h, -h), (h, -h + w), (-h + w, -h + w), (-h + w, h), (-h, h)]
        elif k == "T":
            pts = [(-w / 2, -h), (w / 2, -h), (w / 2, h - w), (h, h - w), (h, h), (-h, h), (-h, h - w), (-w / 2, h - w)]
        elif k == "U":
            pts = [(-h, -h), (h, -h), (h, h), (h - w, h), (h - w, -h + w), (-h + w, -h + w), (-h + w, h), (-h, h)]
        else:
            v = w / 2
            pts = [(-v, -h), (v, -h), (v, -v), (h, -v), (h, v), (v, v), (v, h), (-v, h), (-v, v), (-h, v), (-h, -v), (-v, -v)]
        o = seg_poly([(rnd(x), rnd(y)) for x, y in pts])
    elif k == "bulge":
        n = rng.randint(3, 6)
        off = rng.uniform(0, 6.28)
        vs = [(rnd(s * 0.42 * math.cos(off + i * 2 * math.pi / n)), rnd(s * 0.42 * math.sin(off + i * 2 * math.pi / n))) for i in range(n)]
        segs = []
        for i in range(n):
            p, q = vs[i], vs[(i + 1) % n]
            b = rng.choice([0, 0, 0.08, -0.1, 0.15, -0.05])
            if b == 0:
                segs.append(["L", list(q)])
            else:
                nx, ny = (q[1] - p[1]), -(q[0] - p[0])
                segs.append(["A", [(p[0] + q[0]) / 2 + b * nx, (p[1] + q[1]) / 2 + b * ny], list(q)])
        o = {"kind": "segs", "start": list(vs[0]), "segs": segs, "src": "bulge"}
    elif k == "spline":
        n = rng.randint(5, 8)
        o = {"kind": "spline", "pts": [
            [rnd(s / 2 * rng.uniform(0.75, 1) * math.cos(i * 2 * math.pi / n)), rnd(s / 2 * rng.uniform(0.75, 1) * math.sin(i * 2 * math.pi / n))]
            for i in range(n)]}
    if a and o["kind"] != "circle":
        o = xform(o, Sim(ang=a))
    if rng.random() < 0.3:
        o = reverse(o)
    return o


# ----------------------------------------------------------------- frames
def gen_frame(rng: random.Random, scale=1.0, plain=False):
    """world pose of the job plane"""
    if plain:
        return {"origin": [0, 0, 0], "x": [1, 0, 0], "n": [0, 0, 1]}
    k = rng.choice(["top", "shift", "rotz", "axis", "tilt", "below", "flip"])
    u = lambda: rnd(rng.uniform(-30, 30) * scale)
    if k == "top":
        return {"origin": [0, 0, rnd(rng.uniform(0, 20) * scale)], "x": [1, 0, 0], "n": [0, 0, 1]}
    if k == "below":
        return {"origin": [u(), u(), rnd(rng.choice([-1, -2, -3, -5, -7.5]) * scale)], "x": [1, 0, 0], "n": [0, 0, 1]}
    if k == "shift":
        return {"origin": [u(), u(), u()], "x": [1, 0, 0], "n": [0, 0, 1]}
    if k == "rotz":
        a = rng.uniform(0, 6.28)
        return {"origin": [u(), u(), u()], "x": [math.cos(a), math.sin(a), 0], "n": [0, 0, 1]}
    if k == "flip":
        return {"origin": [u(), u(), u()], "x": [1, 0, 0], "n": [0, 0, -1]}
    if k == "axis":
        n, x = rng.choice([([0, -1, 0], [1, 0, 0]), ([1, 0, 0], [0, 1, 0]), ([0, 1, 0], [-1, 0, 0]), ([-1, 0, 0], [0, -1, 0]), ([1, 0, 0], [0, 0, 1])])
        return {"origin": [u(), u(), u()], "x": x, "n": n}
    # generic tilt
    while True:
        n = [rng.gauss(0, 1) for _ in range(3)]
        x = [rng.gauss(0, 1) for _ in range(3)]
        nn = math.sqrt(sum(v * v for v in n))
        d = sum(a * b for a, b in zip(n, x)) / nn / nn
        x = [b - d * a for a, b in zip(n, x)]
        if nn > 0.2 and math.sqrt(sum(v * v for v in x)) > 0.2:
            return {"origin": [u(), u(), u()], "x": x, "n": n}


def plane(frame) -> cq.Plane:
    return cq.Plane(origin=tuple(frame["origin"]), xDir=tuple(frame["x"]), normal=tuple(frame["n"]))


def place(shape, pl: cq.Plane):
    return shape.transformShape(pl.rG)
