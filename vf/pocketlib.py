"""Pocket cases: generation, execution and the reference region of the tool centre."""
from __future__ import annotations

import numpy as np
from shapely.ops import unary_union

from . import common as C
from . import geo, shapes as S
from .result import Rejected


def eff(R, off, default):
    """an offset argument is a multiple of the tool radius or (multiple, distance)"""
    off = default if off is None else off
    if isinstance(off, (list, tuple)):
        return R * off[0] + off[1]
    return R * off


def gen_islands(rng, P, n, size, kinds, gap=0.4):
    out = []
    x0, y0, x1, y1 = P.bounds
    for _ in range(n * 8):
        if len(out) >= n:
            break
        o = S.gen_outline(rng, size * rng.uniform(0.1, 0.35), kinds)
        o = S.xform(o, S.Sim(dx=S.rnd(rng.uniform(x0, x1)), dy=S.rnd(rng.uniform(y0, y1))))
        q = S.polygon(o)
        if q.is_valid and P.contains(q) and q.boundary.distance(P.boundary) > gap and all(S.polygon(i).distance(q) > gap for i in out):
            out.append(o)
    return out


def gen_bay(rng, dia, prec):
    """an island shaped like a C whose mouth may be too narrow for the tool"""
    w, t, m = dia * rng.uniform(1.3, 3.5), dia * rng.uniform(0.2, 0.8), dia * rng.uniform(0.5, 1.4)
    a, b = w / 2 + t, w / 2
    pts = [(-a, -a), (a, -a), (a, a), (m / 2, a), (m / 2, b), (b, b), (b, -b), (-b, -b), (-b, b), (-m / 2, b), (-m / 2, a), (-a, a)]
    c = S.seg_poly([(S.rnd(x), S.rnd(y)) for x, y in pts])
    size = 2 * a + dia * rng.uniform(1.2, 4)
    f = S.Sim(ang=rng.uniform(0, 6.28), dx=S.rnd(rng.uniform(-1, 1) * dia), dy=0)
    outer = S.rect(0, 0, size * 1.5, size * 1.5) if rng.random() < 0.5 or prec > 2 else S.circle(0, 0, size * 0.8)
    inners = [S.xform(c, f)]
    r = max(dia * 0.05, 3 * 10**-prec)
    if prec < 3 and rng.random() < 0.3 and w > 2.2 * dia + 2 * r:  # a pillar in the bay
        inners.append(S.xform(S.circle(0, 0, S.rnd(r)), f))
    return outer, inners


def gen_ribs(rng, P, dia):
    """islands that are thinner than the tool, which a careless transition between two passes may cross"""
    out = []
    x0, y0, x1, y1 = P.bounds
    for _ in range(30):
        if len(out) >= 4:
            break
        o = S.xform(S.rect(0, 0, S.rnd(dia * rng.uniform(0.02, 0.2)), S.rnd(dia * rng.uniform(0.5, 4))), S.Sim(ang=rng.choice([0, 1.5708, rng.uniform(0, 6.28)]), dx=S.rnd(rng.uniform(x0, x1)), dy=S.rnd(rng.uniform(y0, y1))))
        q = S.polygon(o)
        if P.contains(q) and q.boundary.distance(P.boundary) > 0.4 * dia and all(S.polygon(i).distance(q) > 0.4 * dia for i in out):
            out.append(o)
    return out


KINDS = ["rect", "rect", "convex", "star", "L", "T", "U", "rrect", "slot", "circle", "bulge", "spline", "plus"]


def gen(rng, tier, stepdown=False, avoid=True):
    dia = rng.choice([1, 2, 3, 3.175, 6])
    size = rng.choice([4, 6, 8, 12]) * dia
    prec = rng.choice([1, 1, 2, 2, 3])
    inch = rng.random() < 0.12
    if inch:
        dia, prec = rng.choice([0.0625, 0.125, 0.25]), 3
        size = rng.choice([4, 6, 8, 12]) * dia
    kinds = ["rect", "convex", "star", "L", "T", "U", "plus"] if prec == 3 and not inch else KINDS
    outer = S.gen_outline(rng, size, kinds)
    P = S.polygon(outer)
    if not P.is_valid:
        return None
    inners = gen_islands(rng, P, rng.choice([0, 0, 1, 1, 2, 3]), size, [k for k in kinds if k != "U"], gap=0.02 if inch else 0.4)
    if rng.random() < 0.08:
        outer, inners = gen_bay(rng, dia, prec)
        if not S.polygon(outer).contains(S.polygon(inners[0])):
            return None
        P = S.polygon(outer)
    ribs = [] if rng.random() > 0.08 else gen_ribs(rng, P, dia)
    inners = ribs or inners
    c = {
        "frame": S.gen_frame(rng, plain=rng.random() < 0.3),
        "job": C.gen_job(rng, precision=prec, tool_diameter=dia),
        "region": {"outer": outer, "inners": inners},
        "depth": rng.choice([1, 2, 3, 4.567, 0.2]) if not inch else rng.choice([0.1, 0.25, 0.3]),
        "entry": rng.choice(["face", "list", "workplane", "solid"]),
        "kw": {},
    }
    kw = c["kw"]
    if inch:
        c["job"]["unit"] = "IMPERIAL"
        c["job"].pop("rapid_height", None)
        c["job"].pop("op_safe_height", None)
    so = rng.choice([None, None, 1, 0.3, 0.8, [0, S.rnd(0.2 * dia)], [0.5, 0.025 * dia]])
    if ribs and rng.random() < 0.6:
        so = 1
    if so is not None:
        kw["stepover"] = so
    if rng.random() < 0.3:
        kw["outer_offset"] = rng.choice([-1, -1.25, [-1, -0.1 * dia], [-1, -0.05 * dia], -0.5, 0])
    if inners and rng.random() < 0.3:
        kw["inner_offset"] = rng.choice([1, 1.25, [1, 0.1 * dia], [1, 0.06 * dia], 0.5])
    if stepdown or rng.random() < 0.2:
        kw["stepdown"] = rng.choice([0.5, 1, 0.7, 2] if not inch else [0.05, 0.1, 0.07])
    if avoid and rng.random() < 0.25:
        # areas to stay out of; may overlap the border of the pocket
        x0, y0, x1, y1 = P.bounds
        av = []
        for _ in range(rng.choice([1, 1, 2])):
            o = S.gen_outline(rng, size * rng.uniform(0.15, 0.4), ["rect", "convex", "circle", "rrect"])
            o = S.xform(o, S.Sim(dx=S.rnd(rng.uniform(x0, x1)), dy=S.rnd(rng.uniform(y0, y1))))
            av.append({"outer": o, "up": rng.choice([0, 0.5 * c["depth"], c["depth"]])})
        c["avoid"] = av
        if rng.random() < 0.4:
            kw["avoid_outer_offset"] = rng.choice([1, 1.2, [1, 0.15 * dia]])
    return c


def make_face(case, region, z, pl):
    import cadquery as cq

    e = case["entry"]
    if e == "solid":
        body = S.place(S.prism(region, z - 2, z), pl)
        for f in body.Faces():
            b = f.transformShape(pl.fG).BoundingBox()
            if abs(b.zmin - z) < 1e-4 and abs(b.zmax - z) < 1e-4:
                return f
        raise Rejected("no face")
    return S.place(S.face(region, z), pl)


def wrap(case, faces):
    import cadquery as cq

    e = case["entry"]
    if len(faces) == 1 and e == "face":
        return faces[0]
    if e == "workplane":
        return cq.Workplane().newObject(faces)
    return faces


def plan(case):
    pl = S.plane(case["frame"])
    job = C.job(case["job"], case["frame"])
    f = make_face(case, case["region"], -case["depth"], pl)
    kw = {k: tuple(v) if isinstance(v, list) else v for k, v in case["kw"].items()}
    if case.get("avoid"):
        av = [S.place(S.face({"outer": a["outer"]}, -case["depth"] + a["up"]), pl) for a in case["avoid"]]
        kw["avoid_areas"] = wrap(case, av)
    return job.pocket(wrap(case, [f]), **kw)


class Reference:
    """where the tool centre may be, and has to be"""

    def __init__(self, case):
        R = self.R = case["job"]["tool_diameter"] / 2
        kw = case["kw"]
        av = case.get("avoid") or []
        self.oo = eff(R, kw.get("outer_offset"), 0 if av else -1)
        self.io = eff(R, kw.get("inner_offset"), 1)
        self.ao = eff(R, kw.get("avoid_outer_offset"), 1)
        self.step = eff(R, kw.get("stepover"), 0.5)
        r = case["region"]
        self.outer = S.polygon(r["outer"])
        self.inners = [S.polygon(i) for i in r["inners"]]
        self.avoids = [S.polygon(a["outer"]) for a in av]
        prec = case["job"].get("precision", 3)
        self.tol = 0.003 + 2 * 10**-prec

    def slack(self, pts):
        """per point: how far it is inside of the region allowed for the tool centre"""
        s = geo.Region(self.outer).clearance(pts) + self.oo
        which = np.zeros(len(pts), int)
        for polys, off, w in ((self.inners, self.io, 1), (self.avoids, self.ao, 2)):
            for p in polys:
                v = -geo.Region(p).clearance(pts) - off
                which = np.where(v < s, w, which)
                s = np.minimum(s, v)
        return s, which

    def allowed(self, shrink=0.0):
        q = 64
        a = self.outer.buffer(self.oo - shrink, quad_segs=q)
        cut = [p.buffer(self.io + shrink, quad_segs=q) for p in self.inners]
        cut += [p.buffer(self.ao + shrink, quad_segs=q) for p in self.avoids]
        return a.difference(unary_union(cut)) if cut else a
