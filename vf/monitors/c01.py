"""C01: a profile is cut along the offset outline - right side, right distance, complete, once."""
import math

import numpy as np

from .. import common as C
from .. import geo, shapes as S
from ..result import Rejected

PID = "C01"
QUICK, THOROUGH = 400, 6000
RULE = ("random outline (polygon, arcs, circle, spline; 0-3 holes) in a random job plane, random offsets/tool/entry point; "
        "non-trivial: at least one closed cutting loop was compared with the offset curve")
REQUIRED = {"loops_compared": 50, "path_points": 5000, "several_faces": 15, "tight": 30}
ASSUMPTIONS = ["splines and kinked arc chains are only offset within their curvature (the CAD kernel drops or tangles them otherwise)", "outlines whose offset changes topology within 0.02 of the requested distance are outside the domain",
               "tolerance 0.003 (three printed decimals); 10^-precision more for curves that are cut as chords"]


def gen_region(rng, size, holes, kinds=None, gap=0.5):
    outer = S.gen_outline(rng, size, kinds)
    P = S.polygon(outer)
    inners = []
    for _ in range(holes * 6):
        if len(inners) >= holes:
            break
        o = S.gen_outline(rng, size * rng.uniform(0.12, 0.35), kinds)
        x0, y0, x1, y1 = P.bounds
        o = S.xform(o, S.Sim(dx=S.rnd(rng.uniform(x0, x1)), dy=S.rnd(rng.uniform(y0, y1))))
        q = S.polygon(o)
        if q.is_valid and P.contains(q) and q.boundary.distance(P.boundary) > gap and all(S.polygon(i).distance(q) > gap for i in inners):
            inners.append(o)
    return {"outer": outer, "inners": inners}


def gen(rng, i, tier):
    inch = rng.random() < 0.2
    size = rng.choice([0.7, 1.5, 3, 6] if inch else [12, 20, 30, 60])
    entry = rng.choice(["face", "solid", "solid", "workplane", "list", "wire", "wires"])
    r = gen_region(rng, size, rng.choice([0, 0, 1, 2, 3]), gap=0.5 if not inch else 0.02 * size)
    tight = not inch and size > 15 and rng.random() < 0.12
    if tight:  # a hole that the tool just fits in
        dia = rng.choice([1, 2, 3, 3.175])
        q = S.rnd(rng.uniform(0.03, 0.3), 4)
        h = rng.choice([lambda: S.circle(0, 0, dia / 2 + q), lambda: S.rect(0, 0, dia + 2 * q, dia + rng.choice([2, 3, 10]) * q, S.rnd(rng.uniform(0, 3))), lambda: S.slot(0, 0, dia + 2.5 * q, dia + 2 * q, 0.7)])()
        if S.polygon(r["outer"]).contains(S.polygon(h).buffer(0.3)):
            r["inners"] = [h] + [i for i in r["inners"] if S.polygon(i).distance(S.polygon(h)) > 0.5]
        else:
            tight = False
    more = []
    if entry not in ("solid", "wire") and rng.random() < 0.4:
        more = gen_more(rng, r, size, rng.choice([1, 1, 2]), 2, gap=0.5 if not inch else 0.02 * size)
    spl = curved({"region": r, "more": more})
    c = {
        "frame": S.gen_frame(rng, plain=rng.random() < 0.25),
        "job": C.gen_job(rng, precision=3, unit="IMPERIAL", tool_diameter=rng.choice([0.0625, 0.125, 0.25]))
        if inch else C.gen_job(rng, precision=rng.choice([1, 1, 2] if spl else [1, 2, 3, 3])),
        "solid": [rng.choice(["top", "bottom"]), rng.choice(["extrude", "cut-up", "cut-down", "mirror"])],
        "region": r,
        **({"more": more} if more else {}),
        "entry": entry,
        "depth": rng.choice([1, 2.5, 3, 7.123, 0.3, 0.05] if not inch else [0.25, 0.4, 0.05, 1.5]),
        "outer": rng.choice([1, 1, 1, 0, -1, 1.5, 0.5, None]),
        "inner": rng.choice([-1, -1, -1, 0, 1, -0.5, None]),
        "moved": rng.random() < 0.3,
        "reverse": rng.random() < 0.3,
    }
    if tight:
        c["job"]["tool_diameter"], c["inner"] = dia, -1
    return c


def directed():
    sq = S.rect(0, 0, 20, 20)
    base = {"frame": C.PLAIN, "job": {"feed": 200, "tool_diameter": 3}, "entry": "wire", "depth": 3, "outer": 1, "inner": -1, "moved": False, "reverse": False}
    out = [dict(base, region={"outer": sq, "inners": []})]
    # nearly straight corners: the joining arcs are shorter than the printed resolution
    for a in (2e-4, 4e-4, 7e-4, 2e-3):
        out.append(dict(base, region={"outer": S.seg_poly([(0, 0), (10, 0), (20, 10 * a), (20, 10), (0, 10)]), "inners": []}))
    for k in (S.circle(3, 4, 6), S.slot(1, 2, 9, 6, 0.3), S.rounded_rect(0, 0, 20, 12, 3)):
        for off in (1, -1, 0):
            for moved in (False, True):
                out.append(dict(base, region={"outer": k, "inners": []}, outer=off, moved=moved,
                                frame={"origin": [5, -3, 2], "x": [0, 1, 0], "n": [0, 0, 1]}))
    # holes hardly larger than the tool
    for q in (0.03, 0.045, 0.08, 0.2):
        for dia in (1, 2, 3.175):
            R = dia / 2
            for k in (S.circle(-4, 1, S.rnd(R + q, 4)), S.rect(-4, 1, S.rnd(dia + 2 * q, 4), S.rnd(dia + 3 * q, 4)), S.slot(-4, 1, S.rnd(dia * 1.5 + 2 * q, 4), S.rnd(dia + 2 * q, 4), 0.4)):
                c = dict(base, job={"feed": 200, "tool_diameter": dia}, frame={"origin": [5, -3, 2], "x": [0, 1, 0], "n": [0, 0, 1]})
                out.append(dict(c, region={"outer": k, "inners": []}, outer=-1))
                out.append(dict(c, region={"outer": sq, "inners": [k, S.circle(5, 0, 3)]}, entry="solid", solid=["top", "cut-up"]))
    # OCCT's offset of this spline is broken at just this distance
    out.append({"frame": {"origin": [-9.6665, 6.9806, -29.0479], "x": [0, 0, 1], "n": [1, 0, 0]}, "job": {"feed": 1200, "tool_diameter": 3, "precision": 1},
                "region": {"outer": S.rect(0, 0, 20, 20), "inners": []}, "more": [{"outer": S.rect(26, -3.6808, 14, 16), "inners": [{"kind": "spline", "pts": [[27.2545, -3.2222], [25.4593, -3.4492000000000003], [23.7739, -2.0815], [24.2563, -0.26780000000000026], [25.5651, 0.6737999999999995], [27.5041, 0.4159999999999999], [28.5859, -1.2168]]}]}],
                "entry": "face", "depth": 1, "outer": 0, "inner": -1, "moved": False, "reverse": False})
    # known finding: OCCT offsets this spline in one direction only
    out.append({"frame": {"origin": [11.7467, 27.6461, -5.0], "x": [1, 0, 0], "n": [0, 0, 1]}, "job": {"feed": 100, "tool_diameter": 3, "precision": 1},
                "region": {"outer": {"kind": "spline", "pts": [[29.2843, 0.0], [8.4429, 24.9017], [-21.0359, 16.3852], [-19.1267, -15.5093], [9.1231, -28.2323]]}, "inners": []},
                "entry": "face", "depth": 3, "outer": -1, "inner": 0, "moved": True, "reverse": False})
    return out


def flip(r):
    return {"outer": S.reverse(r["outer"]), "inners": [S.reverse(i) for i in r["inners"]]}


def shift(r, f):
    return {"outer": S.xform(r["outer"], f), "inners": [S.xform(i, f) for i in r["inners"]]}


def build(case):
    """-> plane, regions, face maker, wire maker"""
    import cadquery as cq

    pl = S.plane(case["frame"])
    rs, d = [case["region"]] + case.get("more", []), case["depth"]
    if case["reverse"]:
        rs = [flip(r) for r in rs]
    if case["moved"]:  # the shape carries a location of its own
        dx, dy = 7.25, -4.5
        f = S.Sim(dx=-dx, dy=-dy)
        loc = cq.Location(cq.Vector(dx, dy, -d))
        mk = lambda r: S.place(S.face(shift(r, f), 0).moved(loc), pl)
        mkw = lambda o: S.place(S.wire(S.xform(o, f), 0).moved(loc), pl)
    else:
        mk = lambda r: S.place(S.face(r, -d), pl)
        mkw = lambda o: S.place(S.wire(o, -d), pl)
    return pl, rs, mk, mkw


def solid_face(case, pl, r):
    """the floor / ceiling face of a solid which got its holes in one of several ways"""
    import cadquery as cq

    d = case["depth"]
    side, how = case["solid"]
    z0, z1 = (-d, 0.0) if side == "bottom" else (-d - 4, -d)
    body = S.prism({"outer": r["outer"]}, z0, z1)
    if how == "extrude":
        body = S.prism(r, z0, z1)
    else:
        for i in r["inners"]:
            if how == "cut-down":
                tool = cq.Solid.extrudeLinear(S.wire(i, z1 + 3), [], cq.Vector(0, 0, z0 - z1 - 6))
            else:
                tool = S.prism({"outer": i}, z0 - 3, z1 + 3)
            body = body.cut(tool)
        if how == "mirror":  # twice, to end up in the same place
            body = body.mirror("XY").mirror("XY") if side == "top" else body.mirror("XZ").mirror("XZ")
    body = S.place(body, pl)
    for f in body.Faces():
        g = f.transformShape(pl.fG)
        b = g.BoundingBox()
        if abs(b.zmin + d) < 1e-4 and abs(b.zmax + d) < 1e-4:
            return f
    raise Rejected("no face in the plane")


def plan(case):
    """(job after the operation, [(polygon, multiplier, is_hole)])"""
    import cadquery as cq

    pl, rs, mk, mkw = build(case)
    job = C.job(case["job"], case["frame"])
    e = case["entry"]
    oo, io = case["outer"], case["inner"]
    kw = dict(case.get("kw") or {})
    if "tabs" in kw:
        kw["tabs"] = C.tabs(kw["tabs"])
    want, order = [], []
    if e in ("wire", "wires"):
        oo = 1 if oo is None else oo
        order = [rs[0]["outer"]] if e == "wire" else [o for r in rs for o in [r["outer"]] + r["inners"]]
        ws = [mkw(o) for o in order]
        job = job.wire_profile(ws[0] if e == "wire" else ws, offset=oo, **kw)
        want = [(S.polygon(o), oo, False) for o in order]
        return job, want, order, [w.transformShape(pl.fG) for w in ws]
    if oo is None and io is None:
        raise Rejected("both offsets None")
    if len(rs) == 1 or e == "solid":
        rs = rs[:1]
        fs = [solid_face(case, pl, rs[0]) if e == "solid" else mk(rs[0])]
    else:
        fs = [mk(r) for r in rs]
    shape = cq.Workplane().newObject(fs) if e == "workplane" else fs if e == "list" or len(fs) > 1 else fs[0]
    job = job.profile(shape, outer_offset=oo, inner_offset=io, **kw)
    if io is not None:
        order += [i for r in rs for i in r["inners"]]
        want += [(S.polygon(o), io, True) for o in order]
    if oo is not None:
        want += [(S.polygon(r["outer"]), oo, False) for r in rs]
        order += [r["outer"] for r in rs]
    return job, want, order, [w.transformShape(pl.fG) for f in fs for w in [f.outerWire()] + f.innerWires()]


def kernel_fails(wires, P, d):
    """the CAD kernel itself doesn't offset this outline (nothing cq-cam specific involved)"""
    x0, y0, x1, y1 = P.bounds
    for w in wires:
        b = w.BoundingBox()
        if abs(b.xmin - x0) + abs(b.ymin - y0) + abs(b.xmax - x1) + abs(b.ymax - y1) < 0.05:
            for dd in (d, d + 1e-6):
                try:
                    if w.offset2D(dd, "arc"):
                        return False
                except Exception:
                    pass
            return True
    return False


def rings_of(poly):
    out = []
    for g in getattr(poly, "geoms", [poly]):
        if g.is_empty:
            continue
        out.append(g.exterior)
        out += list(g.interiors)
    return out


def reference(P, d):
    """offset outline by d (positive outwards); rejects topologically unstable cases"""
    if d == 0:
        return P
    ref = P.buffer(d, quad_segs=64)
    eps = min(0.02, max(0.006, 0.02 * math.sqrt(P.area) / 8))
    lo, hi = P.buffer(d - eps, quad_segs=64), P.buffer(d + eps, quad_segs=64)
    n = {len(rings_of(x)) for x in (lo, ref, hi)}
    # an offset feature that is about to vanish or to touch itself
    if len(n) != 1 or ref.is_empty or min(g.area for g in getattr(ref, "geoms", [ref])) < 0.002:
        raise Rejected("offset at a topology change")
    if any(len(g.interiors) for g in getattr(ref, "geoms", [ref])):
        raise Rejected("offset closes a bay")
    for x in (lo, hi):
        if abs(x.length - ref.length) > 25 * eps + 0.02 * ref.length:
            raise Rejected("offset at a topology change")
    return ref


def curved(case):
    return any(o["kind"] == "spline" for r in [case["region"]] + case.get("more", []) for o in [r["outer"]] + r["inners"])


def gen_more(rng, r, size, n, holes, kinds=None, gap=0.5):
    """regions next to r, one after the other in one direction"""
    more = []
    x1 = S.polygon(r["outer"]).bounds[2]
    for _ in range(n):
        q = gen_region(rng, size * rng.choice([0.5, 0.8, 1]), rng.randint(0, holes), kinds, gap)
        x0 = S.polygon(q["outer"]).bounds[0]
        q = shift(q, S.Sim(dx=S.rnd(x1 - x0 + 0.4 * size), dy=S.rnd(rng.uniform(-0.3, 0.3) * size)))
        x1 = S.polygon(q["outer"]).bounds[2]
        more.append(q)
    return more


def run(case, o):
    R = case["job"]["tool_diameter"] / 2
    job, want, order, wires = plan(case)
    refs = [(reference(P, m * R), P, m, hole) for P, m, hole in want]
    for (P, m, hole), o_ in zip(want, order):
        # the CAD kernel can't be trusted to offset a free form curve (or a chain of arcs
        # with kinks) beyond its curvature: it returns nothing or a tangled wire
        if o_["kind"] == "spline" or (o_.get("src") == "bulge"):
            d = m * R * (1.05 if o_["kind"] == "spline" else 1.0)
            back = P.buffer(d, quad_segs=64).buffer(-d, quad_segs=64)
            if back.symmetric_difference(P).area > 0.002 * P.area:
                raise Rejected("offset beyond the curvature of the outline")
    text, t = C.op_trace(job)
    o.gcode = text
    if not C.check_readable(o, t, text):
        return
    prec = case["job"].get("precision", 3)
    tol = 0.003 + (1.5 * 10 ** -prec if curved(case) else 0)
    loops = [C.xy_moves(l) for l in C.layers(t)]
    if len(loops) < len(refs):
        for ref, P, m, hole in list(refs):
            if m and kernel_fails(wires, P, m * R):
                o.bad("kernel-drops-outline", f"outline with bounds {[round(v, 2) for v in P.bounds]} offset by {m * R} is silently not cut")
                refs.remove((ref, P, m, hole))
    o.count("tight", sum(m < 0 and ref.area < 0.3 for ref, P, m, hole in refs))
    o.count("several_faces", bool(case.get("more")))
    nref = sum(len(rings_of(r)) for r, *_ in refs)
    o.expect(len(loops) == nref, "loop-count", lambda: f"{len(loops)} cutting loops for {nref} offset outlines")
    used = [0] * len(refs)
    kinds = []
    for k, loop in enumerate(loops):
        if not loop:
            o.bad("empty-loop", "plunge without a cut")
            continue
        pts = C.path_points(loop, 0.2)
        o.count("path_points", len(pts))
        a = [b if s is None else s for s, b in zip(loop[0].start, loop[0].end)]
        e = loop[-1].end
        o.expect(math.hypot(a[0] - e[0], a[1] - e[1]) <= 0.003, "open-loop", lambda: f"loop starts at {a[:2]} and ends at {e[:2]}")
        zs = {m.end[2] for m in loop} | {a[2]}
        o.expect(all(abs(z + case["depth"]) <= 0.0011 for z in zs), "depth", lambda: f"cut at z {sorted(zs)} instead of {-case['depth']}")
        best = None
        for q, (ref, P, m, hole) in enumerate(refs):
            d = geo.Segs.of_polygon(P).dist(pts)
            err = np.abs(d - abs(m) * R).max()
            side = bool(m) and bool((geo.inside(P, pts) == (m > 0)).any())
            if best is None or (side, err) < best[:2]:
                best = (side, err, q)
        _, err, q = best
        ref, P, m, hole = refs[q]
        kinds.append(hole)
        if not o.expect(err <= tol, "distance", lambda: f"loop {k}: tool centre is off the offset distance {abs(m) * R} by {err:.4f}"):
            continue
        ins = geo.inside(P, pts)
        if m:
            wrong = ins if m > 0 else ~ins
            o.expect(not wrong.any(), "side", lambda: f"loop {k}: {wrong.sum()} of {len(pts)} points on the wrong side of the outline")
        used[q] += C.length(loop)
        o.count("loops_compared")
        o.nontrivial = True
    if not refs:
        return
    path = geo.path_segs([m for l in loops for m in l])
    for (ref, P, m, hole), got in zip(refs, used):
        ring_len = sum(g.length for g in rings_of(ref))
        o.expect(abs(got - ring_len) <= 0.007 + tol + 0.004 * ring_len, "length", lambda: f"path length {got:.3f}, offset outline is {ring_len:.3f} long")
        d = path.dist(geo.boundary_points(ref, 400))
        o.expect(d.max() <= tol + 0.003, "incomplete", lambda: f"offset outline is up to {d.max():.4f} away from the path")
    if True in kinds and False in kinds:
        o.expect(kinds == sorted(kinds, reverse=True), "order", "an outer outline is cut before an inner one")
        o.count("inner_before_outer")
