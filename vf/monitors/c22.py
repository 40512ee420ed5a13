"""C22: every area of one pocket request is cut down to its own depth, and nothing else is cut."""
import numpy as np
from shapely.ops import unary_union

from .. import common as C
from .. import geo, pocketlib as L, shapes as S
from ..result import Rejected

PID = "C22"
QUICK, THOROUGH = 260, 4000
RULE = ("one pocket request with two to five areas (apart, sharing edges, inside the hole of another, on top of each other, enclosing an island together) of one or several depths, random frame, tool, offsets, stepover, stepdown, order of the areas; "
        "non-trivial: at least two areas with sampled floor points")
REQUIRED = {"areas": 600, "floor_points": 60000, "wall_points": 30000, "positions": 200000, "nested_areas": 60, "shared_edges": 40, "stacked": 35, "enclosed_islands": 18, "stepped_points": 20000, "level_points": 15000, "multi_depth": 150, "close_depths": 20}
ASSUMPTIONS = ["stepover does not exceed the tool radius", "tolerance 0.003 + 2*10^-precision", "every area is offset on its own, as for a request of this area alone"]

CORE = ["rect", "convex", "circle", "rrect", "L"]


def shift(o, f):
    return S.xform(o, f)


def put(a, f):
    return {"outer": S.xform(a["outer"], f), "inners": [S.xform(i, f) for i in a["inners"]], "depth": a["depth"]}


def gen(rng, i, tier):
    dia = rng.choice([1, 2, 3])
    prec = rng.choice([1, 2, 2, 3])
    kinds = ["rect", "convex", "L", "plus", "U"] if prec == 3 else CORE + ["slot", "plus"]
    depths = rng.sample([0.5, 1, 1.6, 2, 3.2, 4.5], 3)
    if rng.random() < 0.25:
        depths = [depths[0]] * 3
    elif rng.random() < 0.2:  # nearly the same
        depths = [S.rnd(depths[0] + q, 4) for q in rng.choice([(0, 0.004, 0.3), (0, 0.05, 0.1), (0.062, 0, 1), (0, 0.01, 0.02)])]
    D = lambda: rng.choice(depths)
    k = rng.choice(["apart", "adjacent", "adjacent", "ring", "ring", "stacked", "stacked", "pair"])
    kw, areas = {}, []
    u = dia * rng.choice([4, 5, 7])
    if k == "apart":
        for q in range(rng.randint(2, 4)):
            a = {"outer": S.gen_outline(rng, u, kinds), "inners": [], "depth": D()}
            P = S.polygon(a["outer"])
            if not P.is_valid:
                return None
            if rng.random() < 0.4:
                a["inners"] = L.gen_islands(rng, P, 1, u, ["rect"], gap=0.3)
            areas.append(put(a, S.Sim(dx=q * u * 1.15, dy=rng.uniform(-u, u))))
    elif k == "adjacent":
        x = 0.0
        h = S.rnd(u * rng.uniform(0.7, 1.2), 2)
        for q in range(rng.randint(2, 3)):
            w = S.rnd(u * rng.uniform(0.5, 1.1), 2)
            a = {"outer": S.rect(x + w / 2, 0, w, h), "inners": [], "depth": D()}
            if rng.random() < 0.3:
                a["inners"] = [S.circle(S.rnd(x + w / 2), 0, S.rnd(dia * 0.3))] if prec < 3 else [S.rect(S.rnd(x + w / 2), 0, S.rnd(dia * 0.5), S.rnd(dia * 0.7))]
            areas.append(a)
            x += w
        if rng.random() < 0.3:
            areas.append({"outer": S.rect(x / 2, h, x, h), "inners": [], "depth": D()})
        kw["outer_offset"] = rng.choice([0, 0, 0, -1, -0.5, [0, 0]])
    elif k == "ring":
        # ring with a hole, another area in the hole (touching it or not), possibly again
        s, n = u * rng.uniform(2.2, 3), rng.choice([2, 2, 3])
        shape = rng.choice(["rect", "circle"] if prec < 3 else ["rect"])
        mk = (lambda s: S.rect(0, 0, S.rnd(s), S.rnd(s))) if shape == "rect" else (lambda s: S.circle(0, 0, S.rnd(s / 2)))
        for q in range(n):
            a = {"outer": mk(s), "inners": [], "depth": D()}
            if q < n - 1:
                hole = s * rng.uniform(0.5, 0.65)
                if hole < 2 * dia:
                    break
                a["inners"] = [mk(hole)]
                s = hole if rng.random() < 0.5 else hole * rng.uniform(0.6, 0.9)
            areas.append(a)
        kw["outer_offset"] = rng.choice([None, -1, 0, -0.5])
        kw["inner_offset"] = rng.choice([None, 1, 0.5, 0] if kw["outer_offset"] == 0 else [None, 1, 1.25])
    elif k == "stacked":
        ds = sorted(depths)
        s = u * rng.uniform(1.5, 2.2)
        x = 0.0
        for q in range(rng.randint(2, 3)):
            areas.append({"outer": S.xform(S.gen_outline(rng, s, ["rect", "circle", "rrect"] if prec < 3 else ["rect"]), S.Sim(dx=x)), "inners": [], "depth": ds[q]})
            x += rng.uniform(-0.1, 0.1) * s
            s *= rng.uniform(0.45, 0.8)
        if not any(S.polygon(a["outer"]).intersects(S.polygon(areas[0]["outer"])) for a in areas[1:]):
            return None
    else:
        # two areas enclosing an island
        a, b = S.rnd(u * rng.uniform(1.0, 1.5), 2), S.rnd(dia * rng.uniform(0.8, 1.6), 2)
        A = [(-a, -a), (0, -a), (0, -b), (-b, -b), (-b, b), (0, b), (0, a), (-a, a)]
        B = [(-x, y) for x, y in A][::-1]
        d = D()
        areas = [{"outer": S.seg_poly(A), "inners": [], "depth": d}, {"outer": S.seg_poly(B), "inners": [], "depth": rng.choice([d, D()])}]
        if rng.random() < 0.3 and b > 1.2 * dia:
            areas.append({"outer": S.rect(0, 0, S.rnd(1.2 * b), S.rnd(1.2 * b)), "inners": [], "depth": D()})
        kw["outer_offset"] = rng.choice([0, 0, 0, [0, 0.05 * dia], -0.1])
    so = rng.choice([None, None, 1, 0.3, 0.8, [0, S.rnd(0.2 * dia)]])
    if so is not None:
        kw["stepover"] = so
    if rng.random() < 0.4:
        kw["stepdown"] = rng.choice([0.5, 0.7, 1, 2])
    if rng.random() < 0.5:
        rng.shuffle(areas)
    f = S.Sim(ang=rng.choice([0, 0, rng.uniform(0, 6.28)]), dx=S.rnd(rng.uniform(-40, 40)), dy=S.rnd(rng.uniform(-40, 40)))
    return {"frame": S.gen_frame(rng, plain=rng.random() < 0.3), "job": C.gen_job(rng, precision=prec, tool_diameter=dia), "areas": [put(a, f) for a in areas],
            "kw": {a: b for a, b in kw.items() if b is not None}, "arr": k, "entry": rng.choice(["list", "workplane"])}


def directed():
    base = {"frame": C.PLAIN, "job": {"feed": 200, "tool_diameter": 2, "precision": 2}, "kw": {}, "entry": "list"}
    R = lambda s, d, *inner: {"outer": S.rect(0, 0, s, s), "inners": [S.rect(0, 0, q, q) for q in inner], "depth": d}
    A = [(-15, -15), (0, -15), (0, -5), (-5, -5), (-5, 5), (0, 5), (0, 15), (-15, 15)]
    pair = [{"outer": S.seg_poly(A), "inners": [], "depth": 3}, {"outer": S.seg_poly([(-x, y) for x, y in A][::-1]), "inners": [], "depth": 3}]
    out = [dict(base, arr="ring", areas=[R(40, 2, 20), R(20, 5)]), dict(base, arr="ring", areas=[R(40, 5, 20), R(20, 2)]), dict(base, arr="ring", areas=[R(40, 2, 20), R(16, 2)]),
           dict(base, arr="ring", areas=[R(60, 2, 40), R(36, 3, 20), R(12, 1)], kw={"stepdown": 0.7}),
           dict(base, arr="pair", areas=pair, kw={"outer_offset": 0}), dict(base, arr="pair", areas=[pair[0], dict(pair[1], depth=1)], kw={"outer_offset": 0, "stepdown": 1}),
           dict(base, arr="stacked", areas=[R(40, 2), R(30, 4), R(20, 6)], kw={"stepdown": 1}), dict(base, arr="stacked", areas=[R(20, 6), R(40, 2), R(30, 4)]),
           dict(base, arr="adjacent", areas=[{"outer": S.rect(-10, 0, 20, 20), "inners": [], "depth": 2}, {"outer": S.rect(10, 0, 20, 20), "inners": [], "depth": 5}], kw={"outer_offset": 0})]
    for q in (0.003, 0.006, 0.04, 0.4):
        out.append(dict(base, arr="adjacent", areas=[{"outer": S.rect(-10, 0, 20, 20), "inners": [], "depth": 2}, {"outer": S.rect(10, 0, 20, 20), "inners": [], "depth": 2 + q}], kw={"outer_offset": 0}))
        out.append(dict(base, arr="ring", areas=[R(40, 2, 20), R(18, 2 - q)]))
    return out + [dict(c, frame={"origin": [3, -7, 11], "x": [0.36, 0.48, -0.8], "n": [0.8, -0.6, 0]}) for c in out]


def plan(case, arg, kw):
    return C.op_trace(C.job(case["job"], case["frame"]).pocket(arg, **kw))


def run(case, o):
    judge(case, o, plan)


def judge(case, o, plan, tol=None):
    R = case["job"]["tool_diameter"] / 2
    kw, areas = case["kw"], case["areas"]
    oo, io, step = L.eff(R, kw.get("outer_offset"), -1), L.eff(R, kw.get("inner_offset"), 1), L.eff(R, kw.get("stepover"), 0.5)
    if step > R + 1e-9:
        raise Rejected("stepover beyond the radius")
    tol = tol or 0.003 + 2 * 10 ** -case["job"].get("precision", 3)
    outers = [S.polygon(a["outer"]) for a in areas]
    inners = [[S.polygon(i) for i in a["inners"]] for a in areas]
    n = len(areas)

    def region(i, grow):
        a = outers[i].buffer(oo + grow, quad_segs=64)
        return a.difference(unary_union([h.buffer(io - grow, quad_segs=64) for h in inners[i]])) if inners[i] else a

    # inside of the hole of another area
    nested = [[j for j in range(n) if j != i and any(h.buffer(0.001).contains(outers[i]) for h in inners[j])] for i in range(n)]
    pl = S.plane(case["frame"])
    faces = [S.place(S.face(a, -a["depth"]), pl) for a in areas]
    arg = faces
    if case["entry"] == "workplane":
        import cadquery as cq

        arg = cq.Workplane().newObject(faces)
    text, t = plan(case, arg, {k: tuple(v) if isinstance(v, list) else v for k, v in kw.items()})
    o.gcode = text
    if not C.check_readable(o, t, text):
        return
    zeps = 0.0011
    below = [m for m in t.moves if m.end[2] is not None and (m.end[2] < 0 or (m.start[2] is not None and m.start[2] < 0)) and None not in m.end[:2]]
    flat = [m for m in C.xy_moves(C.cutting(t)) if m.end[2] < 0]
    o.count("areas", n)
    o.count("nested_areas", sum(bool(q) for q in nested))
    o.count("multi_depth", len({a["depth"] for a in areas}) > 1)
    ds = sorted({a["depth"] for a in areas})
    o.count("close_depths", any(b - a < 0.11 for a, b in zip(ds, ds[1:])))
    o.count({"adjacent": "shared_edges", "stacked": "stacked", "pair": "enclosed_islands"}.get(case["arr"], case["arr"]))
    # --- nothing else is cut, nowhere deeper
    for z in sorted({round(min(m.end[2], m.start[2] if m.start[2] is not None else 0), 4) for m in below}):
        ms = [m for m in below if round(min(m.end[2], m.start[2] if m.start[2] is not None else 0), 4) == z]
        pts = C.path_points(ms, R / 4)
        deep = [region(i, tol) for i in range(n) if areas[i]["depth"] >= -z - zeps]
        o.count("positions", len(pts))
        ok = np.zeros(len(pts), bool)
        for d in deep:
            if not d.is_empty:
                ok |= geo.inside(d, pts)
        if not ok.all():
            p = pts[np.argmin(ok)]
            o.bad("gouge", f"at depth {z} the tool centre is at {p.round(3)}, outside of all areas of that depth ({(~ok).sum()} of {len(pts)})")
        if len({a["depth"] for a in areas}) == 1:
            # islands of one area are not cut by its neighbours
            for i in range(n):
                for h in inners[i]:
                    own = unary_union([region(j, tol) for j in range(n) if i in nested[j]] or [h.buffer(-1e9)])
                    core = h.buffer(io - tol, quad_segs=64)
                    bad = geo.inside(core, pts) & ~(geo.inside(own, pts) if not own.is_empty else False)
                    o.expect(not bad.any(), "gouge-island", lambda: f"tool centre at {pts[np.argmax(bad)].round(3)} inside of the island of area {i}")
    if not o.expect(not any(m.is_rapid and m.moves_xy for m in below), "rapid-in-pocket", "rapid sideways below the stock top"):
        return
    # --- each area reaches its own depth everywhere
    full = 0
    for i in range(n):
        F = region(i, -tol / 2)
        if F.is_empty or F.area < 1e-3:
            o.count("too_small")
            continue
        # the other areas' islands are kept, except around areas inside of them
        keep = [h.buffer(io + tol, quad_segs=64) for j in range(n) if j != i and j not in nested[i] for h in inners[j]]
        G = geo.grid(F, 1500)
        G = G[geo.inside(F, G)]
        B = geo.boundary_points(F, 500)
        others = unary_union([region(j, 2 * tol + 0.01) for j in range(n) if j != i and areas[j]["depth"] >= areas[i]["depth"]] or [F.buffer(-1e9)])
        if not others.is_empty:
            B = B[~geo.inside(others, B)]
        if keep:
            K = unary_union(keep)
            G, B = G[~geo.inside(K, G)], B[~geo.inside(K.buffer(2 * tol), B)]
        at = geo.path_segs([m for m in flat if abs(m.end[2] + areas[i]["depth"]) <= zeps])
        floor = geo.path_segs([m for m in flat if m.end[2] <= -areas[i]["depth"] + zeps])
        o.count("floor_points", len(G))
        o.count("wall_points", len(B))
        full += len(G) + len(B) > 50
        if len(G):
            d = floor.dist(G)
            k = int(d.argmax())
            o.expect(d[k] <= step + tol, "floor", lambda: f"area {i} (depth {areas[i]['depth']}): {G[k].round(3)} is {d[k]:.4f} away from the path at that depth, stepover {step:.4f} ({(d > step + tol).sum()} of {len(G)})")
        if len(B):
            d = at.dist(B)
            k = int(d.argmax())
            o.expect(d[k] <= 2 * tol, "wall", lambda: f"area {i} (depth {areas[i]['depth']}): the path does not follow its border at {B[k].round(3)}, {d[k]:.4f} away ({(d > 2 * tol).sum()} of {len(B)})")
    o.nontrivial = full >= 2
    # --- from the top down, no more than a stepdown at once
    sd = kw.get("stepdown")
    reach = step + 2 * tol
    seen = {}
    for l in C.layers(t):
        ms = [m for m in C.xy_moves(l)]
        if not ms:
            continue
        zs = {m.end[2] for m in ms}
        o.expect(max(zs) - min(zs) <= zeps, "not-flat", lambda: f"one pass cuts at depths {sorted(zs)}")
        z = min(zs)
        pts = C.path_points(ms, R / 2)
        if sd and z < -sd - 0.0015:
            prev = [s for z2, ss in seen.items() if z < z2 <= z + sd + 0.0015 for s in ss]
            d = np.min([s.dist(pts) for s in prev], axis=0) if prev else np.full(len(pts), np.inf)
            # cut deeper before
            done = [s for z2, ss in seen.items() if z2 <= z + 1e-6 for s in ss]
            if done:
                d = np.minimum(d, np.min([s.dist(pts) for s in done], axis=0))
            k = int(d.argmax())
            o.count("stepped_points", len(pts))
            o.expect(d[k] <= reach, "engagement", lambda: f"the pass at {z} reaches {pts[k].round(3)}, not cut within {sd} above before (nearest {d[k]:.3f})")
        for i in range(n):
            di = areas[i]["depth"]
            if z < -di - zeps:  # areas lying on top of it are cleared first
                if any(i in q for q in nested):
                    continue
                first, kind, what = -di, "order", f"before area {i} (depth {di}) was cleared there"
            else:  # and what is above a deeper area is cleared at each of the depths of the request
                up = [areas[j]["depth"] for j in range(n) if len(nested[j]) == len(nested[i]) and areas[j]["depth"] < -z - zeps]
                if sd or not up or min(abs(z + areas[j]["depth"]) for j in range(n) if len(nested[j]) == len(nested[i])) > zeps:
                    continue
                first, kind, what = -max(up), "level", f"in area {i} before the depth of {max(up)} was cleared there"
            F = region(i, -2 * tol)
            m = geo.inside(F, pts) if not F.is_empty else np.zeros(len(pts), bool)
            for j in range(n):
                if j != i and j not in nested[i] and inners[j]:
                    m &= ~geo.inside(unary_union([h.buffer(io + 2 * tol) for h in inners[j]]), pts)
            if not m.any():
                continue
            prev = [s for z2, ss in seen.items() if z2 <= first + zeps for s in ss]
            d = np.min([s.dist(pts[m]) for s in prev], axis=0) if prev else np.full(int(m.sum()), np.inf)
            k = int(d.argmax())
            o.count("ordered_points" if kind == "order" else "level_points", int(m.sum()))
            o.expect(d[k] <= reach, kind, lambda: f"the pass at {z} reaches {pts[m][k].round(3)} {what} (nearest {d[k]:.3f})")
        seen.setdefault(z, []).append(geo.path_segs(ms))
