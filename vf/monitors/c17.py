"""C17: 3D surfacing never cuts into the model and covers the requested area."""
import math

import numpy as np
import shapely

from .. import common as C
from .. import geo, shapes as S
from ..kernelwatch import CombineWatch, KernelWatch
from ..result import Obs, Rejected

PID = "C17"
QUICK, THOROUGH = 50, 1200
CASE_LIMIT = 180
RULE = ("random models (blocks with pockets, bosses, domes, ball cuts and slopes) in random job planes, surfaced with flat and ball tools; every executed position is compared with the lowest allowed one, computed from the exact height function of the model; "
        "non-trivial: at least 100 positions were judged, some of them in contact with the model below its top")
REQUIRED = {"vertices": 8000, "positions": 20000, "contacts": 4000, "covered_points": 2000, "scanline_gaps": 400, "ball": 25, "flat": 25, "stepdown_cases": 15, "tilted": 15, "floors": 2, "offset_pairs": 4, "curved_outlines": 8}
ASSUMPTIONS = ["the third party library opencamlib is not installed: its drop cutter is replaced by vf/standin/opencamlib.py, which implements the same interface exactly for flat and ball end mills; everything of cq-cam runs for real",
               "between two computed positions (interpolation_step apart) the tool may dip by what a tool of that much smaller radius would allow", "meshing tolerance 0.02", "models are nowhere above the job plane"]


# ---------------------------------------------------------------- model
def gen(rng, i, tier):
    w, d = S.rnd(rng.uniform(12, 22), 2), S.rnd(rng.uniform(12, 22), 2)
    hh = S.rnd(rng.uniform(6, 10), 2)
    feats = []
    if rng.random() < 0.35:  # slope
        feats.append(["slope", S.rnd(rng.uniform(-0.25, 0.25)), S.rnd(rng.uniform(-0.25, 0.25)), S.rnd(-rng.uniform(0.5, 2.5))])
    if rng.random() < 0.75:
        a = rng.uniform(0, 3)
        if rng.random() < 0.6:
            feats.append(["pocket", S.rect(S.rnd(rng.uniform(-2, 2)), S.rnd(rng.uniform(-2, 2)), S.rnd(w * rng.uniform(0.35, 0.6)), S.rnd(d * rng.uniform(0.35, 0.6)), rng.choice([0, 0, a])), S.rnd(rng.uniform(1, 5), 2)])
        else:
            feats.append(["pocket", S.circle(S.rnd(rng.uniform(-1, 1)), S.rnd(rng.uniform(-1, 1)), S.rnd(min(w, d) * rng.uniform(0.2, 0.4))), S.rnd(rng.uniform(1, 5), 2)])
        if rng.random() < 0.5:
            feats.append(["boss", S.circle(0.5, 0.3, S.rnd(rng.uniform(0.6, 1.8))) if rng.random() < 0.5 else S.rect(0, 0.2, 2, 1.5, a), S.rnd(rng.uniform(-2.5, 0), 2)])
    if rng.random() < 0.35:
        feats.append(["bowl", S.rnd(rng.uniform(-0.25, 0.25) * w), S.rnd(rng.uniform(-0.25, 0.25) * d), S.rnd(rng.uniform(1.5, 3.5), 2)])
    if rng.random() < 0.3:
        r = S.rnd(rng.uniform(1, 2.2), 2)
        feats.append(["dome", S.rnd(rng.uniform(-0.2, 0.2) * w), S.rnd(rng.uniform(-0.2, 0.2) * d), r, S.rnd(-r - rng.uniform(0, 1.5), 2)])
    dia = rng.choice([1.5, 2, 3, 3.175])
    stepover = rng.choice([0.8, 0.6, 0.4, 0.25, 1.0])
    case = {"frame": S.gen_frame(rng, plain=rng.random() < 0.35), "job": {"feed": rng.choice([200, 350.5]), "precision": rng.choice([2, 3])}, "block": [w, d, hh], "feats": feats,
            "turn": rng.choice([0, 0, S.rnd(rng.uniform(0, 6.28))]), "tool": [rng.choice(["Cyl", "Ball"]), dia],
            "kw": {"outer_boundary_offset": rng.choice([0, 0, -0.5, -1, 0.5, -0.25]), "interpolation_step": rng.choice([0.3, 0.5, 0.5, 1.0]), "stepover": stepover},
            "faces": rng.choice(["all", "all", "workplane"])}
    if rng.random() < 0.35:
        case["outline"] = rng.choice([["circle"], ["round", S.rnd(rng.uniform(0.5, 4), 2)], ["round", S.rnd(rng.uniform(0.02, 0.3), 3)]])
    if rng.random() < 0.2:
        # only the floor of a pocket
        case["feats"] = [f for f in feats if f[0] in ("slope", "pocket")]
        if case["feats"] and case["feats"][-1][0] == "pocket":
            case["faces"] = rng.choice(["floor", "floor", "wire", "wp"])
            case["kw"]["outer_boundary_offset"] = rng.choice([-0.5, -0.5, -0.75, -1])
    if rng.random() < 0.4:
        case["kw"]["stepdown"] = rng.choice([1, 2, 1.7, -1.3])
        if case["feats"] and case["feats"][-1][0] == "pocket" and rng.random() < 0.4:
            # only little is left for the last level
            case["kw"]["stepdown"] = S.rnd((case["feats"][-1][2] - rng.choice([0.01, 0.03, 0.08])) / rng.choice([1, 2, 3]), 4)
    if rng.random() < 0.25:
        # relative and absolute part
        k = rng.choice([-0.25, -0.5, -0.75])
        case["kw"]["outer_boundary_offset"] = [k, S.rnd(-(0.5 + k) * dia if case["faces"] in ("floor", "wire", "wp") and k > -0.5 else rng.choice([-0.3, -0.6, 0.25 * dia if case["faces"] not in ("floor", "wire", "wp") else 0]))]
    if rng.random() < 0.4:
        case["job"]["rapid_height"], case["job"]["op_safe_height"] = rng.choice([(5, 2), (12.5, 0.5), (3, 3)])
    return case


def directed():
    base = {"frame": C.PLAIN, "job": {"feed": 200, "precision": 3}, "block": [20, 20, 8], "turn": 0, "faces": "all", "tool": ["Cyl", 3], "kw": {"outer_boundary_offset": 0, "interpolation_step": 0.5, "stepover": 0.8}}
    out = []
    for feats in ([], [["pocket", S.rect(0, 0, 10, 10), 4]], [["slope", 0.2, 0, -2]], [["pocket", S.rect(0, 0, 12, 12), 4], ["boss", S.circle(0, 0, 2), -1]], [["bowl", 0, 0, 4]], [["pocket", S.circle(0, 0, 7), 5], ["dome", 0, 0, 2, -4]]):
        for tool in (["Cyl", 3], ["Ball", 2]):
            for more in ({}, {"kw": dict(base["kw"], stepdown=1.5, outer_boundary_offset=-0.5)}, {"frame": {"origin": [3, -7, 11], "x": [0.36, 0.48, -0.8], "n": [0.8, -0.6, 0]}, "turn": 0.4}):
                out.append(dict(base, feats=feats, tool=tool, **more))
    # floors narrower than the stepover
    for k, y in enumerate((0, 0.7, 1.4, -2.1)):
        out.append(dict(base, feats=[["pocket", S.rect(0, y, 10, 3.4 + 0.2 * k), 3]], tool=["Cyl", 3], faces="floor", kw=dict(base["kw"], outer_boundary_offset=-0.5)))
    # only little is left for the last level
    for q, n in ((0.004, 1), (0.03, 2), (0.09, 3), (0.09, 1)):
        out.append(dict(base, feats=[["pocket", S.rect(0, 0, 10, 9), 3.7]], tool=["Cyl", 3], faces="floor", kw=dict(base["kw"], outer_boundary_offset=-0.5, stepdown=S.rnd((3.7 - q) / n, 4))))
    out.append(KERNEL)
    return out


# the CAD kernel doesn't offset the outline of this model
KERNEL = {"frame": {"origin": [-18.8517, -17.2765, -1.6295], "x": [0.15886845624628387, 0.25902287300748594, -0.15003385528947116], "n": [0.6480348240681433, 0.08056116325835422, 0.8252769070997236]}, "job": {"feed": 200, "precision": 3, "rapid_height": 3, "op_safe_height": 3}, "block": [18.27, 12.01, 7.41], "feats": [["pocket", {"kind": "segs", "start": [-4.723418127166426, -4.606473012839524], "segs": [["L", [4.050876867202578, -1.6855651673587664]], ["L", [2.116818127166426, 4.124273012839524]], ["L", [-6.657476867202578, 1.2033651673587662]], ["L", [-4.723418127166426, -4.606473012839524]]]}, 4.45], ["boss", {"kind": "segs", "start": [-0.7119190836919922, -0.8274586211985153], "segs": [["L", [1.1856976197843325, -0.19575390640872814]], ["L", [0.7119190836919922, 1.2274586211985155]], ["L", [-1.1856976197843325, 0.5957539064087283]], ["L", [-0.7119190836919922, -0.8274586211985153]]]}, -1.02], ["bowl", 4.1967, 0.9015, 2.02], ["dome", 3.1458, 1.056, 1.01, -1.62]], "turn": 0, "tool": ["Ball", 3], "kw": {"outer_boundary_offset": -1, "interpolation_step": 0.3, "stepover": 0.6}, "faces": "all", "outline": ["circle"]}


def outline(case):
    w, d, hh = case["block"]
    o = case.get("outline")
    if not o:
        return shapely.box(-w / 2, -d / 2, w / 2, d / 2)
    if o[0] == "circle":
        return shapely.Point(0, 0).buffer(min(w, d) / 2, quad_segs=64)
    return shapely.box(-w / 2, -d / 2, w / 2, d / 2).buffer(-o[1], join_style="mitre").buffer(o[1], quad_segs=64)


def over(case, x, y):
    w, d, hh = case["block"]
    o = case.get("outline")
    if o and o[0] == "circle":
        return np.hypot(x, y) <= min(w, d) / 2
    m = (np.abs(x) <= w / 2) & (np.abs(y) <= d / 2)
    if o:
        m &= np.hypot(np.maximum(np.abs(x) - w / 2 + o[1], 0), np.maximum(np.abs(y) - d / 2 + o[1], 0)) <= o[1]
    return m


def height(case, x, y):
    """height of the model over (x, y) in model coordinates; -inf next to it"""
    w, d, hh = case["block"]
    h = np.where(over(case, x, y), 0.0, -np.inf)
    inside = np.isfinite(h)
    for f in case["feats"]:
        k = f[0]
        if k == "slope":
            h = np.where(inside, np.minimum(h, f[1] * x + f[2] * y + f[3]), h)
        elif k in ("pocket", "boss"):
            P = f[1]
            m = (np.hypot(x - P["c"][0], y - P["c"][1]) <= P["r"]) if P["kind"] == "circle" else shapely.contains_xy(S.polygon(P), x, y)
            m &= inside
            h = np.where(m, np.minimum(h, -f[2]) if k == "pocket" else np.maximum(h, f[2]), h)
        elif k == "bowl":
            q = (x - f[1]) ** 2 + (y - f[2]) ** 2
            h = np.where(inside & (q <= f[3] ** 2), np.minimum(h, -np.sqrt(np.maximum(f[3] ** 2 - q, 0))), h)
        elif k == "dome":
            q = (x - f[1]) ** 2 + (y - f[2]) ** 2
            h = np.where(inside & (q <= f[3] ** 2), np.maximum(h, f[4] + np.sqrt(np.maximum(f[3] ** 2 - q, 0))), h)
    return h


def build(case):
    import cadquery as cq

    w, d, hh = case["block"]
    ol = case.get("outline")
    b = S.prism({"outer": S.circle(0, 0, min(w, d) / 2) if ol and ol[0] == "circle" else S.rect(0, 0, w, d)}, -hh, 0)
    if ol and ol[0] == "round":
        b = b.fillet(ol[1], [e for e in b.Edges() if abs(e.startPoint().z - e.endPoint().z) > 1])
    for f in case["feats"]:
        k = f[0]
        if k == "slope":
            big = cq.Solid.makeBox(200, 200, 60, cq.Vector(-100, -100, 0))
            n = cq.Vector(-f[1], -f[2], 1)
            big = big.transformShape(cq.Plane(origin=(0, 0, f[3]), xDir=(1, 0, f[1]), normal=n.toTuple()).rG)
            b = b.cut(big)
        elif k == "pocket":
            b = b.cut(S.prism({"outer": f[1]}, -f[2], 5))
        elif k == "boss":
            b = b.fuse(S.prism({"outer": f[1]}, -hh, f[2]))
        elif k == "bowl":
            b = b.cut(cq.Solid.makeSphere(f[3], cq.Vector(f[1], f[2], 0), cq.Vector(0, 0, 1), -90, 90, 360))
        elif k == "dome":
            b = b.fuse(cq.Solid.makeSphere(f[3], cq.Vector(f[1], f[2], f[4]), cq.Vector(0, 0, 1), -90, 90, 360).fuse(S.prism({"outer": S.circle(f[1], f[2], f[3])}, -hh, f[4])))
    return b.clean()


def disc(R, ball, n=16):
    """points of a disc; for a ball evenly spaced along its profile, which is steep at the rim"""
    rr = R * (np.sin(np.linspace(0, math.pi / 2, n + 9)) if ball else np.linspace(0, 1, n + 1))
    aa = np.linspace(0, 2 * math.pi, 60, endpoint=False)
    r, a = np.meshgrid(rr, aa)
    return np.c_[(r * np.cos(a)).ravel(), (r * np.sin(a)).ravel()], r.ravel()


def lowest(case, pts, R, ball, slack=0.0):
    """lowest position of the tool over the points: sampled, so never too high"""
    reach = R - slack
    if reach <= 0.02:
        return np.full(len(pts), -np.inf)
    D, r = disc(reach, ball)
    prof = np.sqrt(np.maximum(R * R - np.minimum(r + slack, R) ** 2, 0)) - R if ball else np.zeros(len(r))
    out = np.empty(len(pts))
    for k in range(0, len(pts), 400):
        q = pts[k:k + 400]
        X, Y = q[:, None, 0] + D[None, :, 0], q[:, None, 1] + D[None, :, 1]
        h = height(case, X.ravel(), Y.ravel()).reshape(X.shape)
        out[k:k + 400] = (h + prof).max(1)
    return np.maximum(out, -case["block"][2])


def run(case, o):
    """outlines the CAD kernel itself gets wrong (union of the projected faces, offset) are told apart"""
    judge(case, o)
    miss = [m for k, m in o.violations if k in ("not-cut", "uncovered", "stepover", "outside")]
    if miss and any(f[0] in ("slope", "bowl", "dome") for f in case["feats"]):
        with CombineWatch() as a, KernelWatch() as b:
            try:
                judge(case, Obs())
            except Exception:
                pass
        for w in (a, b):
            if w.wrong:
                o.violations[:] = [v for v in o.violations if v[0] not in ("not-cut", "uncovered", "stepover", "outside")]
                o.bad("kernel-projection", f"{next(iter(w.wrong.values()))} is wrong; {miss[0]}")
                return


def judge(case, o):
    import cadquery as cq

    from ..ocl import opencamlib as ocl

    w, d, hh = case["block"]
    kind, dia = case["tool"]
    R, ball = dia / 2, case["tool"][0] == "Ball"
    kw = dict(case["kw"])
    model = build(case)
    g = np.random.default_rng(5)
    probe = np.c_[g.uniform(-w / 2, w / 2, 300), g.uniform(-d / 2, d / 2, 300)]
    if height(case, probe[:, 0], probe[:, 1]).max() > 1e-6 or not model.isValid() or len(model.Solids()) != 1:
        raise Rejected("not a model")
    # the CAD kernel built what the height function says
    ht = height(case, probe[:, 0], probe[:, 1])
    ref = model.Volume()
    gx, gy = np.meshgrid((np.arange(400) + 0.5) / 400 * w - w / 2, (np.arange(400) + 0.5) / 400 * d - d / 2)
    gh = height(case, gx.ravel(), gy.ravel()) + hh
    mean = np.where(np.isfinite(gh), gh, 0).mean() * w * d
    if abs(mean - ref) > 0.01 * ref or ht[np.isfinite(ht)].min() < -hh + 0.3:
        raise Rejected("not the model of the height function")
    t = case["turn"]
    pl = S.plane(case["frame"])
    shape = model.rotate(cq.Vector(0, 0, 0), cq.Vector(0, 0, 1), math.degrees(t)) if t else model
    shape = S.place(shape, pl)
    fs = shape.Faces()
    area = outline(case)
    bottom = -hh
    if case["faces"] in ("floor", "wire", "wp"):
        P, bottom = case["feats"][-1][1], -case["feats"][-1][2]
        area = S.polygon(P)
        fs = [f for f in fs if abs(f.Center().sub(pl.origin).dot(pl.zDir) - bottom) < 1e-6 and f.normalAt().dot(pl.zDir) > 0.999]
        hs = height(case, *np.array(area.buffer(0.1).exterior.coords).T)
        if len(fs) != 1 or abs(fs[0].Area() - area.area) > 0.01 * area.area or hs.min() < bottom + 0.05:
            raise Rejected("no floor")
        o.count("floors")
    arg = {"workplane": lambda: cq.Workplane().newObject([shape]).faces(), "wire": lambda: fs[0].outerWire(), "wp": lambda: cq.Workplane().add(fs)}.get(case["faces"], lambda: fs)()
    if isinstance(kw["outer_boundary_offset"], list):
        kw["outer_boundary_offset"] = tuple(kw["outer_boundary_offset"])
    tool = (ocl.BallCutter if ball else ocl.CylCutter)(dia, 20)
    curved = any(f[0] in ("bowl", "dome") for f in case["feats"])
    try:
        job = C.job(case["job"], case["frame"]).surface3d(o=arg, tool=tool, **kw)
    except ValueError as e:
        if "UNKNOWN TYPE" in str(e):
            raise Rejected("outline with free form edges is refused")
        if "is not closed" in str(e) and curved:
            o.bad("kernel-projection", f"projection of a curved face: {e}")
            return
        raise
    except Exception as e:
        if type(e).__name__ == "Standard_Failure" and curved:
            o.bad("kernel-projection", f"projection of a curved face: {e}")
            return
        raise
    text, tr = C.op_trace(job)
    o.gcode = text
    if not C.check_readable(o, tr, text):
        return
    cos, sin = math.cos(t), math.sin(t)
    local = lambda p: np.c_[p[:, 0] * cos + p[:, 1] * sin, -p[:, 0] * sin + p[:, 1] * cos]
    cuts = [m for m in tr.moves if not m.is_rapid]
    o.count("tilted", abs(pl.zDir.z) < 0.999)
    o.count("ball" if ball else "flat")
    sd = abs(kw.get("stepdown") or 0) or None
    o.count("stepdown_cases", sd is not None)
    oo = kw["outer_boundary_offset"]
    o.count("offset_pairs", isinstance(oo, tuple))
    oo = oo[0] * dia + oo[1] if isinstance(oo, tuple) else oo * dia
    area = area.buffer(oo, quad_segs=32)
    o.count("curved_outlines", bool(case.get("outline")))
    if not o.expect(cuts or area.is_empty or height(case, probe[:, 0], probe[:, 1]).min() > -1e-6, "not-cut", "nothing is cut"):
        return
    if not cuts:
        return
    for m in cuts:
        o.count("no_feed_words", m.feed is None)
    if any(m.feed is None for m in cuts):
        o.bad("no-feed", "cuts of the operation carry no feed at all")
    V = np.array([[*m.end] for m in cuts], float)
    VL = local(V)
    o.count("vertices", len(V))
    # --- stays in the area
    inside = geo.inside(area.buffer(0.02), VL)
    o.expect(inside.all(), "outside", lambda: f"tool centre at {VL[np.argmin(inside)].round(3)} is outside of the requested area")
    # --- rapids are above the model
    for m in tr.moves:
        if m.is_rapid and m.moves_xy:
            o.count("rapids")
            if not o.expect(m.end[2] is not None and m.end[2] > 0, "rapid", lambda: f"rapid at the height of the model: {m.text!r}"):
                break
    # --- never below the lowest contact-free position
    low = lowest(case, VL, R - 0.02, ball)
    bad = low - V[:, 2]
    k = int(bad.argmax())
    o.expect(bad[k] <= 0.025, "gouge", lambda: f"tool at {VL[k].round(3)} z {V[k, 2]:.3f} cuts into the model: must be at {low[k]:.3f} at least ({(bad > 0.025).sum()} of {len(V)})")
    o.expect(V[:, 2].min() >= bottom - 0.002, "too-deep", lambda: f"deeper than the model: {V[:, 2].min()}")
    # --- nor in between
    s = kw["interpolation_step"]
    seg, za = [], []
    for m in cuts:
        a = [e if b is None else b for b, e in zip(m.start, m.end)]
        n = max(2, int(math.ceil(math.dist(a, m.end) / 0.15)) + 1)
        for u in np.linspace(0, 1, n)[:-1]:
            seg.append([a[q] + (m.end[q] - a[q]) * u for q in range(3)])
    P = np.array(seg)
    P = P[g.permutation(len(P))[:1000]]
    PL = local(P)
    o.count("positions", len(P))
    low2 = lowest(case, PL, R - 0.02, ball, slack=s)
    bad = low2 - P[:, 2]
    k = int(bad.argmax())
    o.expect(bad[k] <= 0.025, "gouge-between", lambda: f"between two positions the tool is at {PL[k].round(3)} z {P[k, 2]:.3f}, {bad[k]:.3f} too low even for a tool {s} smaller in radius")
    # --- in contact where the last pass is, and everywhere
    hi = lowest(case, VL, R + 0.06, ball)
    # the sampled contact on steep curved walls is only approximate
    curvy = any(f[0] in ("bowl", "dome") for f in case["feats"])
    touch = V[:, 2] <= hi + (0.27 if curvy else 0.12)
    exact = V[:, 2] <= hi + (0.27 if curvy else 0.003 if all(f[0] in ("pocket", "boss") for f in case["feats"]) and not ball else 0.02)
    o.count("contacts", int((touch & (V[:, 2] < -0.05)).sum()))
    G = geo.grid(area, 250)
    G = G[geo.inside(area.buffer(-0.05), G)] if len(G) else G
    if len(G):
        # the top of the stock isn't machined: no scanline next to the point may run there
        ok = np.ones(len(G), bool)
        for q in np.linspace(-1, 1, 9):
            n = G + q * dia * kw["stepover"] * np.array([sin, cos])
            ok &= (lowest(case, n, R, ball) < -0.06) | ~geo.inside(area, n)
        G = G[ok]
    if len(G):
        T = VL[exact]
        # a point of the area that the tool can be lowered to is next to a position in contact
        reach = dia * kw["stepover"] + s + 0.1
        dist = np.full(len(G), np.inf)
        for q in range(0, len(T), 500):
            dist = np.minimum(dist, np.sqrt(((G[:, None, :] - T[None, q:q + 500, :]) ** 2).sum(2)).min(1))
        k = int(dist.argmax())
        o.count("covered_points", len(G))
        o.expect(dist[k] <= reach, "uncovered", lambda: f"{G[k].round(3)} is {dist[k]:.3f} away from the next position in contact with the model, expected {reach:.3f} at most ({(dist > reach).sum()} of {len(G)})")
        T = VL[touch]
        # and the scanlines in contact are one stepover apart
        full = np.ones(len(G), bool)
        for q in np.linspace(-1.1, 1.1, 7):
            for a in (-2 * s - 0.3, 0, 2 * s + 0.3):
                full &= geo.inside(area, G + q * dia * kw["stepover"] * np.array([sin, cos]) + a * np.array([cos, -sin]))
        G = G[full]
        if len(G) and len(T):
            gap = np.full(len(G), np.inf)
            for q in range(0, len(T), 500):
                D = G[:, None, :] - T[None, q:q + 500, :]
                al, pe = np.abs(D @ np.array([cos, -sin])), np.abs(D @ np.array([sin, cos]))
                gap = np.minimum(gap, np.where(al <= 2 * s + 0.1, pe, np.inf).min(1))
            k = int(gap.argmax())
            o.count("scanline_gaps", len(G))
            o.expect(gap[k] <= 0.5 * dia * kw["stepover"] + 0.05, "stepover", lambda: f"{G[k].round(3)} is {gap[k]:.3f} away from the next scanline in contact with the model, expected {0.5 * dia * kw['stepover']:.3f} at most ({(gap > 0.5 * dia * kw['stepover'] + 0.05).sum()} of {len(G)})")
    # --- step by step
    if sd:
        deep = {}
        for (x, y, z) in V:
            key = (round(x, 3), round(y, 3))
            prev = deep.get(key)
            if z < -sd - 0.002:
                o.count("stepped_points")
                if not o.expect(prev is not None and z >= prev - sd - 0.002, "engagement", lambda: f"{(x, y)} is cut at {z:.3f}, before only down to {prev}, stepdown {sd}"):
                    break
            deep[key] = min(z, prev) if prev is not None else z
    o.nontrivial = len(V) >= 100 and bool((touch & (V[:, 2] < -0.05)).any())
