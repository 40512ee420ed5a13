"""C21: the CadQuery based pocket engine clears the same pockets, without leaving them."""
import random

import numpy as np
from shapely.ops import unary_union

from .. import common as C
from .. import geo, pocketlib as L, shapes as S
from ..result import Rejected
from ..kernelwatch import KernelWatch
from . import c22

PID = "C21"
QUICK, THOROUGH = 150, 2000
RULE = ("random pocket areas with islands and avoid areas in random job planes, planned by cq_cam.operations.pocket.pocket(engine='cq'); the executed moves are checked against the exact offset region: confinement below the stock top, coverage of floor and walls; a fifth of the requests have several areas of different depths, judged as in C22; "
        "non-trivial: at least 100 floor and wall points were compared with the path at the floor")
CRASHES = {"offset2D": "kernel-offset"}  # killed inside of the CAD kernel's offset
REQUIRED = {"positions": 50000, "floor_points": 40000, "wall_points": 40000, "cases_with_islands": 40, "cases_with_avoid": 12, "tilted": 12, "areas": 60, "multi_depth": 12}
ASSUMPTIONS = ["the engine is reached through cq_cam.operations.pocket.pocket; it has no stepdown", "stepover does not exceed the tool radius", "free form outlines are left out: this engine combines their kernel offsets with boolean operations, where the CAD kernel returns tangled edges", "tolerance 0.01 (kernel offsets)"]


def gen(rng, i, tier):
    if i % 5 == 4:
        c = c22.gen(rng, i, tier)
        if c is None or c["job"].get("unit") == "IMPERIAL":
            return None
        c["kw"].pop("stepdown", None)
        return c
    c = L.gen(rng, tier)
    if c is None:
        return None
    c["kw"].pop("stepdown", None)
    if any(q["kind"] == "spline" for q in [c["region"]["outer"]] + c["region"]["inners"] + [a["outer"] for a in c.get("avoid") or []]):
        return None  # see ASSUMPTIONS
    if c["job"].get("unit") == "IMPERIAL":
        return None
    return c


def rib_case(seed):
    """thin islands close to each other and the walls: passes end where the next one is on the other side of an island"""
    rng = random.Random(seed)
    outer = rng.choice([S.rect(0, 0, 16, 16), S.circle(0, 0, 9), S.rect(0, 0, 24, 12)])
    inners = L.gen_ribs(rng, S.polygon(outer), 2)
    return {"frame": C.PLAIN, "job": {"feed": 200, "tool_diameter": 2, "precision": 2}, "depth": 2, "entry": "face", "kw": {"stepover": rng.choice([1, 1, 0.8, 0.5])}, "region": {"outer": outer, "inners": inners}}


def directed():
    from . import c02

    out = [dict(c, kw={k: v for k, v in c["kw"].items() if k != "stepdown"}) for c in c02.directed()]
    base = {"frame": {"origin": [3, -7, 11], "x": [0.36, 0.48, -0.8], "n": [0.8, -0.6, 0]}, "job": {"feed": 200, "tool_diameter": 2, "precision": 2}, "depth": 3, "entry": "face", "kw": {}}
    for up in (0, 1.5, 3):
        out.append(dict(base, region={"outer": S.rect(0, 0, 24, 24), "inners": [S.rect(-5, 0, 3, 3)]}, avoid=[{"outer": S.rect(4, 3, 6, 6, 0.3), "up": up}]))
    out += [dict(c, kw={k: v for k, v in c["kw"].items() if k != "stepdown"}) for c in c22.directed()]
    out += [rib_case(seed) for seed in (66, 85, 1025, 1162, 1258, 1295, 4068, 4152, 2328)]
    R = lambda s, d, *inner: {"outer": S.rect(0, 0, s, s), "inners": [S.rect(0, 0, q, q) for q in inner], "depth": d}
    row = [{"outer": S.rect(12 * k, 0, 12, 16), "inners": [], "depth": d} for k, d in enumerate([2, 5, 3, 1])]
    for areas in ([R(36, 1), R(24, 2), R(12, 4)], [R(36, 3), R(24, 2), R(12, 1)], [R(60, 2, 40), R(40, 3, 20), R(20, 1)], row, row[::-1]):
        out.append({"frame": C.PLAIN, "job": base["job"], "kw": {"outer_offset": 0} if areas[0] in (row[0], row[-1]) else {}, "entry": "list", "arr": "levels", "areas": areas})
    return out


def run(case, o):
    """violations of requests where the CAD kernel itself returns a wrong offset are told apart"""
    from ..result import Obs

    failed = None
    try:
        judge(case, o)
    except Rejected:
        raise
    except Exception as e:
        failed = e
    if o.violations or failed:
        with KernelWatch() as w:
            try:
                judge(case, Obs())
            except Exception:
                pass
        if w.wrong:
            why = o.violations[0][1] if o.violations else repr(failed)
            o.violations[:] = [("kernel-offset", f"{next(iter(w.wrong.values()))} is wrong; {why}")]
        elif failed:
            raise failed


def plan(case, faces, kw):
    from cq_cam.operations.pocket import pocket

    from .. import gcode

    job = C.job(case["job"], case["frame"])
    commands = pocket(job, faces if isinstance(faces, list) else faces.objects, engine="cq", **kw)
    text = "\n".join(s for s in map(str, commands) if s)
    return text, gcode.run(text, dict(distance="90"))


def judge(case, o):
    if "areas" in case:
        return c22.judge(case, o, plan, 0.012)
    ref = L.Reference(case)
    if ref.step > ref.R + 1e-9:
        raise Rejected("stepover beyond the radius")
    tol = 0.01
    ref.tol = tol
    A = ref.allowed(0)
    # nearly tangent offsets: the region has parts too thin to be decided
    if abs(ref.allowed(tol).buffer(tol).area - A.area) > 0.02 * A.area + 0.02:
        raise Rejected("nearly tangent offsets")
    pl = S.plane(case["frame"])
    face = L.make_face(case, case["region"], -case["depth"], pl)
    kw = {k: tuple(v) if isinstance(v, list) else v for k, v in case["kw"].items()}
    if case.get("avoid"):
        kw["avoid_areas"] = [S.place(S.face({"outer": a["outer"]}, -case["depth"] + a["up"]), pl) for a in case["avoid"]]
    text, t = plan(case, [face], kw)
    o.gcode = text
    if not C.check_readable(o, t, text):
        return
    o.count("tilted", abs(pl.zDir.z) < 0.999)
    o.count("cases_with_islands", bool(ref.inners))
    o.count("cases_with_avoid", bool(ref.avoids))
    z = -case["depth"]
    below = [m for m in t.moves if m.end[2] is not None and (m.end[2] < 0 or (m.start[2] is not None and m.start[2] < 0)) and None not in m.end[:2]]
    if below:
        pts = C.path_points(below, ref.R / 8)
        s, which = ref.slack(pts)
        k = int(s.argmin())
        o.count("positions", len(pts))
        o.expect(s[k] >= -tol, ["gouge-wall", "gouge-island", "gouge-avoid"][which[k]], lambda: f"tool centre at {pts[k].round(3)} is {-s[k]:.4f} outside of the allowed region ({(s < -tol).sum()} of {len(pts)} samples)")
        o.expect(min(m.end[2] for m in below) >= z - 0.0011, "too-deep", f"deeper than {z}")
        o.expect(not any(m.is_rapid and m.moves_xy for m in below), "rapid-in-pocket", "rapid sideways below the stock top")
    F = ref.allowed(tol)
    if F.is_empty or F.area < 0.01:
        o.count("unreachable_pockets")
        return
    cuts = [m for m in C.xy_moves(C.cutting(t)) if abs(m.end[2] - z) <= 0.0011 and abs((m.start[2] if m.start[2] is not None else m.end[2]) - z) <= 0.0011]
    if not o.expect(cuts, "not-cut", f"nothing is cut at the floor, reachable area {F.area:.3f}"):
        return
    path = geo.path_segs(cuts)
    G = geo.grid(ref.outer, 3000)
    G = G[geo.inside(F, G)]
    B = geo.boundary_points(F, 1200)
    o.count("floor_points", len(G))
    o.count("wall_points", len(B))
    o.nontrivial = len(G) + len(B) > 100
    if len(G):
        d = path.dist(G)
        k = int(d.argmax())
        o.expect(d[k] <= ref.step + tol, "stepover", lambda: f"{G[k].round(3)} is {d[k]:.4f} away from the path, stepover {ref.step:.4f} ({(d > ref.step + tol).sum()} of {len(G)} points)")
    d = path.dist(B)
    k = int(d.argmax())
    o.expect(d[k] <= 2.5 * tol, "wall", lambda: f"the path does not follow the border of the reachable area: {d[k]:.4f} away at {B[k].round(3)} ({(d > 2.5 * tol).sum()} of {len(B)})")
