"""C03: a pocket is cleared completely down to its floor."""
import numpy as np

from .. import common as C
from .. import geo, pocketlib as L, shapes as S
from ..result import Rejected
from . import c02

PID = "C03"
QUICK, THOROUGH = 260, 5000
RULE = ("as C02, stepover up to the tool radius; non-trivial: at least 100 sampled points of the reachable floor / its border were compared with the path at floor depth")
REQUIRED = {"floor_points": 20000, "wall_points": 10000, "cases_with_islands": 20}
ASSUMPTIONS = ["stepover does not exceed the tool radius", "tolerance 0.003 + 2*10^-precision",
               "reachable region: the outline and islands offset exactly (round joins)"]


def gen(rng, i, tier):
    return L.gen(rng, tier)


def directed():
    out = c02.directed()
    base = {"frame": C.PLAIN, "job": {"feed": 200, "tool_diameter": 2, "precision": 2}, "depth": 3, "entry": "face", "kw": {}}
    # the offset of a C shaped island closes its mouth
    c_isl = S.seg_poly([(-6, -6), (6, -6), (6, 6), (1, 6), (1, 4.5), (4.5, 4.5), (4.5, -4.5), (-4.5, -4.5), (-4.5, 4.5), (-.5, 4.5), (-.5, 6), (-6, 6)])
    out.append(dict(base, region={"outer": S.rect(0, 0, 40, 40), "inners": [c_isl]}))
    return out


def run(case, o):
    ref = L.Reference(case)
    if ref.step > ref.R + 1e-9:
        raise Rejected("stepover beyond the radius")
    job = L.plan(case)
    text, t = C.op_trace(job)
    o.gcode = text
    if not C.check_readable(o, t, text):
        return
    tol, R = ref.tol, ref.R
    z = -case["depth"]
    cuts = [m for m in C.xy_moves(C.cutting(t)) if abs(m.end[2] - z) <= 0.0011 and abs((m.start[2] if m.start[2] is not None else m.end[2]) - z) <= 0.0011]
    A = ref.allowed(tol / 2)
    o.count("cases_with_islands", bool(ref.inners))
    path = geo.path_segs(cuts)
    for pre, part in [("", A)]:
        if part.is_empty or part.area < 1e-3:
            o.count("unreachable_pockets")
            continue
        if not cuts:
            o.bad(pre + "not-cut", f"nothing is cut at the floor, reachable area {part.area:.3f}")
            continue
        G = geo.grid(ref.outer, 3000)
        G = G[geo.inside(part, G)]
        B = geo.boundary_points(part, 1200)
        o.count("floor_points", len(G))
        o.count("wall_points", len(B))
        o.nontrivial |= len(G) + len(B) > 100
        if len(G):
            d = path.dist(G)
            k = int(d.argmax())
            o.expect(d[k] <= ref.step + tol, pre + "stepover", lambda: f"{G[k].round(3)} is {d[k]:.4f} away from the path, stepover {ref.step:.4f} ({(d > ref.step + tol).sum()} of {len(G)} points)")
        d = path.dist(B)
        k = int(d.argmax())
        o.expect(d[k] <= 2 * tol, pre + "wall", lambda: f"the path does not follow the border of the reachable area: {d[k]:.4f} away at {B[k].round(3)} ({(d > 2 * tol).sum()} of {len(B)})")
