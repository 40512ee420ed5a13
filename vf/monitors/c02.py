"""C02: while pocketing the tool never leaves the region it was confined to."""
import numpy as np

from .. import common as C
from .. import geo, pocketlib as L, shapes as S

PID = "C02"
QUICK, THOROUGH = 260, 5000
RULE = ("random pocket face with 0-3 islands and optional avoid areas in a random job plane, random tool, offsets, stepover, stepdown and precision; "
        "non-trivial: at least 100 sampled tool positions below the stock top were compared with the confinement region")
REQUIRED = {"positions": 20000, "cases_with_islands": 20, "cases_with_avoid": 10}
ASSUMPTIONS = ["tolerance 0.003 + 2*10^-precision (curves are approximated to the job precision)"]


def gen(rng, i, tier):
    return L.gen(rng, tier)


def directed():
    base = {"frame": C.PLAIN, "job": {"feed": 200, "tool_diameter": 2, "precision": 2}, "depth": 3, "entry": "face", "kw": {}}
    rect = S.rect
    out = [
        # islands whose tool offsets overlap each other / the wall
        dict(base, region={"outer": rect(0, 0, 30, 30), "inners": [rect(-3, 0, 4, 6), rect(3, 0, 4, 6)]}),
        dict(base, region={"outer": rect(0, 0, 30, 30), "inners": [rect(-12.5, 0, 3, 6)]}),
        # two lobes connected by a corridor that is narrower than the tool
        dict(base, region={"outer": S.seg_poly([(-20, -8), (-4, -8), (-4, -.8), (4, -.8), (4, -8), (20, -8), (20, 8), (4, 8), (4, .8), (-4, .8), (-4, 8), (-20, 8)]), "inners": []}),
        # island in the middle of a big pocket, big stepover
        dict(base, region={"outer": rect(0, 0, 40, 40), "inners": [S.circle(0, 0, 5)]}, kw={"stepover": 1}),
        dict(base, region={"outer": S.circle(0, 0, 15), "inners": [S.circle(4, 0, 3), S.circle(-5, 1, 2)]}, kw={"stepdown": 1}),
        # avoid area at the level of the floor, in a tilted plane
        dict(base, frame={"origin": [3, -7, 11], "x": [0.36, 0.48, -0.8], "n": [0.8, -0.6, 0]}, region={"outer": rect(0, 0, 30, 30), "inners": []},
             avoid=[{"outer": S.circle(2, 3, 4), "up": 0}]),
        dict(base, region={"outer": rect(0, 0, 30, 30), "inners": [rect(0, 0, 8, 8)]}, avoid=[{"outer": rect(3, 3, 8, 8), "up": 3}], kw={"outer_offset": -1}),
    ]
    return out


def run(case, o):
    ref = L.Reference(case)
    job = L.plan(case)
    text, t = C.op_trace(job)
    o.gcode = text
    if not C.check_readable(o, t, text):
        return
    below = [m for m in t.moves if m.end[2] is not None and (m.end[2] < 0 or (m.start[2] is not None and m.start[2] < 0)) and None not in m.end[:2]]
    if not below:
        o.count("empty_paths")
        return
    pts = C.path_points(below, ref.R / 8)
    s, which = ref.slack(pts)
    k = int(s.argmin())
    o.count("positions", len(pts))
    o.count("moves", len(below))
    o.count("cases_with_islands", bool(ref.inners))
    o.count("cases_with_avoid", bool(ref.avoids))
    o.nontrivial = len(pts) >= 100
    o.expect(s[k] >= -ref.tol, ["gouge-wall", "gouge-island", "gouge-avoid"][which[k]],
             lambda: f"tool centre at {pts[k].round(3)} is {-s[k]:.4f} outside of the allowed region ({(s < -ref.tol).sum()} of {len(pts)} samples)")
    zmin = min(m.end[2] for m in below)
    o.expect(zmin >= -case["depth"] - 0.0011, "too-deep", lambda: f"tool goes down to {zmin}, the floor is at {-case['depth']}")
    for m in below:
        if m.is_rapid and m.moves_xy:
            o.bad("rapid-in-pocket", f"rapid below the stock top: {m.text}")
            break
