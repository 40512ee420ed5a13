"""C14: holding tabs stay uncut: right height, right total width, and the path is otherwise unchanged."""
import math

import numpy as np

from .. import common as C
from .. import geo, shapes as S
from ..result import Rejected
from . import c01

PID = "C14"
QUICK, THOROUGH = 300, 4000
RULE = ("random outline with WireTabs or EdgeTabs in a random job plane, compared with the same profile without tabs (which C01 judges); "
        "non-trivial: at least one raised stretch was observed and measured")
REQUIRED = {"tabbed_loops": 150, "raised_stretches": 400, "stepdown_cases": 20, "overlapping_cases": 5, "shared_tabs": 25}
ASSUMPTIONS = ["EdgeTabs on closed circles and splines: the seam counts as the ends of the edge"]


def gen(rng, i, tier):
    size = rng.choice([14, 20, 30])
    kinds = ["rect", "rect", "convex", "star", "L", "T", "U", "rrect", "slot", "circle", "bulge", "plus", "spline"]
    outer = S.gen_outline(rng, size, kinds)
    d = rng.choice([2, 3, 5])
    w = rng.choice([0.5, 1, 2, 3])
    h = rng.choice([0.3, 0.5, 1, 1.5])
    if rng.random() < 0.5:
        tabs = {"kind": "wire", "count": rng.choice([1, 2, 3, 4, 5, 7, 8, 12]), "width": w, "height": h}
    else:
        tabs = {"kind": "edge", "spacing": S.rnd(w * rng.choice([1.2, 1.6, 2, 4, 8])), "width": w, "height": h}
        if rng.random() < 0.3:
            tabs["only"] = rng.choice(["LINE", "CIRCLE"])
    if rng.random() < 0.25:  # several outlines share the tabs
        ks = ["rect", "convex", "L", "circle", "slot", "rrect"]
        r = c01.gen_region(rng, 24, rng.choice([0, 1, 2]), ks, 2)
        more = c01.gen_more(rng, r, 20, rng.choice([0, 1, 1]), 1, ks, 2)
        tabs["width"] = w = min(w, 1)
        if tabs["kind"] == "wire":
            tabs["count"] = min(tabs["count"], 4)
        return {"frame": S.gen_frame(rng, plain=rng.random() < 0.4), "job": C.gen_job(rng, tool_diameter=rng.choice([1, 2]), precision=1), "region": r, "more": more,
                "entry": rng.choice(["list", "wires", "workplane"]), "depth": d, "outer": rng.choice([1, 0]), "inner": rng.choice([-1, 0]), "moved": False, "reverse": rng.random() < 0.3,
                "tabs": tabs, "stepdown": rng.choice([None, None, 1, 2])}
    step = rng.choice([None, None, 0.5, 1, 2])
    return {"frame": S.gen_frame(rng, plain=rng.random() < 0.4), "job": C.gen_job(rng, tool_diameter=rng.choice([1, 2, 3]), precision=1),
            "region": {"outer": outer, "inners": []}, "entry": rng.choice(["wire", "face", "wire", "solid"]), "solid": ["top", "extrude"], "depth": d,
            "outer": rng.choice([1, 0, -1]), "inner": None, "moved": rng.random() < 0.3, "reverse": rng.random() < 0.3,
            "tabs": near(rng, tabs, d, step), "stepdown": step}


def near(rng, tabs, d, step):
    """tabs that end just above or below one of the passes"""
    if step and rng.random() < 0.4:
        k = rng.randint(1, max(1, int(d / step) - 1))
        tabs["height"] = S.rnd(k * step + rng.choice([0.005, 0.01, 0.03, 0.08, -0.005, -0.02]), 3)
    return tabs


def directed():
    out = []
    base = {"frame": C.PLAIN, "job": {"feed": 200, "tool_diameter": 2, "precision": 1}, "entry": "wire", "depth": 3, "outer": 0, "inner": None, "moved": False, "reverse": False, "stepdown": None}
    # borders of tabs on the corners, tabs covering everything, tabs overlapping each other
    for w, h in ((10, 10), (10, 5), (20, 10), (10, 2.5)):
        r = {"outer": S.rect(0, 0, w, h), "inners": []}
        for n, tw in ((1, 20), (2, 10), (4, 5), (4, 10), (1, 10), (2, 15), (3, 4), (8, 2.5), (3, 9), (3, 20), (5, 8.01)):
            out.append(dict(base, region=r, tabs={"kind": "wire", "count": n, "width": tw, "height": 1}))
    for n, tw in ((1, 20), (4, 10), (3, 1), (5, 9), (2, 30)):
        for off in (0, -1):
            out.append(dict(base, outer=off, region={"outer": S.circle(1, 2, 5), "inners": []}, tabs={"kind": "wire", "count": n, "width": tw, "height": 1}))
    for sp, tw in ((2, 1), (1.5, 1.4), (9, 8), (4, 3.9), (10, 1), (11, 1)):
        out.append(dict(base, region={"outer": S.rect(0, 0, 20, 10), "inners": []}, tabs={"kind": "edge", "spacing": sp, "width": tw, "height": 1}))
        out.append(dict(base, outer=1, region={"outer": S.slot(0, 0, 20, 10), "inners": []}, tabs={"kind": "edge", "spacing": sp, "width": tw, "height": 1}))
    # edge tabs that touch each other, up to rounding
    out.append(dict(base, region={"outer": S.seg_poly([[-7.291430216485841, 0.3800081684875374], [-6.319766308627743, -3.656489383867218], [3.2548354412987623, -1.351695479782887], [4.407244095059554, -6.139044966162301], [8.443838870246633, -5.167357654866952], [5.167357654866952, 8.443838870246633], [1.1307628796798737, 7.472151558951283], [2.2831715334406657, 2.6848020725718684]]), "inners": []}, outer=-1, tabs={"kind": "edge", "spacing": 2.4, "width": 2, "height": 1.03}))
    # several outlines of different length share one Tabs object
    for tabs in ({"kind": "wire", "count": 3, "width": 2, "height": 1}, {"kind": "edge", "spacing": 5, "width": 2, "height": 1}):
        for e in ("list", "wires"):
            out.append(dict(base, entry=e, inner=0, region={"outer": S.rect(0, 0, 60, 40), "inners": [S.circle(-15, 0, 6), S.rect(10, 0, 20, 6)]}, more=[{"outer": S.slot(70, 0, 20, 8), "inners": []}], tabs=tabs))
    # tabs that end just above and below a pass
    for q in (0.005, 0.01, 0.05, 0.09, -0.005, -0.05):
        out.append(dict(base, region={"outer": S.rect(0, 0, 20, 10), "inners": []}, tabs={"kind": "wire", "count": 3, "width": 2, "height": 1 + q}, stepdown=1))
    # tabs higher than the stock / higher than the first passes
    for h in (2.9, 3, 4):
        out.append(dict(base, region={"outer": S.rect(0, 0, 20, 10), "inners": []}, tabs={"kind": "wire", "count": 3, "width": 2, "height": h}, stepdown=1))
    return out


def loops(text_trace):
    out = []
    for l in C.layers(text_trace):
        xy = C.xy_moves(l)
        if not xy:
            continue
        iv, s = [], 0.0
        for m in l:
            if not m.moves_xy or (abs(m.end[2] - (m.start[2] or 0)) > 0.01 and not m.is_arc and None not in m.start[:2]
                                  and math.dist(m.start[:2], m.end[:2]) < 0.0015):
                continue  # vertical (up to one unit of the last printed place)
            L = C.length([m]) if m.is_arc else math.hypot(*(np.subtract(m.end[:2], [b if a is None else a for a, b in zip(m.start[:2], m.end[:2])])))
            iv.append((s, s + L, m.start[2], m.end[2], m))
            s += L
        out.append((s, iv, l))
    return out


def expected_wire(n, w, total):
    """uncut length of n evenly spaced tabs of width w around a loop"""
    return min(n * w, total)


def run(case, o):
    R = case["job"]["tool_diameter"] / 2
    c0 = dict(case, kw={"stepdown": case["stepdown"]})
    c1 = dict(case, kw={"stepdown": case["stepdown"], "tabs": case["tabs"]})
    job0, want, order, wires = c01.plan(c0)
    for P, m, hole in want:
        c01.reference(P, m * R)
    if not job0.operations[-1].commands:
        raise Rejected("nothing to cut")
    job1, *_ = c01.plan(c1)
    text, t = C.op_trace(job1)
    o.gcode = text
    if not C.check_readable(o, t, text):
        return
    _, t0 = C.op_trace(job0)
    A, B = loops(t0), loops(t)
    T = case["tabs"]
    top = -case["depth"] + T["height"]
    o.count("shared_tabs", len(want) > 1)
    o.count("stepdown_cases", case["stepdown"] is not None)
    if not o.expect(len(A) == len(B), "layers", lambda: f"{len(B)} passes with tabs, {len(A)} without"):
        return
    eps = 0.0015
    for (sa, iva, la), (sb, ivb, lb) in zip(A, B):
        z = la[-1].end[2]
        n_seg = len(ivb)
        tol = 0.01 + 0.001 * n_seg ** 0.5 + 0.002 * sa
        o.expect(abs(sa - sb) <= tol, "path-length", lambda: f"path is {sb:.3f} long with tabs, {sa:.3f} without")
        # same curve in the plane
        pa, pb = geo.path_segs([v[4] for v in iva]), C.path_points([v[4] for v in ivb], 0.3)
        qa = C.path_points([v[4] for v in iva], 0.3)
        o.expect(pa.dist(pb).max() <= 0.012 and geo.path_segs([v[4] for v in ivb]).dist(qa).max() <= 0.012, "path", lambda: "the path in the plane is a different one with tabs")
        up, low = [], []
        for s0, s1, z0, z1, m in ivb:
            o.expect(abs(z0 - z1) <= 1e-9, "ramp", lambda: f"{m.text!r} ramps from {z0} to {z1}")
            if z1 > z + eps:
                up.append((s0, s1))
                o.expect(abs(z1 - top) <= eps, "height", lambda: f"tab at z {z1}, expected {top}")
            elif z1 < z - eps:
                o.bad("depth", f"{m.text!r} is below the pass at {z}")
        # merge
        mg = []
        for a, b in up:
            if mg and a - mg[-1][1] <= 1e-6:
                mg[-1][1] = b
            else:
                mg.append([a, b])
        wrap = len(mg) > 1 and mg[0][0] <= 1e-6 and mg[-1][1] >= sb - 1e-6
        if wrap:
            mg[0][0] = mg.pop()[0] - sb
        got = sum(b - a for a, b in mg)
        if z >= top - 1e-6 or abs(z - top) <= eps:
            o.expect(not mg, "tab-above", lambda: f"pass at {z} is above the tabs ({top}) but has raised stretches")
            continue
        o.count("tabbed_loops")
        o.count("raised_stretches", len(mg))
        if T["kind"] == "wire":
            n, w = T["count"], T["width"]
            exp = min(n * w, sa)
            o.count("overlapping_cases", n * w > sa)
            o.expect(abs(got - exp) <= tol, "tab-width", lambda: f"{got:.3f} of {sa:.3f} is left uncut by {n} tabs of {w} ({len(mg)} stretches)")
            if n * w < sa - 0.1 * n:
                o.expect(len(mg) == n, "tab-count", lambda: f"{len(mg)} tabs instead of {n}")
                if len(mg) == n:
                    mids = sorted(((a + b) / 2) % sb for a, b in mg)
                    gaps = [b - a for a, b in zip(mids, mids[1:] + [mids[0] + sb])]
                    o.expect(max(abs(g - sa / n) for g in gaps) <= tol, "tab-spacing", lambda: f"tabs are {[round(g, 2) for g in gaps]} apart, expected {sa / n:.3f}")
        else:
            exp, k = edge_model(iva, la, T, wires, case)
            if exp is not None:
                o.count("edge_model")
                o.expect(abs(got - exp) <= tol + 0.01 * k, "tab-width", lambda: f"{got:.3f} is left uncut, expected {exp:.3f} ({k} tabs of {T['width']})")
            else:
                o.count("edge_model_skipped")
        o.nontrivial |= bool(mg)


def edge_model(iva, la, T, wires, case):
    """total width of the tabs on outlines made of lines and (joining) arcs.
    Each command of the untabbed path is one edge; circles are printed as two halves."""
    if c01.curved(case):
        return None, 0
    total, k = 0.0, 0
    edges = []
    if len(iva) == 2 and all(v[4].is_arc for v in iva):
        edges = [(sum(v[1] - v[0] for v in iva), True)]
    else:
        edges = [(v[1] - v[0], v[4].is_arc) for v in iva]
    only = T.get("only")
    for L, arc in edges:
        if only and arc != (only == "CIRCLE"):
            continue
        n = int(L // T["spacing"])
        if abs(L / T["spacing"] - round(L / T["spacing"])) < 2e-3:
            return None, 0
        if n <= 0:
            continue
        k += n
        pitch = L / (n + 1)
        w = T["width"]
        total += min(n * w, (n - 1) * pitch + w, L)
    return total, k
