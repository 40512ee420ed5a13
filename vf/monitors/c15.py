"""C15: what is shown is what is machined."""
import math
import sys
import types

import cadquery as cq
import numpy as np

from .. import common as C
from .. import gcode, proglib as P, pocketlib as L, shapes as S

PID = "C15"
QUICK, THOROUGH = 250, 4000
RULE = ("random programs; the shapes offered to the viewer are read back (end and middle points, taken into the job plane) and matched, in order, with the moves of the program text; "
        "non-trivial: at least one arc or ten lines were matched")
REQUIRED = {"surfaces": 30, "edges": 15000, "arcs": 1200, "rapids": 1200, "viewer_objects": 250, "tilted": 40}
ASSUMPTIONS = ["3D surfacing is planned with a stand-in for opencamlib (see C17)", "the first rapid of an operation starts at an unknown place and is not judged", "moves shorter than 0.002 may be left out"]


def gen(rng, i, tier):
    c = P.gen_program(rng)
    if rng.random() < 0.2:
        c["ops"].insert(rng.randint(0, len(c["ops"])), P.gen_surface(rng))
    for op in c["ops"]:  # more arcs
        if op["op"] == "pocket" and rng.random() < 0.6:
            op["op"] = "profile"
            op["kw"].pop("stepover", None)
    c["job"]["precision"] = 1
    return c


def directed():
    out = []
    for k in (S.circle(1, 2, 6), S.slot(0, 0, 12, 6, 0.4), S.rounded_rect(3, 4, 20, 12, 3), S.rect(0, 0, 10, 10)):
        for fr in (C.PLAIN, {"origin": [1, 2, 3], "x": [0, 1, 0], "n": [1, 0, 0]}, {"origin": [-4, 0, 9], "x": [1, 1, 0], "n": [0.2, -0.2, 1]}):
            for off in (1, 0, -1):
                out.append({"frame": fr, "job": {"feed": 100, "tool_diameter": 2, "precision": 1}, "ops": [{"op": "wire_profile", "depth": 2, "kw": {"offset": off}, "region": {"outer": k, "inners": []}},
                            {"op": "drill", "depth": 2, "kw": {}, "points": [[3, 4], [-7, 9]], "form": "vectors", "tool": {"tool_number": 5}}]})
    return out


def stub_editor():
    if "cq_editor" in sys.modules:
        return
    from OCP.Quantity import Quantity_Color

    m, u = types.ModuleType("cq_editor"), types.ModuleType("cq_editor.cq_utils")
    u.to_occ_color = lambda *a: Quantity_Color()
    m.cq_utils = u
    sys.modules["cq_editor"], sys.modules["cq_editor.cq_utils"] = m, u


def read_edge(e, pl):
    f = lambda u: pl.toLocalCoords(e.positionAt(u)).toTuple()
    return f(0), f(0.5), f(1), e.geomType(), e.Length()


def expected(t):
    """(start, mid, end, move) of the moves of one operation"""
    out = []
    for m in t.moves:
        known = None not in m.start and None not in m.end
        s = tuple(0 if v is None else v for v in m.start)
        e = tuple(b if b is not None else a for a, b in zip(s, m.end))
        if m.is_arc:
            p = gcode.points(m)
            r0, r1 = gcode.arc_radii(m)
            sw = gcode.arc_sweep(m) / 2
            a = math.atan2(s[1] - m.center[1], s[0] - m.center[0]) + sw
            mid = (m.center[0] + r0 * math.cos(a), m.center[1] + r0 * math.sin(a), (s[2] + e[2]) / 2)
            L_ = abs(2 * sw) * r0
        else:
            mid = tuple((a + b) / 2 for a, b in zip(s, e))
            L_ = math.dist(s, e)
        out.append((s, mid, e, m, known, L_))
    return out


def near(a, b, tol):
    return math.dist(a, b) <= tol


def match(o, edges, t, k):
    exp = expected(t)
    q = 0
    for s, mid, e, m, known, L_ in exp:
        if not known and m.is_rapid:
            # drawn from an assumed place, or not at all
            if q < len(edges) and near(edges[q][2], e, 0.0015 * 2) and not near(edges[q][0], e, 0.002) and edges[q][3] == "LINE":
                q += 1
            continue
        ed = edges[q] if q < len(edges) else None
        tol = 0.002
        ok = ed is not None and near(ed[0], s, tol) and near(ed[2], e, tol)
        if ok and m.is_arc and L_ > 0.05:
            # slack of a rounded centre, more for nearly full circles
            ok = near(ed[1], mid, 0.006 + 0.004 * L_ / max(0.01, math.dist(s, e)) * 0.2) and (ed[3] != "LINE" or L_ < 0.05)
        elif ok and not m.is_arc:
            ok = ed[3] == "LINE" and abs(ed[4] - L_) <= 0.004
        if ok:
            q += 1
            o.count("edges")
            o.count("arcs", m.is_arc)
            o.count("rapids", m.is_rapid)
            continue
        if L_ <= 0.003:
            continue
        o.bad("edge", f"operation {k}: {m.text!r} (from {tuple(round(v, 3) for v in s)}) is shown as {None if ed is None else [[round(v, 3) for v in p] for p in ed[:3]] + [ed[3]]}")
        return
    if q < len(edges):
        o.bad("extra-edge", f"operation {k}: shown but not in the program: {[[round(v, 3) for v in p] for p in edges[q][:3]]}")


def run(case, o):
    o.count("surfaces", sum(op["op"] == "surface3d" for op in case.get("ops", [])))
    pl = S.plane(case["frame"])
    job = P.run(case)[-1]
    before = job.to_gcode()
    o.gcode = before
    shown = []

    def show_object(obj, name=None, *a, **k):
        shown.append((name, obj))

    show_object.__module__ = "ocp_vscode.show"
    job.show(show_object)
    o.count("viewer_objects", len(shown))
    if not o.expect(len(shown) == len(job.operations), "operations", lambda: f"{len(shown)} objects shown for {len(job.operations)} operations"):
        return
    a0 = o.counts["arcs"]
    flat = []
    for k, (op, (name, edges)) in enumerate(zip(job.operations, shown)):
        o.expect(op.name in str(name), "name", lambda: f"operation {op.name!r} is shown as {name!r}")
        text = op.to_gcode()
        t = gcode.run(text, dict(distance="90"))
        if not C.check_readable(o, t, text):
            return
        edges = [read_edge(e, pl) for e in edges]
        flat += edges
        match(o, edges, t, k)
    allsh = [read_edge(e, pl) for e in job.to_shapes(as_edges=True)]
    o.expect(len(allsh) == len(flat) and all(near(a[0], b[0], 1e-6) and near(a[1], b[1], 1e-6) and near(a[2], b[2], 1e-6) for a, b in zip(allsh, flat)), "to-shapes", "to_shapes(as_edges) differs from what show() passes on")
    # the coloured version: same number of objects, placed by the job plane
    stub_editor()
    groups = job.to_shapes()
    o.expect(len(groups) == len(job.operations), "ais-operations", lambda: f"{len(groups)} groups for {len(job.operations)} operations")
    for g, (name, edges) in zip(groups, shown):
        ch = g.Children()
        inner = next((c for c in ch), None)
        if inner is None:
            o.bad("ais-empty", "an operation without presentation")
            continue
        n = sum(1 for _ in inner.Children())
        o.expect(n == len(edges), "ais-count", lambda: f"{n} coloured objects, {len(edges)} edges")
        tr = inner.LocalTransformation()
        p = cq.Vector(1, 2, 3)
        from OCP.gp import gp_Pnt

        w = gp_Pnt(1, 2, 3).Transformed(tr)
        x = pl.toWorldCoords((1, 2, 3))
        o.expect(math.dist((w.X(), w.Y(), w.Z()), x.toTuple()) < 1e-6, "ais-plane", "the coloured presentation isn't in the job plane")
    o.expect(job.to_gcode() == before, "program-changed", "showing the job changed its program")
    n = case["frame"]["n"]
    o.count("tilted", abs(n[0]) + abs(n[1]) > 1e-9)
    o.nontrivial = o.counts["arcs"] > a0 or o.counts["edges"] > 10
