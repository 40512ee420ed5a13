"""C19: requests that can't be machined are refused, and nothing happens to the job; requests just inside the limits are served."""
import math
import os
import tempfile

import cadquery as cq

from .. import common as C
from .. import gcode, proglib as P, shapes as S
from ..result import Rejected
from .c10 import snap

PID = "C19"
QUICK, THOROUGH = 320, 5000
CASE_LIMIT = 60
RULE = ("a request that has to be refused (kind, position within the request, tool and frame are random) is made on a job with a random history; it has to raise, leave the program and settings of the job as they were, and a request "
        "just inside of the limit has to be served afterwards, exactly as on a job that never saw the refused one; non-trivial: refused, and the sibling was served with cuts")
REQUIRED = {"refused": 330, "served": 300, "kinds_profile": 60, "kinds_pocket": 70, "kinds_drill": 35, "kinds_tabs": 15, "kinds_surface": 12, "kind k_stepdown": 8, "with_tool": 100, "mixed": 60}
ASSUMPTIONS = ["any exception counts as a refusal; the limits are those stated: flat means a height difference of at most 0.001, at most 100 passes of an outline"]

PROFILE = ["p_offsets", "p_notool", "p_object", "p_tilt", "p_steps", "w_notool", "w_tilt", "w_steps", "p_stepdown", "w_stepdown"]
POCKET = ["k_notool", "k_object", "k_above", "k_tilt", "k_avoid_above", "k_avoid_tilt", "k_stepover", "k_above", "k_tilt", "k_stepdown", "k_stepdown", "q_above", "q_above", "q_avoid_above"]
DRILL = ["d_none", "d_depth", "d_empty", "d_object"]
TABS = ["t_spacing"]
SURFACE = ["s_object", "s_empty"]


def gen(rng, i, tier):
    kind = rng.choice(PROFILE + POCKET + DRILL * 2 + TABS * 3 + SURFACE * 2)
    c = P.gen_program(rng, nops=rng.choice([0, 1, 1, 2]), tools=rng.random() < 0.5)
    if rng.random() < 0.15:
        c["ops"] = []
    c["kind"] = kind
    if kind.endswith("notool"):
        c["job"].pop("tool_diameter")
        c["ops"] = [o for o in c["ops"] if o["op"] == "drill"]
        for o in c["ops"]:
            if o.get("tool"):
                o["tool"].pop("tool_diameter", None)
    else:
        c["job"]["tool_diameter"] = rng.choice([1, 2, 3])
    t = None
    if rng.random() < 0.5:
        t = P.gen_tool(rng)
        t.pop("tool_diameter", None)
    c["tool"] = t
    c["r"] = {"w": S.rnd(rng.uniform(12, 22), 2), "h": S.rnd(rng.uniform(12, 22), 2), "cx": S.rnd(rng.uniform(-30, 30), 2), "cy": S.rnd(rng.uniform(-30, 30), 2), "depth": rng.choice([1, 2, 4.5]),
              "z": rng.choice([0.001, 0.01, 0.5, 1, 7.3]), "znear": rng.choice([0, 0, -0.001, -0.01, -1]),
              "ext": rng.choice([0.002, 0.01, 0.5, 3]), "extnear": rng.choice([0, 0.0002, 0.0005, 0.0008]),
              "axis": rng.choice(["x", "y"]), "sgn": rng.choice([1, -1]), "mixed": rng.choice(["alone", "first", "last"]), "obj": rng.choice(["edge", "vertex", "solid", "tuple", "compound"]),
              "form": rng.choice(["plain", "list", "wp"]),
              "side": rng.choice([None, -1, 0, 1]), "spare": rng.choice(["outer_offset", "inner_offset"]),
              "over": rng.choice([0, -0.5, [0.5, -2], [0, 0], [-1, 0.4]]), "overnear": rng.choice([0.5, 0.8, [0.5, -0.1], [0, 0.4]]),
              "steps": rng.choice([103, 130, 400]), "stepsnear": rng.choice([100, 99.5, 7]),
              "stepneg": rng.choice([0.1, 0.5, 1, 10]),
              "ratio": rng.choice([1, 0.999, 0.5, 0]), "rationear": rng.choice([1.001, 1.2, 3]), "width": rng.choice([0.5, 1, 2]),
              "empty": rng.choice(["list", "wp"])}
    return c


def directed():
    out = []
    for frame in (C.PLAIN, {"origin": [3, 4, 5], "x": [0, 0, 1], "n": [0.6, 0.8, 0]}):
        for kind in dict.fromkeys(PROFILE + POCKET + DRILL + TABS + SURFACE):
            job = {"feed": 100, "tool_diameter": 2}
            if kind.endswith("notool"):
                job.pop("tool_diameter")
            out.append({"frame": frame, "job": job, "ops": [], "kind": kind, "tool": {"tool_number": 5, "speed": 3000, "feed": 50} if kind[2] in "to" else None,
                        "r": {"w": 20, "h": 14, "cx": 1, "cy": 2, "depth": 2, "z": 0.001, "znear": 0, "ext": 0.01, "extnear": 0, "axis": "x", "sgn": 1, "mixed": "last", "obj": "edge", "form": "list", "side": 1,
                              "spare": "outer_offset", "over": 0, "overnear": 0.5, "steps": 110, "stepsnear": 100, "stepneg": 0.5, "ratio": 1, "rationear": 1.001, "width": 2, "empty": "list"}})
    return out


def request(case, pl, bad):
    """-> f(job): the request that has to be refused (bad) or its sibling that has to be served"""
    r, kind = case["r"], case["kind"]
    t = C.tool(case["tool"])
    reg = {"outer": S.rect(r["cx"], r["cy"], r["w"], r["h"]), "inners": [S.circle(r["cx"], r["cy"], 3)]}

    def flat(z, dx=0.0):
        f = S.Sim(dx=dx)
        return S.face({"outer": S.xform(reg["outer"], f), "inners": [S.xform(x, f) for x in reg["inners"]]}, z)

    def tilt(ext, base=-2.0, dx=0.0):
        size = r["h"] if r["axis"] == "x" else r["w"]
        a = math.degrees(math.asin(min(0.7, ext / size))) * r["sgn"]
        c = (r["cx"] + dx, r["cy"], base - (ext if ext > 0.1 else 0))
        d = (1, 0, 0) if r["axis"] == "x" else (0, 1, 0)
        return flat(c[2], dx).rotate(cq.Vector(*c), cq.Vector(c[0] + d[0], c[1] + d[1], c[2]), a)

    def other():
        k = r["obj"]
        if k == "edge":
            return cq.Edge.makeLine(cq.Vector(0, 0, -1), cq.Vector(9, 0, -1))
        if k == "vertex":
            return cq.Vertex.makeVertex(1, 2, -1)
        if k == "solid":
            return cq.Solid.makeBox(5, 5, 3, cq.Vector(0, 0, -4))
        if k == "compound":
            return cq.Compound.makeCompound([cq.Solid.makeBox(5, 5, 3, cq.Vector(0, 0, -4))])
        return "hole"

    def put(x):
        return S.place(x, pl) if isinstance(x, cq.Shape) else x

    def mix(badshape, good):
        """the odd one alone or among good ones"""
        xs = [good] if not bad else {"alone": [badshape], "first": [badshape, good], "last": [good, badshape]}[r["mixed"]]
        xs = [put(x) for x in xs]
        if len(xs) == 1 and r["form"] == "plain":
            return xs[0]
        if r["form"] == "wp" and all(isinstance(x, (cq.Shape, cq.Vector)) for x in xs):
            return cq.Workplane().newObject(xs)
        return xs

    z = -float(r["depth"])
    if kind == "p_offsets":
        kw = {"outer_offset": None, "inner_offset": None}
        if not bad:
            kw[r["spare"]] = 0
        return lambda j: j.profile(put(flat(z)), tool=t, **kw)
    if kind in ("p_notool", "w_notool", "k_notool"):
        if not bad:
            t = C.tool(dict(case["tool"] or {}, tool_diameter=2))
        if kind[0] == "p":
            return lambda j: j.profile(put(flat(z)), tool=t)
        if kind[0] == "w":
            return lambda j: j.wire_profile(put(flat(z)).outerWire(), tool=t)
        return lambda j: j.pocket(put(flat(z)), tool=t)
    if kind == "p_object":
        return lambda j: j.profile(mix(other(), flat(z)), tool=t)
    if kind == "p_tilt":
        return lambda j: j.profile(mix(tilt(r["ext"], dx=40.0), tilt(r["extnear"])), tool=t)
    if kind == "w_tilt":
        def w_tilt(j):
            xs = [tilt(r["extnear"])] if not bad else {"alone": [tilt(r["ext"])], "first": [tilt(r["ext"]), flat(z)], "last": [flat(z), tilt(r["ext"])]}[r["mixed"]]
            ws = [put(x).outerWire() for x in xs]
            return j.wire_profile(ws[0] if len(ws) == 1 and r["form"] == "plain" else ws, offset=r["side"] or 0, tool=t)
        return w_tilt
    if kind in ("p_steps", "w_steps"):
        sd = r["depth"] / (r["steps"] if bad else r["stepsnear"])
        if kind[0] == "p":
            return lambda j: j.profile(put(flat(z)), stepdown=sd, tool=t, inner_offset=None)
        return lambda j: j.wire_profile(put(flat(z)).outerWire(), stepdown=sd, tool=t)
    if kind.endswith("_stepdown"):
        sd = r["stepneg"] * (-1 if bad else 1)
        if kind[0] == "p":
            return lambda j: j.profile(put(flat(z)), stepdown=sd, tool=t, inner_offset=None)
        if kind[0] == "w":
            return lambda j: j.wire_profile(put(flat(z)).outerWire(), stepdown=sd, tool=t)
        return lambda j: j.pocket(put(flat(z)), stepdown=sd, tool=t)
    if kind == "k_object":
        odd = other()
        if isinstance(odd, cq.Edge):
            odd = flat(z).outerWire()
        return lambda j: j.pocket(mix(odd, flat(z)), tool=t)
    if kind == "k_above":
        return lambda j: j.pocket(mix(flat(r["z"], 50.0), flat(r["znear"])), tool=t)
    if kind == "k_tilt":
        return lambda j: j.pocket(mix(tilt(r["ext"], dx=50.0), tilt(r["extnear"])), tool=t)
    if kind == "k_avoid_above":
        return lambda j: j.pocket(put(flat(z)), avoid_areas=mix(flat(r["z"], 15.0), flat(r["znear"], 15.0)), tool=t)
    if kind == "k_avoid_tilt":
        return lambda j: j.pocket(put(flat(z)), avoid_areas=mix(tilt(r["ext"], dx=15.0), tilt(r["extnear"], dx=15.0)), tool=t)
    if kind in ("q_above", "q_avoid_above"):  # the CadQuery based engine
        from cq_cam.operations.pocket import pocket

        def q_above(j):
            high, near = r["z"], r["znear"]
            dx = 50.0 if kind == "q_above" else 15.0
            odd = mix(flat(high, dx), flat(near, 0.0 if kind == "q_above" else dx))
            odd = odd.objects if isinstance(odd, cq.Workplane) else odd if isinstance(odd, list) else [odd]
            j = j.update_tool(t)
            if kind == "q_above":
                return j._add_operation("Pocket", pocket(j, odd, engine="cq"))
            return j._add_operation("Pocket", pocket(j, [put(flat(z))], avoid_areas=odd, engine="cq"))
        return q_above
    if kind == "k_stepover":
        so = r["over"] if bad else r["overnear"]
        return lambda j: j.pocket(put(flat(z)), stepover=tuple(so) if isinstance(so, list) else so, tool=t)
    pts = [pl.toWorldCoords((r["cx"] + q, r["cy"], 0)) for q in (0, 4, 9)]
    if kind == "d_none":
        return lambda j: j.drill(None if bad else pts, depth=r["depth"], tool=t)
    if kind == "d_depth":
        return (lambda j: j.drill(pts, tool=t)) if bad else (lambda j: j.drill(pts, depth=r["depth"], tool=t))
    if kind == "d_empty":
        nothing = [] if r["empty"] == "list" else cq.Workplane()
        return lambda j: j.drill(nothing if bad else pts[:1], depth=r["depth"], tool=t)
    if kind == "d_object":
        return lambda j: j.drill(mix(other(), pts[0]), depth=r["depth"], tool=t)
    if kind[0] == "s":
        from ..ocl import opencamlib as ocl

        xs = lambda: ([] if r["empty"] == "list" else cq.Workplane()) if bad and kind == "s_empty" else mix(other() if r["obj"] != "solid" else "hole", flat(z))
        return lambda j: j.surface3d(o=xs(), tool=ocl.CylCutter(2, 20), outer_boundary_offset=-0.5)
    if kind == "t_spacing":
        from cq_cam.operations.tabs import EdgeTabs

        w = r["width"]

        def f(j):
            tabs = EdgeTabs(spacing=w * (r["ratio"] if bad else r["rationear"]), width=w, height=min(0.5, r["depth"] / 2))
            return j.profile(put(flat(z)), tabs=tabs, tool=t)
        return f
    raise KeyError(kind)


def build(case, pl):
    j = C.job(case["job"], case["frame"])
    for op in case["ops"]:
        j = P.apply(j, op, pl)
    return j


def run(case, o):
    pl = S.plane(case["frame"])
    kind = case["kind"]
    if kind == "k_object" and case["r"]["form"] == "plain":
        case["r"]["form"] = "list"  # a single shape that isn't a face is taken apart
    j = build(case, pl)
    text, s, n = j.to_gcode(), snap(j), len(j.operations)
    group = {"p": "profile", "w": "profile", "k": "pocket", "q": "pocket", "d": "drill", "t": "tabs", "s": "surface"}[kind[0]]
    request_bad = request(case, pl, True)
    try:
        made = request_bad(j)
    except Exception:
        o.count("refused")
        o.count("kinds_" + group)
        o.count("kind " + kind)
        refused = True
    else:
        refused = False
        k = len(made.operations[-1].commands) if made.operations else 0
        o.bad("accepted", f"{kind}: a request that can't be machined was accepted ({k} commands)")
    o.count("with_tool", case["tool"] is not None)
    o.count("mixed", case["r"]["mixed"] != "alone")
    if j.to_gcode() != text:
        o.bad("program-changed", f"{kind}: the refused request changed the program of the job")
    d = {a: (s[a], b) for a, b in snap(j).items() if s[a] != b}
    if d or len(j.operations) != n:
        o.bad("job-changed", f"{kind}: the refused request changed the job: {d}, {n} -> {len(j.operations)} operations")
    # served, as if nothing had happened
    good = request(case, pl, False)
    a = good(j)
    b = good(build(case, pl))
    o.expect(a.to_gcode() == b.to_gcode(), "tainted", lambda: f"{kind}: the next request gives another program than on a fresh job")
    cuts = C.cutting(C.op_trace(a)[1])
    if not o.expect(cuts, "nothing", f"{kind}: the request inside of the limit was served without any cut"):
        return
    o.count("served")
    o.nontrivial = refused
