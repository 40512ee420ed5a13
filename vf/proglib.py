"""Whole programs: random histories of operations on one job."""
from __future__ import annotations

import cadquery as cq

from . import common as C
from . import gcode, shapes as S

SMALL = ["rect", "convex", "L", "circle", "slot", "rrect", "T"]


def gen_tool(rng, dia=None):
    t = {}
    if rng.random() < 0.6:
        t["tool_number"] = rng.choice([0, 1, 1, 2, 2, 3, 7, 12])
    if rng.random() < 0.6:
        t["tool_diameter"] = rng.choice([1, 2, 3, 3.175])
    if rng.random() < 0.4:
        t["feed"] = rng.choice([111, 222, 333.5])
    if rng.random() < 0.5:
        t["speed"] = rng.choice([5000, 9000, 15000])
    return t


def gen_op(rng, depth_range=(1, 2, 2.5, 0.3)):
    """one operation, small and quick to plan (size ~16 around a random centre)"""
    k = rng.choice(["profile", "profile", "wire_profile", "pocket", "pocket", "drill", "drill"])
    dx, dy = S.rnd(rng.uniform(-40, 40), 2), S.rnd(rng.uniform(-40, 40), 2)
    f = S.Sim(dx=dx, dy=dy)
    op = {"op": k, "depth": rng.choice(depth_range), "kw": {}}
    if k == "drill":
        n = rng.randint(1, 5) if rng.random() < 0.8 else rng.randint(6, 24)
        op["points"] = [[S.rnd(rng.uniform(-40, 40), 3), S.rnd(rng.uniform(-40, 40), 3)] for _ in range(n)]
        op["form"] = rng.choice(["vectors", "wires", "faces", "workplane"])
        return op
    outer = S.gen_outline(rng, rng.choice([12, 16, 20]), SMALL)
    inners = []
    if k != "wire_profile" and rng.random() < 0.5:
        h = S.gen_outline(rng, 4, ["rect", "circle", "circle"])
        if S.polygon(outer).contains(S.polygon(h).buffer(0.4)):
            inners = [S.xform(h, f)]
    op["region"] = {"outer": S.xform(outer, f), "inners": inners}
    if rng.random() < 0.25:  # several shapes at once
        op["more"] = []
        if k == "profile" and not inners and rng.random() < 0.5:
            op["form"] = "wires"
        for q in range(1, rng.choice([2, 2, 3])):
            g = S.Sim(dx=S.rnd(dx + 30 * q * rng.choice([1, -1, 1]), 2), dy=S.rnd(dy + rng.uniform(-30, 30), 2))
            op["more"].append({"outer": S.xform(S.gen_outline(rng, rng.choice([8, 12]), SMALL), g), "inners": [], "dz": rng.choice([0, 0, min(0.5, op["depth"] / 2)])})
    if rng.random() < 0.35:
        op["kw"]["stepdown"] = rng.choice([0.5, 1, 1.7])
    if k != "pocket" and rng.random() < 0.2:
        op["kw"]["tabs"] = {"kind": "wire", "count": 3, "width": 1, "height": min(0.5, op["depth"] / 2)} if rng.random() < 0.5 else {"kind": "edge", "spacing": 4, "width": 1, "height": min(0.5, op["depth"] / 2)}
    if k == "pocket":
        if rng.random() < 0.3:
            op["kw"]["stepover"] = rng.choice([0.4, 0.8, 1])
        if rng.random() < 0.25:
            # something in the area has to be avoided
            x0, y0, x1, y1 = S.polygon(op["region"]["outer"]).bounds
            op["avoid"] = S.rect((x0 + x1) / 2 + rng.choice([0, 1]), (y0 + y1) / 2, (x1 - x0) * rng.uniform(0.1, 0.4), (y1 - y0) * rng.uniform(0.1, 0.4), rng.choice([0, 0.5]))
    elif k == "wire_profile":
        op["kw"]["offset"] = rng.choice([1, 0, -1])
    elif rng.random() < 0.3:
        op["kw"]["outer_offset"] = rng.choice([0, -1])
    return op


def gen_surface(rng):
    """3D surfacing of one to three separate faces, flat or sloped"""
    fs, x = [], S.rnd(rng.uniform(-40, 0), 2)
    for _ in range(rng.choice([1, 2, 2, 3])):
        w = rng.choice([5, 6, 8])
        fs.append([x, S.rnd(rng.uniform(-20, 20), 2), w, rng.choice([5, 6, 7]), S.rnd(-rng.choice([0.5, 1, 2, 3]), 2), rng.choice([0, 0, 0.1, 0.25, -0.2])])
        x = S.rnd(x + w + rng.uniform(6, 15), 2)
    kw = {"outer_boundary_offset": rng.choice([0, -1, 1]), "stepover": rng.choice([0.5, 0.8]), "interpolation_step": rng.choice([0.5, 1])}
    if rng.random() < 0.5:
        kw["stepdown"] = rng.choice([0.7, 1, 1.5])
    return {"op": "surface3d", "depth": 1, "faces": fs, "cutter": [rng.choice(["Ball", "Cyl"]), rng.choice([2, 3])], "kw": kw, "form": rng.choice(["list", "workplane"])}


def gen_program(rng, nops=None, tools=True, **job):
    kw = {"precision": rng.choice([1, 2])}
    if rng.random() < 0.3:
        kw["unit"] = rng.choice(["METRIC", "IMPERIAL"])
    if rng.random() < 0.3:
        kw["coordinate"] = "OFFSET_%d" % rng.randint(1, 6)
    if rng.random() < 0.3:
        kw["controller_motion"] = rng.choice(["EXACT_PATH", "EXACT_STOP", "CONTINUOUS"])
    if rng.random() < 0.5:
        kw["coolant"] = rng.choice(["MIST", "FLOOD"])
    if rng.random() < 0.4:
        kw["tool_number"] = rng.choice([0, 1, 2, 3])
    kw["tool_diameter"] = rng.choice([1, 2, 3, 3.175])
    kw.update(job)
    ops = []
    for _ in range(nops or rng.randint(1, 5)):
        op = gen_op(rng)
        if tools and rng.random() < 0.45:
            op["tool"] = gen_tool(rng)
        ops.append(op)
    return {"frame": S.gen_frame(rng, plain=rng.random() < 0.5), "job": C.gen_job(rng, **kw), "ops": ops}


def shapes_of(op, pl, backwards=False):
    """arguments of the operation in the world (optionally the last shape is made first)"""

    def make(f, items):
        items = list(items)
        return [f(x) for x in items[::-1]][::-1] if backwards else [f(x) for x in items]

    z = -op["depth"]
    k = op["op"]
    if k == "drill":
        z = op.get("z", 0)
        form = op.get("form", "vectors")
        if form == "vectors":
            return [pl.toWorldCoords((x, y, z)) for x, y in op["points"]]
        ws = make(lambda p: S.place(S.wire(S.circle(*p, 0.8), z), pl), op["points"])
        if form == "wires":
            return ws
        fs = make(cq.Face.makeFromWires, ws)
        return fs if form == "faces" else cq.Workplane().newObject(fs)
    if k == "surface3d":

        def slope(q):
            cx, cy, w, d, top, t = q
            lo = lambda u: top - abs(t) * w / 2 + t * u
            p = [(cx + u, cy + v, lo(u)) for u, v in ((-w / 2, -d / 2), (w / 2, -d / 2), (w / 2, d / 2), (-w / 2, d / 2))]
            return cq.Face.makeFromWires(cq.Wire.makePolygon([pl.toWorldCoords(c) for c in p], close=True))

        fs = make(slope, op["faces"])
        return fs if op["form"] == "list" else cq.Workplane().newObject(fs)
    rs = [op["region"]] + (op.get("more") or [])
    if k == "wire_profile" or op.get("form") == "wires":
        ws = make(lambda r: S.place(S.wire(r["outer"], z + r.get("dz", 0)), pl), rs)
        return ws if len(ws) > 1 else ws[0]
    fs = make(lambda r: S.place(S.face(r, z + r.get("dz", 0)), pl), rs)
    if len(fs) == 1:
        return fs[0]
    return fs if len(fs) > 2 else cq.Workplane().newObject(fs)


def kwargs(op, pl):
    kw = {k: tuple(v) if isinstance(v, list) else v for k, v in op["kw"].items()}
    if "tabs" in kw:
        kw["tabs"] = C.tabs(kw["tabs"])
    if op.get("tool") is not None:
        kw["tool"] = C.tool(op["tool"])
    if op["op"] == "surface3d":
        from .ocl import opencamlib as ocl

        kw["tool"] = getattr(ocl, op["cutter"][0] + "Cutter")(op["cutter"][1], 20)
    if op["op"] == "drill":
        kw["depth"] = op["depth"]
    if op.get("avoid") and op["op"] == "pocket":
        f = S.place(S.face({"outer": op["avoid"]}, -op["depth"]), pl)
        kw["avoid_areas"] = [f] if op["kw"].get("stepover") else f
    return kw


def apply(job, op, pl, shapes=None):
    if op["op"] == "surface3d":
        return job.surface3d(o=shapes_of(op, pl) if shapes is None else shapes, **kwargs(op, pl))
    return getattr(job, op["op"])(shapes_of(op, pl) if shapes is None else shapes, **kwargs(op, pl))


def run(case):
    """-> [job0, job1, ...]"""
    pl = S.plane(case["frame"])
    jobs = [C.job(case["job"], case["frame"])]
    for op in case["ops"]:
        jobs.append(apply(jobs[-1], op, pl))
    return jobs


class Model:
    """what has to be active while each operation cuts"""

    def __init__(self, case):
        j = case["job"]
        self.first = dict(number=j.get("tool_number"), diameter=j.get("tool_diameter"), feed=j["feed"], speed=j.get("speed"))
        self.states = []
        s = dict(self.first)
        changed = False
        for op in case["ops"]:
            t = op.get("tool") or {}
            new = dict(s)
            for k, a in (("number", "tool_number"), ("diameter", "tool_diameter"), ("feed", "feed"), ("speed", "speed")):
                if t.get(a) is not None:
                    new[k] = t[a]
            change = new["number"] is not None and new["number"] != s["number"]
            respeed = not change and new["speed"] is not None and new["speed"] != s["speed"]
            changed |= change
            self.states.append(dict(new, change=change, respeed=respeed, loaded=changed))
            s = new


def sections(trace):
    """moves by operation (comment delimited); the first section is the header"""
    out = {}
    for m in trace.moves:
        out.setdefault((m.section, m.label), []).append(m)
    return out
