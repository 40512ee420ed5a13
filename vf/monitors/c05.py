"""C05: rapid moves never pass through material."""
from .. import common as C
from .. import gcode, proglib as P, pocketlib as L, shapes as S
from . import c01

PID = "C05"
QUICK, THOROUGH = 300, 4000
RULE = ("random programs of 1-5 profile/pocket/drill operations (tools, stepdown, tabs, units, heights, job planes); "
        "non-trivial: at least 5 rapid moves were checked against the heights of the job")
REQUIRED = {"surfaces": 20, "rapids": 1500, "xy_rapids": 400, "operations": 300, "plunges": 300}
ASSUMPTIONS = ["the stock is below the job plane", "a rapid towards the home position (G30) is judged by the height it starts from"]


def gen(rng, i, tier):
    if i % 4 == 0:  # one bigger pocket with islands, many hops
        c = L.gen(rng, tier)
        if c is None:
            return None
        return {"pocket": c}
    c = P.gen_program(rng)
    if rng.random() < 0.2:
        c["ops"].insert(rng.randint(0, len(c["ops"])), P.gen_surface(rng))
    h = rng.choice([None, (5, 2), (12.5, 0.5), (3, 3), (0.75, 0.25), (25, 10)])
    for k in ("rapid_height", "op_safe_height"):
        c["job"].pop(k, None)
    if h:
        c["job"]["rapid_height"], c["job"]["op_safe_height"] = h
    elif c["job"].get("unit") == "IMPERIAL":
        # default imperial heights, program of matching size doesn't matter here
        pass
    return c


def directed():
    sq = {"op": "wire_profile", "depth": 2, "kw": {}, "region": {"outer": S.rect(0, 0, 10, 10), "inners": []}}
    dr = {"op": "drill", "depth": 3, "kw": {}, "points": [[1, 2], [8, 2], [0, 0]], "form": "vectors"}
    pk = {"op": "pocket", "depth": 2, "kw": {}, "region": {"outer": S.rect(0, 0, 30, 30), "inners": [S.circle(5, 5, 3)]}}
    out = []
    for ops in ([sq], [dr], [pk], [sq, dr, pk, dr, sq], [dict(sq, tool={"tool_number": 3}), dict(dr, tool={"tool_number": 4})]):
        for hh in ({}, {"rapid_height": 3, "op_safe_height": 3}, {"unit": "IMPERIAL"}):
            out.append({"frame": {"origin": [1, 2, 3], "x": [1, 0, 0], "n": [0, 0, 1]}, "job": {"feed": 100, "tool_diameter": 3, "precision": 2, **hh}, "ops": ops})
    return out


def run(case, o):
    o.count("surfaces", sum(op["op"] == "surface3d" for op in case.get("ops", [])))
    if "pocket" in case:
        job = L.plan(case["pocket"])
        j = case["pocket"]["job"]
        kinds = ["pocket"]
    else:
        job = P.run(case)[-1]
        j = case["job"]
        kinds = [op["op"] for op in case["ops"]]
    rh, sh = C.rapid_height(j), C.safe_height(j)
    text = job.to_gcode()
    o.gcode = text
    t = gcode.run(text)
    for f in [f for f in t.faults if f.kind in ("syntax", "motion", "unknown_code")][:3]:
        o.bad("unreadable-" + f.kind, f.msg)
    # which operation a section belongs to
    ops = [x for x in job.operations]
    secs = P.sections(t)
    k = 0
    eps = 1e-9 + 0.0006
    n = 0
    for (sec, label), moves in secs.items():
        drill = " - Drill" in label[-8:]
        safe = sh if drill else rh
        floor = 0.0 if drill else sh
        o.count("operations")
        first = moves[0]
        ok = first.is_rapid and "X" not in first.words and "Y" not in first.words and first.end[2] is not None and first.end[2] >= safe - eps
        o.expect(ok, "first-motion", lambda: f"{label}: the first motion is {first.text!r}, not a retract to {safe}")
        for m in moves:
            if not m.is_rapid:
                if m.moves_z and not m.moves_xy:
                    o.count("plunges")
                if m.start[2] is None:
                    o.bad("cut-from-unknown", f"{label}: {m.text!r} cuts from an unknown height")
                continue
            n += 1
            o.count("rapids")
            z0, z1 = m.start[2], m.end[2]
            known_xy = None not in m.start[:2]
            dxy = m.moves_xy
            if dxy:
                o.count("xy_rapids")
                if m.moves_z and z0 is not None:
                    o.bad("diagonal-rapid", f"{label}: {m.text!r} moves in the plane and in Z at once (from z {z0})")
                if z0 is None or z1 is None or min(z0, z1) < safe - eps:
                    o.bad("low-rapid", f"{label}: {m.text!r} is a rapid in the plane at z {z1}, safe height is {safe}")
            if z1 is not None and (z0 is None or z1 < z0) and z1 < floor - eps:
                o.bad("rapid-plunge", f"{label}: {m.text!r} goes down to {z1}, safe height is {floor}")
    for ev in t.events:
        line, kind, val, pos = ev
        if kind == "home" and pos[2] is not None and pos[2] < sh - eps:
            o.bad("g30-below-surface", f"line {line}: G{val} starts from z {pos[2]}")
        if kind == "home":
            o.count("homing")
    o.nontrivial = n >= 5
    o.expect(len(secs) == len([x for x in job.operations if any(hasattr(c, "end") for c in x.commands)]), "sections", "an operation has no motion in the program")
