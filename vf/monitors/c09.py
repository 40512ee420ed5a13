"""C09: every operation runs with the tool, speed, coolant and feed that its history selected."""
import math

from .. import common as C
from .. import gcode, geo, proglib as P, shapes as S
from ..result import Rejected

PID = "C09"
QUICK, THOROUGH = 400, 6000
RULE = ("random histories of operations with and without a tool (number, diameter, feed, speed set or inherited); a reference model predicts the machine state of every cut of every operation, "
        "the diameter is measured from the offset of the path; non-trivial: at least one tool or speed change took place and was judged")
REQUIRED = {"cuts": 15000, "tool_changes": 300, "speed_changes": 60, "offsets_measured": 250, "inherited": 300}
ASSUMPTIONS = ["the first tool is loaded before the program starts: a tool change is only issued when the number changes"]


def gen(rng, i, tier):
    c = P.gen_program(rng, nops=rng.choice([1, 2, 3, 3, 4, 5, 6]))
    # something to measure the diameter with
    for op in c["ops"]:
        if rng.random() < 0.6:
            dx, dy = S.rnd(rng.uniform(-40, 40), 2), S.rnd(rng.uniform(-40, 40), 2)
            op.clear()
            op.update({"op": rng.choice(["wire_profile", "profile", "pocket"]), "depth": rng.choice([1, 2]), "kw": {}, "region": {"outer": S.rect(dx, dy, 16, 14), "inners": []}, "measure": True})
            if rng.random() < 0.6:
                op["tool"] = P.gen_tool(rng)
    if rng.random() < 0.3:
        for op in c["ops"]:
            if op.get("tool") is not None and rng.random() < 0.5:
                op["tool"] = dict(rng.choice([q["tool"] for q in c["ops"] if q.get("tool") is not None]))
    return c


def directed():
    out = []
    base = {"op": "wire_profile", "depth": 1, "kw": {}, "region": {"outer": S.rect(0, 0, 16, 14), "inners": []}, "measure": True}
    T = [None, {}, {"tool_number": 0}, {"tool_number": 1}, {"tool_number": 2}, {"speed": 5000}, {"speed": 7000}, {"feed": 77}, {"tool_diameter": 1}, {"tool_number": 2, "speed": 5000, "feed": 55, "tool_diameter": 3}]
    for a in T:
        for b in T:
            for j in ({}, {"speed": 7000}, {"tool_number": 0}, {"tool_number": 2, "speed": 5000, "coolant": "FLOOD"}):
                out.append({"frame": C.PLAIN, "job": {"feed": 100, "tool_diameter": 2, **j}, "ops": [dict(base, tool=a), dict(base, tool=b), dict(base)]})
    return out


def run(case, o):
    jobs = P.run(case)
    model = P.Model(case)
    text = jobs[-1].to_gcode()
    o.gcode = text
    t = gcode.run(text)
    for f in [f for f in t.faults if f.kind in ("syntax", "tool", "toolchange_spinning", "toolchange_coolant", "motion", "arc")][:3]:
        o.bad("fault-" + f.kind, f.msg)
    # sections with moves are the operations, in order
    secs = []
    for m in t.moves:
        if not secs or secs[-1][0].section != m.section:
            secs.append([])
        secs[-1].append(m)
    # operations without anything to do have no moves
    kinds = {"profile": "Profile", "wire_profile": "Wire Profile", "pocket": "Pocket", "drill": "Drill"}
    empties = []
    prev = []
    for jb in jobs[1:]:
        empties.append(not [c for c in jb.operations[-1].commands])
    live = [(op, s) for op, s, e in zip(case["ops"], model.states, empties) if not e]
    if not o.expect(len(live) == len(secs), "operations", lambda: f"{len(secs)} operations cut something, expected {len(live)}"):
        return
    cool = {"MIST": "mist", "FLOOD": "flood", None: "off"}[case["job"].get("coolant")]
    start_tool = case["job"].get("tool_number")
    pf0 = case["job"].get("plunge_feed")
    for (op, s), ms in zip(live, secs):
        exp_tool = s["number"] if s["loaded"] else None
        for m in ms:
            st = m.state
            o.count("cuts")
            if not o.expect(st["tool"] == exp_tool, "tool", lambda: f"{op['op']} runs with tool {st['tool']}, expected {exp_tool if exp_tool is not None else 'the initial one'}"):
                break
            if exp_tool is not None:
                o.expect(st.get("H") == exp_tool and st["lengthcomp"] == "43", "tool-length", lambda: f"{op['op']} with tool {exp_tool} runs with length offset {st.get('H')} (G{st['lengthcomp']})")
            if s["speed"] is not None:
                if not o.expect(st["speed"] == s["speed"], "speed", lambda: f"{op['op']} runs at speed {st['speed']}, expected {s['speed']}"):
                    break
            if not o.expect(st["spindle"] == "cw", "spindle", lambda: f"{op['op']} runs with the spindle {st['spindle']}"):
                break
            if not o.expect(st["coolant"] == cool, "coolant", lambda: f"{op['op']} runs with coolant {st['coolant']}, expected {cool}"):
                break
            if not m.is_rapid and m.moves_xy:
                if not o.expect(m.feed == s["feed"], "feed", lambda: f"{m.text!r} cuts at {m.feed}, expected {s['feed']}"):
                    break
        if op.get("measure"):
            cuts = [m for m in ms if not m.is_rapid and m.moves_xy]
            if not o.expect(cuts, "no-cut", f"{op['op']} of a {s['diameter']} tool cuts nothing"):
                continue
            pts = C.path_points(cuts, 0.5)
            d = geo.Segs.of_polygon(S.polygon(op["region"]["outer"])).dist(pts).min()
            o.count("offsets_measured")
            o.expect(abs(d - s["diameter"] / 2) <= 0.004, "diameter", lambda: f"{op['op']} keeps {d:.4f} from the outline, the tool in use has diameter {s['diameter']}")
    nch = sum(s["change"] for s in model.states)
    got = [e for e in t.events if e[1] == "tool"]
    o.expect(len(got) == nch, "tool-changes", lambda: f"{len(got)} tool changes, expected {nch}")
    o.count("tool_changes", len(got))
    o.count("speed_changes", sum(s["respeed"] for s in model.states))
    o.count("inherited", sum(op.get("tool") is None for op in case["ops"]))
    o.nontrivial = bool(nch or any(s["respeed"] for s in model.states))
