"""C08: the program sets up the machine before it moves and shuts it down at the end."""
from .. import common as C
from .. import gcode, proglib as P, shapes as S

PID = "C08"
QUICK, THOROUGH = 300, 5000
RULE = ("the whole matrix of unit x work offset x motion mode x coolant (directed) plus random programs; every motion is judged against the modal state the recorded text has established; "
        "non-trivial: at least one cutting move was judged")
REQUIRED = {"motions": 8000, "matrix": 108, "programs": 400, "tool_changes": 60, "empty_programs": 10}
ASSUMPTIONS = ["RS274 modal groups, G91.1 (relative arc centres) is the power on default of the controller"]

UNITS = {"METRIC": "21", "IMPERIAL": "20"}
MODES = {"EXACT_PATH": "61", "EXACT_STOP": "61.1", "CONTINUOUS": "64"}
COOL = {"MIST": "mist", "FLOOD": "flood", None: "off"}


def gen(rng, i, tier):
    c = P.gen_program(rng, nops=rng.choice([0, 1, 1, 2, 3, 4]) or None)
    if rng.random() < 0.04:
        c["ops"] = []
    if rng.random() < 0.3:
        c["job"]["name"] = rng.choice(["Bracket", "part (v2)", "a\nG0 Z-50", "M30", "x)y(z", "", "  ", "G91 ; %", "line\r\nM5", "(((", ")))", "\u00e4\u00f6 \u2028G0 Z-9", "tab\tS100"])
    return c


def directed():
    out = []
    sq = {"op": "wire_profile", "depth": 2, "kw": {}, "region": {"outer": S.rect(0, 0, 10, 10), "inners": []}}
    dr = {"op": "drill", "depth": 3, "kw": {}, "points": [[1, 2]], "form": "vectors"}
    for u in UNITS:
        for w in range(1, 7):
            for m in MODES:
                for c in COOL:
                    j = {"feed": 100, "tool_diameter": 2, "unit": u, "coordinate": f"OFFSET_{w}", "controller_motion": m, "matrix": 1}
                    if c:
                        j["coolant"] = c
                    if w % 2:
                        j["speed"] = 9000
                    ops = [sq, dr] if w % 3 else [sq, dict(dr, tool={"tool_number": 5})]
                    out.append({"frame": C.PLAIN, "job": j, "ops": ops})
    for u in UNITS:
        out.append({"frame": C.PLAIN, "job": {"feed": 100, "tool_diameter": 2, "unit": u}, "ops": []})
    for _ in range(10):
        out.append({"frame": C.PLAIN, "job": {"feed": 100 + _, "tool_diameter": 2}, "ops": []})
    return out


def run(case, o):
    case = dict(case, job=dict(case["job"]))
    matrix = case["job"].pop("matrix", None)
    j = case["job"]
    text = P.run(case)[-1].to_gcode()
    o.gcode = text
    t = gcode.run(text)
    for f in t.faults[:4]:
        if f.kind in ("syntax", "unknown_code", "modal_clash", "duplicate_word", "motion", "after_end", "comment", "tool"):
            o.bad("fault-" + f.kind, f"line {f.line}: {f.msg}")
    o.count("programs")
    o.count("matrix", bool(matrix))
    o.count("empty_programs", not case["ops"])
    want = {
        "plane": "17", "distance": "90", "feedmode": "94", "radiuscomp": "40",
        "units": UNITS[j.get("unit", "METRIC")],
        "wcs": str(53 + int(j.get("coordinate", "OFFSET_1")[-1])),
        "planner": MODES[j.get("controller_motion", "CONTINUOUS")],
        "spindle": "cw", "coolant": COOL[j.get("coolant")],
    }
    nbad = 0
    for m in t.moves:
        o.count("motions")
        for k, v in want.items():
            if m.state.get(k) != v and nbad < 5:
                nbad += 1
                o.bad("modal-" + k, f"{m.text!r} runs with {k} = {m.state.get(k)}, the job asks for {v}")
        o.expect(m.state.get("arcdist") != "90.1", "modal-arcdist", lambda: f"{m.text!r} runs with absolute arc centres")
        if not m.is_rapid:
            o.nontrivial = True
            o.expect(m.feed, "no-feed", lambda: f"{m.text!r} cuts without a feed rate")
    # the end of the program
    f = t.final
    o.expect(t.ended, "no-end", "the program has no M2/M30")
    o.expect(f["spindle"] == "off", "end-spindle", f"spindle is {f['spindle']} at the end")
    o.expect(f["coolant"] in ("off", None), "end-coolant", f"coolant is {f['coolant']} at the end")
    ends = [e for e in t.events if e[1] == "stop" and e[2] in ("2", "30")]
    o.expect(len(ends) == 1, "end-count", f"{len(ends)} program ends")
    # between set up and shut down the unit / work offset never change
    for k in ("units", "wcs", "planner", "plane", "distance"):
        vals = {e[2] for e in t.events if e[1] == k}
        o.expect(vals == {want[k]}, "setting-" + k, lambda: f"program selects {k} {sorted(vals)}, expected {want[k]}")
    # spindle/coolant are stopped before the tool is changed and run again afterwards (interpreter faults)
    for q in t.faults:
        if q.kind in ("toolchange_spinning", "toolchange_coolant"):
            o.bad("fault-" + q.kind, f"line {q.line}: {q.msg}")
    o.count("tool_changes", len([e for e in t.events if e[1] == "tool"]))
    # every operation of the job is in the program, in order
    labels = [l for _, l in t.labels]
    o.expect(len(labels) >= 1, "header", "no header comment")
