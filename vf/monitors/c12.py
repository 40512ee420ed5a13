"""C12: the unit only selects the unit word and the default heights; coordinates are the ones of the model."""
import re

from .. import common as C
from .. import gcode, proglib as P, pocketlib as L, shapes as S

PID = "C12"
QUICK, THOROUGH = 320, 3000
RULE = ("each random program is planned in millimetres and in inches, with explicit and with default heights, and the two texts are compared word by word; "
        "non-trivial: at least ten motion words were compared")
REQUIRED = {"surfaces": 30, "pairs": 300, "words": 50000, "default_heights": 100}
ASSUMPTIONS = ["default heights: 10/1 mm and 0.4/0.04 inch"]


def gen(rng, i, tier):
    c = P.gen_program(rng)
    if rng.random() < 0.2:
        c["ops"].insert(rng.randint(0, len(c["ops"])), P.gen_surface(rng))
    c["job"].pop("unit", None)
    for k in ("rapid_height", "op_safe_height"):
        c["job"].pop(k, None)
    if rng.random() < 0.5:
        c["job"]["rapid_height"], c["job"]["op_safe_height"] = rng.choice([(5, 2), (12.5, 0.5), (3, 3)])
    return c


def directed():
    return []


def run(case, o):
    o.count("surfaces", sum(op["op"] == "surface3d" for op in case.get("ops", [])))
    texts = {}
    for u in ("METRIC", "IMPERIAL"):
        texts[u] = P.run(dict(case, job=dict(case["job"], unit=u)))[-1].to_gcode()
    o.gcode = texts["IMPERIAL"]
    a, b = (gcode.run(texts[u]) for u in ("METRIC", "IMPERIAL"))
    o.count("pairs")
    dflt = "rapid_height" not in case["job"]
    o.count("default_heights", dflt)
    for t, want in ((a, "21"), (b, "20")):
        got = {e[2] for e in t.events if e[1] == "units"}
        o.expect(got == {want}, "unit-word", lambda: f"units selected: {sorted(got)}, expected G{want}")
        # selected before anything moves
        o.expect(all(m.state["units"] == want for m in t.moves), "unit-late", "moves before the unit is selected")
    if not o.expect(len(a.moves) == len(b.moves), "moves", lambda: f"{len(a.moves)} moves in mm, {len(b.moves)} in inches"):
        return
    up = {10.0: 0.4, 1.0: 0.04} if dflt else {}
    for x, y in zip(a.moves, b.moves):
        for k in sorted(set(x.words) | set(y.words)):
            o.count("words")
            u, v = x.words.get(k), y.words.get(k)
            if k == "Z" and x.is_rapid and u in up:
                u = up[u]
            if u != v:
                o.bad("word", f"{x.text!r} in mm, {y.text!r} in inches")
                return
        if not o.expect(x.mode == y.mode, "mode", lambda: f"{x.text!r} / {y.text!r}"):
            return
    strip = lambda s: re.sub(r"Unit\.\w+", "U", s)
    ev = lambda t: [(e[1], e[2]) for e in t.events if e[1] != "units"]
    o.expect(ev(a) == ev(b), "events", "the two programs set up different machine states")
    o.nontrivial = len(a.moves) > 10
