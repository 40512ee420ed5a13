"""C20: cuts run at the feed of the job, plunges at the plunge feed, and feeds are given as numbers of the job."""
from .. import common as C
from .. import gcode, proglib as P, pocketlib as L, shapes as S

PID = "C20"
QUICK, THOROUGH = 300, 5000
RULE = ("random programs and pockets with islands, stepdown and tabs; the F word of every feed move is compared with the job; "
        "non-trivial: the job has a plunge feed different from its feed and plunges were judged")
REQUIRED = {"cuts": 15000, "plunges": 1000, "linked_cuts": 1000, "rapids": 2000, "profiles": 30, "splines": 15}
ASSUMPTIONS = ["a feed move down that follows a rapid is a plunge; a feed move between levels without a rapid before it (tabs) is a cut", "drilling uses the feed of the job"]


def gen(rng, i, tier):
    pf = rng.choice([None, 20, 33.3, 60, 5])
    if i % 6 == 1:
        from . import c01

        c = c01.gen(rng, i, tier)
        if i % 12 == 1:
            c["region"] = c01.gen_region(rng, 20, 1, ["spline", "spline", "circle"])
        c["job"] = C.gen_job(rng, precision=rng.choice([1, 2]), feed=rng.choice([100, 250.5, 1000]), tool_diameter=rng.choice([1, 2, 3]))
        c["job"].pop("unit", None)
        c["job"].pop("plunge_feed", None)
        if pf is not None:
            c["job"]["plunge_feed"] = pf
        c["outer"], c["inner"] = rng.choice([(0, 0), (1, -1), (1, 0), (0, None)])
        if c["entry"] in ("wire", "wires"):
            c["outer"] = 0
        kw = c["kw"] = {}
        if rng.random() < 0.4:
            kw["stepdown"] = c["depth"] / 2
        if rng.random() < 0.3:
            kw["tabs"] = {"kind": "wire", "count": 3, "width": 1, "height": c["depth"] / 3}
        return {"profile": c}
    if i % 3 == 0:
        c = L.gen(rng, tier, stepdown=rng.random() < 0.5)
        if c is None:
            return None
        c["job"]["feed"] = rng.choice([100, 250.5, 1000])
        c["job"]["plunge_feed"] = pf
        c["job"]["precision"] = 2 if c["job"].get("precision") == 3 else c["job"].get("precision", 2)
        return {"pocket": c}
    c = P.gen_program(rng)
    c["job"]["plunge_feed"] = pf
    return c


def directed():
    return []


def judge(o, ms, feed, plunge, drill):
    prev_rapid = True
    for m in ms:
        if m.is_rapid:
            o.count("rapids")
            o.expect(m.feed_word is None, "rapid-feed", lambda: f"feed on a rapid: {m.text!r}")
            prev_rapid = True
            continue
        # straight down or not
        down = not m.moves_xy or (None not in (m.start[2], m.end[2]) and m.end[2] < m.start[2] - 0.001)
        want = plunge if (prev_rapid and down and not drill) else feed
        o.count("plunges" if want is plunge and prev_rapid else "cuts")
        if not prev_rapid and not m.is_arc and m.moves_xy:
            o.count("linked_cuts")
        if not o.expect(m.feed == want, "plunge-feed" if prev_rapid else "cut-feed", lambda: f"{m.text!r} runs at {m.feed}, expected {want}"):
            return
        prev_rapid = False


def run(case, o):
    if "pocket" in case:
        j = case["pocket"]["job"]
        case["pocket"]["job"] = {k: v for k, v in j.items() if v is not None}
        job = L.plan(case["pocket"])
        feed, pf = j["feed"], j.get("plunge_feed")
        text, t = C.op_trace(job)
        o.gcode = text
        if C.check_readable(o, t, text):
            judge(o, t.moves, feed, feed if pf is None else pf, False)
        o.nontrivial = pf is not None
        return
    if "profile" in case:
        from . import c01

        j = case["profile"]["job"]
        feed, pf = j["feed"], j.get("plunge_feed")
        job = c01.plan(case["profile"])[0]
        text, t = C.op_trace(job)
        o.gcode = text
        o.count("profiles")
        if C.check_readable(o, t, text):
            o.count("splines", "spline" in str(case["profile"]["region"]))
            judge(o, t.moves, feed, feed if pf is None else pf, False)
        o.nontrivial = pf is not None
        return
    j = dict(case["job"])
    pf = j.pop("plunge_feed", None)
    c = dict(case, job=j)
    if pf is not None:
        j["plunge_feed"] = pf
    jobs = P.run(c)
    model = P.Model(c)
    pf = j["feed"] if pf is None else pf
    o.nontrivial = pf != j["feed"]
    full = []
    for op, jb, s in zip(c["ops"], jobs[1:], model.states):
        text, t = C.op_trace(jb)
        full.append(text)
        o.gcode = text
        if not C.check_readable(o, t, text):
            return
        judge(o, t.moves, s["feed"], pf, op["op"] == "drill")
