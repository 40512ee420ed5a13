"""C06: whatever the job, the text is well formed G-code and its numbers are the geometry, rounded to 3 decimals."""
import math
import re

import numpy as np

from .. import common as C
from .. import gcode, geo, proglib as P, shapes as S

PID = "C06"
QUICK, THOROUGH = 500, 10000
RULE = ("random programs (hostile job names, extreme coordinates, fractions at rounding boundaries, numpy numbers) parsed word by word; coordinates of holes and corners compared with the request; "
        "non-trivial: at least one coordinate was compared with the requested geometry")
REQUIRED = {"words": 40000, "coordinates": 2500, "names": 100, "large": 20, "numpy": 20}
ASSUMPTIONS = ["three decimals are the documented resolution"]

NUM = re.compile(r"^-?(0|[1-9]\d*)(\.\d+)?$")
NAMES = ["Bracket", "part (v2)", "a\nG0 Z-50", "M30", "x)y(z", "", "  ", "G91 ; %", "line\r\nM5", "(((", ")))", "äö\u2028G0 Z-9", "\x0bG0 X1", "\x0cM5", "\x85G1 Z-3", "tab\tS100", "%", "N10", "\u2029M5", "\x1cM5", "a" * 300]
HARD = [0, -0.0, 1e-9, -1e-9, 0.0004, 0.0005, 0.0006, -0.0004, -0.0005, -0.0006, 0.0015, 0.1 + 0.2, 1 / 3, -2 / 3, 1e-5, 12345.6785, 99999.9996, -99999.9994, 1e5, 1e6, 123456.789, 1e-16, 2.5e-5, 7.0, 1000, 0.999499, 0.9995, 0.9996]


def gen(rng, i, tier):
    if i % 2:
        pts = []
        for _ in range(rng.choice([1, 3, 8])):
            p = []
            for _ in range(2):
                p.append(rng.choice(HARD) if rng.random() < 0.6 else rng.uniform(-1, 1) * 10 ** rng.choice([-4, -2, 0, 1, 3, 5]))
            pts.append(p)
        job = C.gen_job(rng, tool_diameter=1)
        job["feed"] = rng.choice([200, 200.0, 33.3, 1200, 0.5, 1e3])
        return {"what": "holes", "np": rng.random() < 0.3, "pts": pts, "depth": rng.choice([1, 0.5, 2.0004, 3.0006, 1 / 3, 0.001, 1e-5, 100]), "name": rng.choice(NAMES),
                "frame": C.PLAIN if rng.random() < 0.6 else S.gen_frame(rng), "job": job}
    if i % 4 == 0:
        n = rng.randint(3, 7)
        sc = rng.choice([1, 10, 100, 1000])
        pts = [[sc * math.cos(2 * math.pi * k / n + 0.3) * rng.uniform(0.8, 1.2) + rng.choice([0, 0, 1e4, 1 / 3]), sc * math.sin(2 * math.pi * k / n + 0.3) * rng.uniform(0.8, 1.2)] for k in range(n)]
        return {"what": "corners", "pts": pts, "depth": rng.choice([1, 0.5, 2.0004, 1 / 3]), "name": rng.choice(NAMES), "job": C.gen_job(rng), "frame": C.PLAIN}
    c = P.gen_program(rng)
    c["job"]["name"] = rng.choice(NAMES)
    c["what"] = "program"
    return c


def directed():
    out = []
    for nm in NAMES:
        out.append({"what": "holes", "np": False, "pts": [[1, 2]], "depth": 1, "name": nm, "frame": C.PLAIN, "job": {"feed": 100}})
    for a in HARD:
        out.append({"what": "holes", "np": True, "pts": [[a, -a], [0, a]], "depth": 1, "name": "j", "frame": C.PLAIN, "job": {"feed": 100}})
    return out


def syntax(o, text):
    t = gcode.run(text)
    for f in t.faults[:3]:
        if f.kind in ("syntax", "comment", "modal_clash", "duplicate_word", "motion", "unknown_code", "after_end", "arc"):
            o.bad("syntax-" + f.kind, f"line {f.line}: {f.msg}")
    o.expect(text.splitlines() == text.split("\n") or "\n" not in text, "line-break", lambda: "a line break other than \\n in the program")
    for n, l, v in t.numbers:
        o.count("words")
        if not NUM.match(v):
            o.bad("number", f"line {n}: {l}{v}")
            break
        if l in "XYZIJK" and "." in v and len(v.split(".")[1]) > 3:
            o.bad("decimals", f"line {n}: {l}{v}")
            break
        if l in "TH" and "." in v:
            o.bad("integer", f"line {n}: {l}{v}")
            break
    # every word of the text was read as a word: no exponent, no stray characters
    return t


def run(case, o):
    job = dict(case["job"])
    if "name" in case:
        job["name"] = case["name"]
    o.count("names", case.get("name", job.get("name", "Job")) not in ("Job", "Bracket"))
    if case["what"] == "program":
        text = P.run(dict(case, job=job))[-1].to_gcode()
        o.gcode = text
        syntax(o, text)
        return
    pl = S.plane(case["frame"])
    pts = case["pts"]
    if case["what"] == "holes":
        if case["np"]:
            o.count("numpy")
            for k in ("feed", "tool_diameter", "rapid_height", "op_safe_height"):
                if k in job:
                    job[k] = np.float64(job[k])
        vs = [pl.toWorldCoords((*(map(np.float64, p) if case["np"] else p), 0)) for p in pts]
        j = C.job(job, case["frame"]).drill(vs, depth=np.float64(case["depth"]) if case["np"] else case["depth"])
    else:
        j = C.job(job, case["frame"]).wire_profile(S.place(S.wire(S.seg_poly([tuple(p) for p in pts]), -case["depth"]), pl), offset=0)
    text = j.to_gcode()
    o.gcode = text
    t = syntax(o, text)
    cuts = [m for m in t.moves if not m.is_rapid]
    ends = [m.end for m in cuts]
    z = -case["depth"]
    o.expect(cuts and all(e[2] is not None and abs(e[2] - z) <= 0.000501 for e in ends), "z", lambda: f"cuts at {sorted({e[2] for e in ends})}, requested {z}")
    sc = max([1.0] + [abs(v) for p in pts for v in p] + [abs(v) for v in case["frame"]["origin"]])
    tol = 0.000501 + sc * 1e-12
    for p in pts:
        b = min((max(abs(e[0] - p[0]), abs(e[1] - p[1])) for e in ends if None not in e[:2]), default=math.inf)
        o.count("coordinates", 2)
        o.count("large", sc > 9e4)
        o.expect(b <= tol, "coordinate", lambda: f"{p} is not in the program, the nearest place is {b:.6f} away")
    for e in ends:
        b = min(max(abs(e[0] - p[0]), abs(e[1] - p[1])) for p in pts)
        o.expect(b <= tol, "coordinate", lambda: f"the program cuts to {e}, {b:.6f} away from every requested place")
    # heights of the rapids
    zs = {m.end[2] for m in t.moves if m.is_rapid and m.end[2] is not None}
    ok = [C.rapid_height(job), C.safe_height(job), 0]
    o.expect(all(min(abs(q - k) for k in ok) <= 0.000501 for q in zs), "height", lambda: f"rapids at {sorted(zs)}, the job has {ok}")
    o.nontrivial = True
