"""C11: the program depends on the model relative to the job plane only."""
import numpy as np

from .. import common as C
from .. import gcode, geo, proglib as P, pocketlib as L, shapes as S

PID = "C11"
QUICK, THOROUGH = 200, 3000
RULE = ("each random program is planned in the plain XY plane and twice with model and job plane moved together; depths, heights, path geometry and length of every operation are compared; "
        "non-trivial: the frame is rotated or moved and cuts were compared")
REQUIRED = {"operations": 700, "points": 200000, "tilted": 60, "pockets": 120, "profiles": 250, "drills": 100}
ASSUMPTIONS = ["the order of operations is kept, the start point and direction of loops may differ with the frame"]


def gen(rng, i, tier):
    c = P.gen_program(rng, tools=rng.random() < 0.3)
    c["job"]["precision"] = rng.choice([1, 2])
    c["frame"] = S.gen_frame(rng)
    c["frame2"] = S.gen_frame(rng, scale=rng.choice([1, 20]))
    for op in c["ops"]:
        if op["op"] == "profile" and rng.random() < 0.4:
            op["region"]["outer"] = S.gen_outline(rng, 18, ["bulge", "star", "U", "plus", "spline", "rrect", "slot"])
            op["region"]["inners"] = []
        if "tabs" in op["kw"] and op["op"] != "wire_profile":
            op["kw"].pop("tabs")
    return c


def directed():
    return []


def sets(trace):
    cuts = [m for m in trace.moves if not m.is_rapid and m.moves_xy]
    zs = sorted({round(m.end[2], 3) for m in trace.moves if m.end[2] is not None})
    return cuts, zs


def close_sets(a, b, tol):
    return all(min(abs(x - y) for y in b) <= tol for x in a) and all(min(abs(x - y) for y in a) <= tol for x in b) if a and b else a == b


def compare(o, op, A, B, prec, what):
    a, za = sets(A)
    b, zb = sets(B)
    o.count("operations")
    o.expect(close_sets(za, zb, 0.0021), "heights", lambda: f"{what}: heights {za} in the XY plane, {zb} in the moved one")
    if op["op"] == "drill":
        o.count("drills")
        ha = sorted(m.end for m in A.moves if not m.is_rapid)
        hb = [m.end for m in B.moves if not m.is_rapid]
        o.expect(len(ha) == len(hb) and all(min(max(abs(u - v) for u, v in zip(x, y)) for y in hb) <= 0.0025 for x in ha), "holes", lambda: f"{what}: holes {ha[:3]} / {hb[:3]}")
        return
    if not o.expect(bool(a) == bool(b), "presence", lambda: f"{what}: {len(a)} cutting moves in the XY plane, {len(b)} in the moved one"):
        return
    if not a:
        return
    o.count(op["op"].replace("wire_", "") + "s")
    pocket = op["op"] == "pocket"
    tol = 0.006 + (4 * 10 ** -prec if pocket or op["region"]["outer"]["kind"] == "spline" else 0)
    if pocket:
        # the contours of a pocket may differ in the last step; what has to agree is the outermost and innermost reach
        tol += 0.05
    for lev in za:
        ma = [m for m in a if abs(m.end[2] - lev) < 0.0021]
        mb = [m for m in b if abs(m.end[2] - lev) < 0.0021]
        if not ma and not mb:
            continue
        if not o.expect(ma and mb, "level", lambda: f"{what}: nothing is cut at {lev} in one of the planes"):
            continue
        pa, pb = C.path_points(ma, 0.4), C.path_points(mb, 0.4)
        da, db = geo.path_segs(mb).dist(pa), geo.path_segs(ma).dist(pb)
        o.count("points", len(pa) + len(pb))
        q = 0.99 if pocket else 1.0  # link moves between contours start elsewhere
        da, db = (np.quantile(d, q) for d in (da, db))
        o.expect(max(da, db) <= tol + (0.3 if pocket else 0), "path", lambda: f"{what}: the paths at {lev} are {max(da, db):.4f} apart")
        la, lb = C.length(ma), C.length(mb)
        o.expect(abs(la - lb) <= 0.02 + 0.005 * la + (0.06 * la + 6 if pocket else 0), "length", lambda: f"{what}: path at {lev} is {la:.3f} long in the XY plane, {lb:.3f} in the moved one")


def run(case, o):
    base = dict(case, frame=C.PLAIN)
    ja = P.run(base)
    texts = [C.op_trace(j) for j in ja[1:]]
    for f in ("frame", "frame2"):
        jb = P.run(dict(case, frame=case[f]))
        for k, (op, j, (ta, A)) in enumerate(zip(case["ops"], jb[1:], texts)):
            tb, B = C.op_trace(j)
            o.gcode = "XY plane:\n" + ta + "\nmoved:\n" + tb
            if not (C.check_readable(o, A, ta) and C.check_readable(o, B, tb)):
                return
            n0 = len(o.violations)
            compare(o, op, A, B, case["job"].get("precision", 3), f"operation {k} ({op['op']})")
            if len(o.violations) > n0:
                return
        # the rest of the program is the same text
        strip = lambda j: [l for l in j.to_gcode().split("\n") if not l.startswith(("G0", "G1", "G2", "G3")) or l.startswith("G30")]
        o.expect(strip(ja[-1]) == strip(jb[-1]), "frame-text", "the programs differ in more than their moves")
        n = case[f]["n"]
        o.count("tilted", abs(n[0]) + abs(n[1]) > 1e-9)
        o.nontrivial |= bool(case["ops"])
