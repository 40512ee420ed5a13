"""C16: the program is a function of the request: repeatable, saved verbatim, inputs left alone."""
import json
import os
import subprocess
import sys
import tempfile

from .. import boot
from .. import common as C
from .. import proglib as P, pocketlib as L, shapes as S

PID = "C16"
QUICK, THOROUGH = 240, 2500
RULE = ("random programs planned again in the same process (fresh and re-used shapes, tabs and tool objects, after other work), in fresh processes with different hash seeds, and series of small requests whose shapes are released or kept; "
        "non-trivial: a program with cuts was planned at least twice and compared byte by byte")
REQUIRED = {"surfaces": 10, "replans": 400, "saved": 150, "inputs_checked": 250, "reused_tabs": 8, "reused_avoids": 8, "fresh_processes": 6, "series": 2000, "meshed": 100}
ASSUMPTIONS = ["files are written with the default text encoding of the system (utf-8 here)"]
CASE_LIMIT = 200


def gen(rng, i, tier):
    if i % 4 == 3:
        c = L.gen(rng, tier)
        if c is None:
            return None
        c["job"]["precision"] = min(2, c["job"].get("precision", 2)) if c["job"].get("unit") != "IMPERIAL" else c["job"].get("precision", 2)
        return {"pocket": c}
    c = P.gen_program(rng)
    if rng.random() < 0.2:
        c["ops"].insert(rng.randint(0, len(c["ops"])), P.gen_surface(rng))
    if rng.random() < 0.2:
        c["job"]["name"] = rng.choice(["äö ü", "part (2)", "a\nb", "100 %"])
    return c


def directed():
    import random

    out = []
    for k in range(8):  # planned by other processes
        rng = random.Random(k)
        cs = [gen(rng, q, "quick") for q in range(6)]
        out.append({"processes": [c for c in cs if c]})
    for k in ("profile", "wire_profile", "pocket", "pocket"):  # many shapes at once
        q = [{"outer": S.rect(14 * (i % 4), 14 * (i // 4), 8, 9), "inners": [], "dz": 0.5 * (i % 3) * (len(out) % 2)} for i in range(8)]
        out.append({"frame": C.PLAIN, "job": {"feed": 200, "tool_diameter": 2, "precision": 2}, "ops": [{"op": k, "depth": 2, "kw": {}, "region": q[0], "more": q[1:]}]})
        if k == "profile":
            out.append(dict(out[-1], ops=[dict(out[-1]["ops"][0], form="wires")]))
    for k in range(4):  # a long series of small requests
        rng = random.Random(100 + k)
        job = {"feed": 200, "tool_diameter": 2, "precision": 3 - k % 2}
        kinds = [["pocket"], ["profile", "profile", "pocket"], ["wire_profile"], ["pocket", "pocket", "profile", "wire_profile", "drill"]][k]
        out.append({"series": [small(rng, job, [(10, 8)], kinds) for _ in range(800)]})
    return out


def small(rng, job, sizes, kinds):
    w, h = rng.choice(sizes)
    x, y, a = S.rnd(rng.uniform(-30, 30), 1), S.rnd(rng.uniform(-30, 30), 1), rng.choice([0, 0, 0, 1.5707963267948966])
    k = rng.choice(kinds)
    op = {"op": k, "depth": rng.choice([1, 1, 2]), "kw": {}}
    if k == "drill":
        op.update(points=[[x, y], [S.rnd(x + w), y]], form=rng.choice(["wires", "faces"]))
    else:
        hole = [S.rect(x, y, 3, 3, a)] if k != "wire_profile" and rng.random() < 0.2 else []
        op["region"] = {"outer": S.rect(x, y, w, h, a), "inners": hole}
    return {"frame": C.PLAIN, "job": job, "ops": [op]}


def program(case):
    if "pocket" in case:
        return L.plan(case["pocket"]).to_gcode()
    return P.run(case)[-1].to_gcode()


def geometry(shape):
    """what a user can see of a shape (the kernel caches derived data inside of it)"""
    e = [(q.geomType(), str(q.wrapped.Orientation()), [tuple(round(v, 9) for v in q.positionAt(u).toTuple()) for u in (0, 0.3, 1)]) for q in shape.Edges()]
    return shape.ShapeType(), str(shape.wrapped.Orientation()), shape.location().toTuple(), e, [tuple(round(v, 9) for v in q.Center().toTuple()) for q in shape.Faces()]


def objects(arg):
    import cadquery as cq

    if isinstance(arg, cq.Workplane):
        return list(arg.objects)
    return list(arg) if isinstance(arg, (list, tuple)) else [arg]


def fingerprint(arg):
    import cadquery as cq

    return [q.toTuple() if isinstance(q, cq.Vector) else geometry(q) for q in objects(arg)]


CHILD = """
import sys, json, hashlib, os
sys.path.insert(0, sys.argv[1])
out = os.dup(1); n = os.open(os.devnull, os.O_WRONLY); os.dup2(n, 1)
from vf import boot; boot.load()
from vf.monitors import c16
r = [c16.program(json.loads(json.dumps(c))) for c in json.load(sys.stdin)]
os.write(out, json.dumps(r).encode())
"""


def series(case, o):
    """shapes made and released one by one, then all of them kept: what was planned before has no influence"""
    made = []
    for c in case["series"]:
        made.append(program(json.loads(json.dumps(c))))
    pl = S.plane(C.PLAIN)
    ops = [c["ops"][0] for c in case["series"]]
    kept = [P.shapes_of(op, pl) for op in ops]
    for k in reversed(range(len(ops))):
        c = case["series"][k]
        t = getattr(C.job(c["job"], c["frame"]), ops[k]["op"])(kept[k], **P.kwargs(ops[k], pl)).to_gcode()
        o.count("series")
        if not o.expect(t == made[k], "history", lambda: f"request {k} of the series was planned differently before: {diff(made[k], t)}"):
            break
    o.nontrivial = True


def run(case, o):
    o.count("surfaces", sum(op["op"] == "surface3d" for op in case.get("ops", [])))
    if "series" in case:
        return series(case, o)
    if "processes" in case:
        mine = [program(json.loads(json.dumps(c))) for c in case["processes"]]
        root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        for hs in ("0", "1", "4242"):
            env = dict(os.environ, PYTHONHASHSEED=hs)
            p = subprocess.run([sys.executable, "-c", CHILD, root], input=json.dumps(case["processes"] if hs != "1" else case["processes"][::-1]).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=150)
            if p.returncode:
                raise RuntimeError("child failed: " + p.stderr.decode()[-500:])
            # OCCT's own thread/pools don't print to the saved descriptor
            got = json.loads(p.stdout)
            if hs == "1":
                got = got[::-1]
            o.count("fresh_processes")
            o.expect(got == mine, "process", lambda: f"another process (hash seed {hs}) planned a different program")
        o.nontrivial = True
        return
    first = program(json.loads(json.dumps(case)))
    o.gcode = first
    again = program(json.loads(json.dumps(case)))
    o.count("replans")
    o.expect(first == again, "repeat", "planning the same request twice gave two programs")
    if "pocket" in case:
        o.nontrivial = "G1" in first
        return
    # the same shapes, tabs and tools used twice
    pl = S.plane(case["frame"])
    args = [P.shapes_of(op, pl, True) for op in case["ops"][::-1]][::-1]
    kws = [P.kwargs(op, pl) for op in case["ops"]]
    o.count("reused_tabs", sum("tabs" in k for k in kws))
    o.count("reused_avoids", sum("avoid_areas" in k for k in kws))
    given = args + [k["avoid_areas"] for k in kws if "avoid_areas" in k]
    before = [fingerprint(a) for a in given]
    tools = [dict(vars(k["tool"])) if "tool" in k else None for k in kws]
    lens = [len(objects(a)) for a in given]
    for rnd in (1, 2, 3):
        j = C.job(case["job"], case["frame"])
        for op, a, kw in zip(case["ops"], args, kws):
            j = getattr(j, op["op"])(a, **kw)
        t = j.to_gcode()
        o.count("replans")
        if not o.expect(t == first, "reuse", lambda: f"use {rnd} of the same shapes, tabs and tools gave another program: {diff(first, t)}"):
            break
        o.expect(j.to_gcode() == t, "render", "rendering the same job twice gave two programs")
        # tabs used elsewhere in between (another outline)
        for kw in kws:
            if "tabs" in kw:
                C.job(case["job"], case["frame"]).wire_profile(S.place(S.wire(S.circle(3, 3, 9), -4), pl), tabs=kw["tabs"])
    for a, b, n in zip(given, before, lens):
        o.count("inputs_checked")
        o.expect(fingerprint(a) == b and len(objects(a)) == n, "input-changed", "an operation changed the shapes it was given")
    import cadquery as cq

    # shown in a viewer, which meshes them
    for a in given:
        for q in objects(a):
            if isinstance(q, cq.Shape) and q.Faces():
                q.tessellate(0.05, 0.2)
                o.count("meshed")
    j2 = C.job(case["job"], case["frame"])
    for op, a, kw in zip(case["ops"], args, kws):
        j2 = getattr(j2, op["op"])(a, **kw)
    o.expect(j2.to_gcode() == first, "meshed", lambda: f"the program is another one once the shapes were shown: {diff(first, j2.to_gcode())}")
    for kw, tv in zip(kws, tools):
        if tv is not None:
            o.expect(vars(kw["tool"]) == tv, "tool-changed", lambda: f"the tool was {tv} and now is {vars(kw['tool'])}")
    # saved
    with tempfile.TemporaryDirectory(prefix="vf-c16-") as d:
        f = os.path.join(d, "out.nc")
        with open(f, "w") as fh:
            fh.write("x" * 100000 * (len(first) % 2))  # an older, longer file
        j.save_gcode(f)
        o.count("saved")
        got = open(f, newline="").read()
        o.expect(got == t, "save", lambda: f"the saved file differs from the program ({len(got)} and {len(t)} characters)")
        o.expect(os.listdir(d) == ["out.nc"], "save-files", lambda: f"saving left {os.listdir(d)}")
    o.nontrivial = "G1" in first


def diff(a, b):
    a, b = a.split("\n"), b.split("\n")
    return next((x for x in zip(a, b) if x[0] != x[1]), (len(a), len(b)))
