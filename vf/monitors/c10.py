"""C10: jobs are values: an operation returns a new job and never changes an existing one."""
import random

from .. import common as C
from .. import gcode, proglib as P, shapes as S

PID = "C10"
QUICK, THOROUGH = 250, 4000
RULE = ("random trees of jobs: every step applies an operation (with tools, sometimes one that has to fail) to a randomly chosen earlier job; all jobs are rendered again after every step and compared with a job that was built along its own path only; "
        "non-trivial: a job with at least two children was re-rendered")
REQUIRED = {"surfaces": 20, "renders": 4000, "branches": 250, "tool_steps": 200, "failed_steps": 60, "fresh_builds": 400}
ASSUMPTIONS = ["shapes and tab objects are shared between the branches, as a user would"]


def gen(rng, i, tier):
    n = rng.randint(3, 8)
    c = P.gen_program(rng, nops=n)
    if rng.random() < 0.2:
        c["ops"].insert(rng.randint(0, len(c["ops"])), P.gen_surface(rng))
    # few operations, used again and again on different branches
    pool = c["ops"][: rng.randint(1, n)]
    steps = []
    for k in range(n):
        op = dict(rng.choice(pool))
        op["tool"] = P.gen_tool(rng) if rng.random() < 0.5 else None
        if rng.random() < 0.12:
            op = dict(rng.choice(pool), tool=rng.choice([None, P.gen_tool(rng), {"tool_number": 9, "speed": 4321, "feed": 87, "tool_diameter": 0.7}]))
            op["fail"] = rng.choice(["depth", "nothing", "object", "stepdown"])
        op["parent"] = rng.choice([0, 0, rng.randint(0, k), k])
        steps.append(op)
    c["ops"] = []
    c["steps"] = steps
    return c


def directed():
    sq = {"op": "wire_profile", "depth": 2, "kw": {}, "region": {"outer": S.rect(0, 0, 10, 10), "inners": []}}
    dr = {"op": "drill", "depth": 3, "kw": {}, "points": [[1, 2]], "form": "vectors"}
    out = []
    for t in (None, {"feed": 77}, {"tool_diameter": 1}, {"speed": 5000}, {"tool_number": 4}, {"tool_number": 4, "speed": 5000, "feed": 77, "tool_diameter": 1}, {"feed": 77, "tool_diameter": 1}, {}):
        for op in (sq, dr):
            out.append({"frame": C.PLAIN, "job": {"feed": 100, "tool_diameter": 3, "speed": 8000, "tool_number": 1, "coolant": "MIST"}, "ops": [],
                        "steps": [dict(op, tool=t, parent=0), dict(op, tool=None, parent=0), dict(op, tool=t, parent=1), dict(op, tool=None, parent=1), dict(op, tool=t, parent=0)]})
    return out


PUBLIC = ["feed", "speed", "tool_diameter", "tool_number", "name", "plunge_feed", "rapid_height", "op_safe_height", "precision", "unit", "coordinate", "controller_motion", "coolant"]


def snap(job):
    return {k: getattr(job, k, None) for k in PUBLIC}


def fails(job, op, pl):
    """an operation that is refused"""
    t = C.tool(op["tool"]) if op.get("tool") is not None else None
    k = op["fail"]
    import cadquery as cq

    if k == "depth":  # above the job plane
        f = S.place(S.face({"outer": S.rect(0, 0, 20, 20), "inners": []}, 5.0), pl)
        return job.pocket(f, tool=t)
    if k == "nothing":
        return job.profile(S.place(S.face({"outer": S.rect(0, 0, 20, 20), "inners": []}, -1.0), pl), outer_offset=None, inner_offset=None, tool=t)
    if k == "object":
        return job.drill([cq.Vertex.makeVertex(0, 0, 0)], depth=1, tool=t)
    return job.wire_profile(S.place(S.wire(S.rect(0, 0, 20, 20), -50), pl), stepdown=0.01, tool=t)


def run(case, o):
    o.count("surfaces", sum(op["op"] == "surface3d" for op in case["steps"]))
    pl = S.plane(case["frame"])
    jobs, paths, texts, snaps = [C.job(case["job"], case["frame"])], [[]], [], []
    texts.append(jobs[0].to_gcode())
    snaps.append(snap(jobs[0]))
    kids = [0]
    shapes = {}
    for k, op in enumerate(case["steps"]):
        parent = op["parent"] % len(jobs)
        before = [len(j.operations) for j in jobs]
        if op.get("fail"):
            try:
                fails(jobs[parent], op, pl)
            except Exception:
                o.count("failed_steps")
            else:
                o.bad("accepted", f"a request that can't be served ({op['fail']}) was accepted")
        else:
            key = repr({q: op[q] for q in op if q not in ("tool", "parent")})
            if key not in shapes:
                shapes[key] = P.shapes_of(op, pl)
            new = P.apply(jobs[parent], op, pl, shapes[key])
            o.expect(all(new is not j for j in jobs), "same-object", "an operation returned an existing job")
            jobs.append(new)
            paths.append(paths[parent] + [k])
            kids[parent] += 1
            kids.append(0)
            o.count("tool_steps", op.get("tool") is not None)
        for q in range(len(texts)):
            o.count("renders")
            if jobs[q].to_gcode() != texts[q]:
                o.bad("changed-program", f"step {k} ({op['op']}{' refused' if op.get('fail') else ''} on job {parent}) changed the program of job {q}")
                return
            s = snap(jobs[q])
            if s != snaps[q]:
                d = {a: (snaps[q][a], s[a]) for a in s if s[a] != snaps[q][a]}
                o.bad("changed-setting", f"step {k} ({op['op']} on job {parent}) changed job {q}: {d}")
                return
            if len(jobs[q].operations) != before[q]:
                o.bad("changed-operations", f"step {k} added operations to job {q}")
                return
        if len(texts) < len(jobs):
            texts.append(jobs[-1].to_gcode())
            snaps.append(snap(jobs[-1]))
    # a job only depends on its own path
    for q in range(1, len(jobs)):
        j = C.job(case["job"], case["frame"])
        for k in paths[q]:
            j = P.apply(j, case["steps"][k], pl)
        o.count("fresh_builds")
        if j.to_gcode() != texts[q]:
            a, b = j.to_gcode().split("\n"), texts[q].split("\n")
            d = next((x for x in zip(a, b) if x[0] != x[1]), (len(a), len(b)))
            o.bad("path-dependence", f"job {q} differs from the same operations on a job of its own: {d}")
            return
    o.count("branches", sum(k > 1 for k in kids))
    o.nontrivial = any(k > 1 for k in kids)
