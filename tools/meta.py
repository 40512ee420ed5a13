"""Writes properties.jsonl and MANIFEST.json (run from /verif: python3 tools/meta.py)."""
import json
import os

SRC = "src/cq_cam/"
# id, title, statement, over, quantifier, why, files, mechanisms[(name, where)], technique, note
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": [SRC + f for f in files], "mechanism": [{"name": n, "where": SRC + w} for n, w in mech],
                           "observe_at": ["text of Job.to_gcode() / Operation.to_gcode(), executed by an independent RS274 interpreter"], "hook_needed": None},
                  technique=technique, note=note))


TRUST = "Random and directed executions only: says nothing about inputs not generated. Trusts shapely/GEOS for the reference geometry, the interpreter vf/gcode.py and the CAD kernel that builds the inputs. "

prop("C01", "Profiles follow the outline at exactly the requested offset, on the right side",
     "A profile (of a face, solid face, Workplane selection or wire, in any job plane) cuts closed loops at the requested depth whose every point is the requested multiple of the tool radius away from the outline, outside for positive and inside for negative multiples, and which together cover the whole offset outline exactly once. No outline or hole is dropped and inner outlines are cut before the outer one.",
     ["inputs", "configurations"], "all planar outlines (lines, arcs, circles, splines), holes, entry points, job planes, tool sizes and offsets for which the offset curve is well conditioned",
     "The tests compare a handful of boxes with pinned programs; offset side, orientation, seams and frames vary over a continuum of shapes.",
     ["operations/profile.py", "utils/geometry_op.py", "utils/circle_bug_workaround.py", "utils/utils.py", "routers.py"],
     [("offset of the wire", "operations/profile.py:profile"), ("circle workaround", "utils/circle_bug_workaround.py"), ("edge routing", "routers.py:route_wires")],
     "runtime monitoring: trace of the executed G-code against an independent distance oracle", TRUST + "Offsets at a topology change or beyond the curvature of free form curves are outside the domain.")
prop("C02", "Pocketing never cuts into walls, islands or avoided areas",
     "While a pocket is cut (any depth, feed or link move included) the tool never comes closer to the boundary of the pocket area, to its islands or to avoid areas than the offsets ask for, wherever it travels below the job plane.",
     ["inputs", "configurations"], "all pocket areas with islands and avoid areas, tool sizes, stepovers, offsets, stepdowns, job planes and units",
     "A gouge shows only for particular geometry (islands, far contours, merged offsets); tests pin a few rectangles.",
     ["operations/pocket.py", "utils/geometry_op.py", "routers.py", "utils/tree.py"],
     [("contour construction", "operations/pocket.py"), ("offset of poly faces", "utils/geometry_op.py"), ("linking of contours", "routers.py:route_polyface_outers")],
     "runtime monitoring: swept-tool clearance oracle over the executed trace", TRUST)
prop("C03", "Pockets are cleared completely",
     "After a pocket operation every point of the floor that the tool can reach without violating the boundary has been covered by the tool at the full depth, and the walls of the pocket, its islands and avoided areas have been followed.",
     ["inputs", "configurations"], "as C02, stepovers up to the tool radius",
     "Missing stripes and dropped contours appear for particular shapes and stepovers only.",
     ["operations/pocket.py", "utils/geometry_op.py", "utils/linked_polygon.py", "routers.py"],
     [("contour stepping until nothing is left", "operations/pocket.py"), ("routing of all contours", "routers.py:route_polyface_outers")],
     "runtime monitoring: coverage oracle (sampled floor and wall points against the recorded path)", TRUST)
prop("C04", "Stepdown bounds every pass and the last pass is at full depth",
     "With a stepdown, every outline and pocket is cut in flat passes of strictly increasing depth, none deeper than one stepdown below what has already been cut there, none in the air (an area nested in shallower ones is only cut below the floor of the shallower), the last one at exactly the requested depth.",
     ["inputs", "configurations"], "all depths, stepdowns, outlines, pockets, job planes",
     "Rounding of depth/stepdown ratios and the position of the job plane decide; tests use one ratio.",
     ["operations/profile.py", "operations/pocket.py"], [("profile layers", "operations/profile.py:profile"), ("depth map", "operations/pocket.py:generate_depth_map")],
     "runtime monitoring: pass-by-pass engagement oracle over the trace", TRUST)
prop("C05", "Rapid moves never pass through material",
     "Every rapid move sideways happens at or above the clearance the job asks for, every rapid downwards ends above material that is still there, and homing starts above the stock.",
     ["inputs", "histories", "configurations"], "all programs of profile, pocket and drill operations, heights, units, tools and tabs",
     "Needs the state the previous operation left behind, for every sequence of operations.",
     ["routers.py", "operations/drill.py", "command.py", "fluent.py"], [("retract/rapid/plunge", "routers.py:rapid_to"), ("hole to hole", "operations/drill.py")],
     "runtime monitoring: rapid-height monitor on the executed program", TRUST)
prop("C06", "Programs are well formed G-code and numbers are the geometry to 3 decimals",
     "Whatever the job name, coordinates and number types, each line of the program is valid RS274 (comments on one line and not nested, no exponents, no group used twice, coordinates with at most three decimals) and every coordinate is within half a unit of the third decimal of the requested geometry.",
     ["inputs", "programs"], "all job names, coordinates from 1e-16 to 1e6, numpy and python numbers, depths",
     "Rounding and formatting corner cases are unbounded; tests format a few numbers.",
     ["address.py", "command.py", "fluent.py", "utils/utils.py"], [("number formatting", "address.py:GCodeWordPrecision"), ("comments", "fluent.py:comment")],
     "runtime monitoring: independent RS274 parser plus coordinate oracle", TRUST)
prop("C07", "Every arc is executable and stays on the curve it replaces",
     "Every G2/G3 in a program has the same radius at both ends (up to rounding), lies in one horizontal plane, never degenerates into a full circle by rounding, turns in the direction of the outline, and stays on the outline at every point between its ends.",
     ["inputs", "configurations"], "arcs and circles of radius 0.005 to 5000, any sweep and orientation, join arcs of offsets, arcs cut by tabs, mirrored and moved frames",
     "Direction and rounding failures depend on size, orientation and location of each arc.",
     ["routers.py", "command.py", "utils/utils.py"], [("arc routing", "routers.py:route_edge"), ("direction", "utils/utils.py:is_arc_clockwise2"), ("relative centre", "command.py:Circular")],
     "runtime monitoring: arcs executed by an independent controller model", TRUST)
prop("C08", "Programs configure the machine before moving and shut it down at the end",
     "In every program the unit, work offset, motion mode, plane, distance and feed modes of the job are selected before the first move and stay selected for all of them; spindle and coolant run as configured during all moves, are off during tool changes and at the end, and the program ends exactly once.",
     ["configurations", "programs", "histories"], "all combinations of unit, work offset, motion mode, coolant, speed and histories of operations",
     "The tests pin single configurations.",
     ["command.py", "fluent.py", "groups.py"], [("safety block", "command.py:SafetyBlock"), ("program frame", "fluent.py:Job.to_gcode")],
     "runtime monitoring: modal state monitor over every motion", TRUST)
prop("C09", "Operations run with the tool, speed, coolant and feed their history selects",
     "For every history of operations with optional tools, each operation is machined with the tool number, length offset, spindle speed, coolant, cutting feed and tool diameter that the latest settings define; a tool change is emitted exactly when the tool number changes.",
     ["histories", "configurations"], "all histories of operations with partially specified tools",
     "State carried across operations: the tests try a few pairs.",
     ["fluent.py", "command.py", "tool.py"], [("tool update", "fluent.py:Job.update_tool"), ("tool change", "command.py:ToolChange")],
     "runtime monitoring: reference state machine in lockstep with the executed program", TRUST)
prop("C10", "Jobs are immutable values: operations never change an existing job",
     "Applying an operation (successful or refused) to a job never changes the program, settings or operations of that job or of any other existing job, and the resulting job depends only on its own path of operations, not on its siblings.",
     ["histories"], "all trees of operations with tools, shared shapes and refused requests",
     "Aliasing between branches shows only for particular histories.",
     ["fluent.py"], [("copy on operation", "fluent.py:Job._add_operation"), ("tool update", "fluent.py:Job.update_tool")],
     "runtime monitoring: all live jobs re-observed after each step of a random history", TRUST)
prop("C11", "Programs are relative to the job plane only",
     "Moving or rotating the model together with the job plane does not change the machined paths, depths and heights: the program depends only on the geometry relative to the job plane.",
     ["inputs", "configurations"], "all job planes and programs of profile, pocket and drill operations",
     "Metamorphic over all rigid motions; tests use the XY plane.",
     ["fluent.py", "operations/profile.py", "operations/pocket.py", "operations/drill.py", "utils/geometry_op.py"], [("transformation into the job plane", "operations/profile.py:profile"), ("depths", "operations/pocket.py"), ("hole places", "operations/drill.py")],
     "runtime monitoring: differential traces of the same model in different job planes", TRUST)
prop("C12", "The unit only selects the unit word and the default heights",
     "Planning the same job in inches instead of millimetres yields the same moves, feeds and machine states; only the unit word and the default rapid and safe heights differ.",
     ["configurations", "programs"], "all programs and both units, explicit and default heights",
     "Tests render one imperial job.",
     ["fluent.py", "command.py"], [("default heights", "fluent.py:Job.__init__"), ("unit word", "command.py:SafetyBlock")],
     "runtime monitoring: differential traces of the two units", TRUST)
prop("C13", "Every requested hole is drilled exactly once, at its place, to its depth",
     "Drilling visits each requested point, outline centre, or hole of a face exactly once, straight down to the requested depth below the job plane, moving between holes above the stock; nothing else is drilled.",
     ["inputs", "configurations"], "all hole patterns (duplicates and ties included) given as vectors, wires, faces, solids' faces or Workplanes, in any job plane",
     "The reordering of holes and coordinate transformation range over all patterns and planes; one test has one hole set.",
     ["operations/drill.py", "operations/strategy.py"], [("collection and ordering", "operations/drill.py:Drill.__post_init__"), ("nearest neighbour", "operations/strategy.py:Strategy._pick_nearest")],
     "runtime monitoring: conservation (exactly-once) checker over the trace", TRUST)
prop("C14", "Holding tabs are left at the requested height, width and number",
     "With tabs, passes below the tab height are raised to exactly the tab height over the requested number and total width of evenly spaced stretches with vertical sides, and are otherwise the very path that is cut without tabs; passes above the tabs are unchanged.",
     ["inputs", "configurations"], "all outlines, wire and edge tabs of any count, width and spacing (overlaps, corners, seams), stepdowns, job planes",
     "Where tabs fall relative to corners and the start of the wire decides; tests have one outline.",
     ["operations/tabs.py", "operations/profile.py"], [("tab intervals", "operations/tabs.py"), ("slicing and projecting", "operations/profile.py:apply_tabs")],
     "runtime monitoring: interval accounting on the trace against the untabbed trace and an interval model", TRUST)
prop("C15", "The visualization shows the moves of the program",
     "Every cut and every rapid of an operation whose start it knows is offered to the viewer, in order, as a line or arc of the same shape at the same place in the job plane, once, and nothing else is; showing a job doesn't change it.",
     ["inputs", "programs", "configurations"], "all programs and job planes",
     "No test looks at the shapes.",
     ["visualize.py", "command.py", "fluent.py"], [("edges", "visualize.py:visualize_job_as_edges"), ("shapes of commands", "command.py:to_ais_shape")],
     "runtime monitoring: shapes handed to a recording viewer matched with the executed text", TRUST)
prop("C16", "Planning is repeatable, saving is verbatim, inputs are left alone",
     "Planning the same request again, with the same or fresh shape, tab and tool objects, after other work or in another process with another hash seed, gives the identical program; a saved file holds exactly that program; the shapes and tools passed in are unchanged.",
     ["histories", "inputs", "schedules"], "all programs, object reuse patterns and processes",
     "Tests plan each request once.",
     ["fluent.py", "operations/tabs.py", "utils/utils.py", "operations/pocket.py"], [("saving", "fluent.py:Job.save_gcode"), ("tab state", "operations/tabs.py"), ("caches", "utils/utils.py")],
     "runtime monitoring: byte comparison of repeated executions and input fingerprints", TRUST)
prop("C17", "3D surfacing stays above the model surface and reaches all of it",
     "A 3D surface operation never moves the tool below the lowest position at which it touches the model (between two computed positions: lower than a tool smaller by the interpolation step could go), stays inside the requested boundary offset, travels between cuts above the job plane, removes at most one stepdown at once, and ends up in contact with the model next to every point below the job plane, along scanlines that are one stepover apart.",
     ["inputs", "configurations"], "rectangular, rounded and round models below the job plane with pockets, bosses, slopes and curved features, single pocket floors, flat and ball tools, stepovers, stepdowns, boundary offsets, interpolation steps, job planes",
     "The only test of the operation needs a library that is often missing and compares one flat face; whether the tool touches the model depends on the shape, the tool and the plane.",
     ["operations/op3d.py", "operations/strategy.py", "operations/base_operation.py", "utils/linked_polygon.py", "utils/utils.py"],
     [("surface operation", "operations/op3d.py:Surface3D"), ("meshing", "operations/op3d.py:Surface3D.shape_to_triangles"), ("zigzag", "operations/strategy.py:ZigZagStrategy"), ("clipping of scanlines", "utils/utils.py:WireClipper")],
     "runtime monitoring: trace of the executed G-code against the height function of the model, with a stand-in for the absent drop cutter library", TRUST + "The third party library opencamlib is not installed: a stand-in of the same interface (vf/standin) drops the tools; cq-cam itself runs unchanged. The missing feed of the operation is a known finding.")
prop("C19", "Requests that cannot be machined are refused, never silently mis-machined",
     "A profile or pocket without a tool diameter or without any offset, an outline or area that is not parallel to the job plane, a pocket or avoided area above it, an outline that takes more than 100 passes, a stepover of zero or less, a negative stepdown, a 3D surface without faces, drilling without objects or depth, unsupported objects, and edge tabs spaced no wider than they are: each raises an error in bounded time instead of producing a program, and leaves the job unchanged and usable. Requests just inside these limits are served.",
     ["inputs", "histories"], "all kinds of invalid requests, on jobs with any history",
     "Tests cover two error paths.",
     ["fluent.py", "operations/pocket.py", "operations/drill.py", "operations/tabs.py", "operations/profile.py"], [("argument checks", "fluent.py:Job.profile"), ("depth map", "operations/pocket.py:generate_depth_map"), ("flat areas", "utils/geometry_op.py:PathFace.from_cq_face"), ("tab checks", "operations/tabs.py")],
     "runtime monitoring: fault injection of invalid requests, observing refusal, job state and the next request", TRUST)
prop("C20", "Cuts run at the cutting feed, plunges at the plunge feed",
     "Every cutting move runs at the feed of the job (or of the tool selected for the operation), every plunge after a rapid at the plunge feed, and rapids carry no feed; drilling runs at the cutting feed.",
     ["inputs", "histories", "configurations"], "all programs and feed settings",
     "Tests pin programs where both feeds are equal or single moves.",
     ["routers.py", "fluent.py", "operations/drill.py", "command.py"], [("feeds of routed moves", "routers.py"), ("plunge", "routers.py:rapid_to")],
     "runtime monitoring: feed monitor over every move of the trace", TRUST)
prop("C21", "Pockets of the CadQuery based engine neither gouge nor leave material",
     "The alternative pocket engine (pocket(engine=\"cq\")) obeys the guarantees of the default one: the tool never comes closer to walls, islands and avoid areas than the offsets ask for, clears the whole floor it can reach at the full depth including the walls, and moves sideways only above the stock or inside the pocket; with several areas in one request, each is cut to its own depth and nothing else is cut.",
     ["inputs", "configurations"], "one or several pockets of lines and arcs with islands and avoid areas, tool sizes, offsets, stepovers up to the tool radius, job planes",
     "The engine has no test of its own; whether a contour is dropped or linked through an island depends on the shape.",
     ["operations/pocket_cq.py", "operations/pocket.py", "routers.py"], [("engine", "operations/pocket_cq.py"), ("linking", "routers.py:route_wires")],
     "runtime monitoring: clearance and coverage oracles on the trace", TRUST)
prop("C22", "All areas of a pocket request are cut, each to its own depth, and nothing else",
     "When one pocket request contains several areas (apart, adjacent, on top of each other, inside the holes of another, enclosing an island together) of the same or different depth, each area is cut everywhere down to its own depth and nowhere deeper, material above it is first removed level by level (shallower areas on top of it, and the depths of the other areas of the request), and the tool never leaves the areas: walls and islands around and between them stay.",
     ["inputs", "configurations"], "all sets of adjacent, nested and separate areas of different depth",
     "The interaction of depth levels depends on the arrangement of the areas; tests have one or two arrangements.",
     ["operations/pocket.py", "utils/geometry_op.py"], [("depth map", "operations/pocket.py:generate_depth_map"), ("areas per depth", "operations/pocket.py:build_pocket_ops"), ("holes and nested areas", "utils/geometry_op.py:poly_tree_to_poly_faces"), ("start of the stepdown", "operations/pocket.py:determine_stepdown_start_depth")],
     "runtime monitoring: per-area depth oracle over the trace", TRUST)


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    done = {f[:-3].upper() for f in os.listdir(os.path.join(root, "vf/monitors")) if f.startswith("c") and f[1:-3].isdigit()}
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({k: v for k, v in p.items() if k not in ("technique", "note")}) + "\n")
    checks = [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough", "technique": p["technique"],
               "level": "exploration", "level_note": p["note"].strip()} for p in P if p["id"] in done]
    na = [{"property": p["id"], "reason": p["note"] if p["technique"] is None else "monitor not built yet"} for p in P if p["id"] not in done]
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: everything is observed at the public interface. VERIF_SEED chooses the workload, VERIF_JOBS the number of workers. ./check.sh <id> --replay FILE re-runs one case."}
    json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)


main()
