#!/usr/bin/env python3
"""Writes DESIGN.md from design.md, props.py, known_findings.json, seeded/ and the timings of the last runs."""
import json, os, sys, glob
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import PROPS
root = os.path.dirname(here)
ORACLE = {
 "C01": "the list of triangles the file was written from; float32 -> micrometers in exact arithmetic; every damaged file has to be an error",
 "C02": "termination, no panic, and a G-code grammar (commands, finite numbers, ascending layers)",
 "C03": "exact translation of the faces, duplicates and degenerate faces dropped",
 "C04": "reference melding (must / may / must not) and reference adjacency",
 "C05": "byte equality of G-code of equivalent inputs",
 "C06": "counting: number, order and heights of layers from thicknesses and the height of the model",
 "C07": "the section of the mesh at the middle of the layer: cells for blocks, exact polygons for tetrahedra and prisms",
 "C08": "the section of the undamaged mesh, equality of all other parts",
 "C09": "parity of enclosure per cell / per exact area; connected components; orientation",
 "C10": "set algebra on cells; for oblique areas exact areas on scan lines",
 "C11": "morphological erosion and dilation with a lower and an upper bound at corners",
 "C12": "offsets of the section: every perimeter point at its distance, every border point followed, counts, types, closedness",
 "C13": "scan lines intersected with the area",
 "C14": "reference plan: which cells are exposed, minus/plus offsets",
 "C15": "reference plan: partition of the inside of the perimeters",
 "C16": "reference plan: overhang cells shifted down, grown, minus gaps",
 "C17": "dilated first section for brims, convex hull and distance for skirts",
 "C18": "hatching of the areas (taken from the layer attributes) line by line in the G-code",
 "C19": "a machine of the extruder in lockstep with the builder (all operation sequences), volume of every line in the G-code",
 "C20": "the same machine with retraction and hop; crossing decided geometrically on the real layers",
 "C21": "the same machine with the feed rate in force",
 "C22": "a protocol model of heater, fan and custom code; the commands of each layer are compared as sets with it",
 "C23": "exact integer distances to the replaced segment",
 "C24": "a table of flags, options and defaults",
 "C25": "a model of the stages: which may run, what is returned, what is on disk",
 "C26": "the G-code of each job alone",
 "C27": "exact geometry: crossing of a way with the border, monotone chain hull, containment",
 "C28": "a machine with value semantics (registers hold numbers), math/big for lengths",
 "C29": "the attributes and the G-code of the complete selection, restricted to the steps a step builds on; the expected list of calls for runs of own steps",
 "C30": "an independent STL parser, the faces in micrometers",
 "C31": "a state machine of the phases of a layer; walls assigned to areas of the section",
}
ev = {}
for q in PROPS:
    try:
        ev[q["id"]] = json.load(open(os.path.join(root, "evidence", q["id"] + ".json")))
    except Exception:
        pass
tf = os.path.join(here, "timings.json")
tim = json.load(open(tf)) if os.path.exists(tf) else {}
for k, d in ev.items():
    if d["tier"] == "quick" and d["violations"] == 0:
        tim[k] = [round(d["wall_s"]), d["coverage"]["evaluations"]]
json.dump(tim, open(tf, "w"), sort_keys=True)
rows = []
for q in PROPS:
    t = tim.get(q["id"], ["?", "?"])
    rows.append("| %s | **%s.** %s | %s | %ss, %s cases |" % (q["id"], q["title"], q["text"][0].upper() + q["text"][1:], ORACLE[q["id"]], t[0], t[1]))
fixes = "\n".join("* %s `%s` %s" % (r["property"], r["commit"], r["what"]) for r in json.load(open(os.path.join(root, "known_findings.json"))) if r["status"] == "fixed")
by = {}
for m in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    by.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d["needs"]))
missed = json.load(open(os.path.join(here, "missed.json"))) if os.path.exists(os.path.join(here, "missed.json")) else {}
seeds = []
for k in sorted(by):
    seeds.append("%s catches\n" % k + "\n".join("* `%s`: %s%s" % (n, w, (" **(%s)**" % missed[n]) if n in missed else "") for n, w in by[k]))
s = open(os.path.join(here, "design.md")).read()
s = s.replace("@@TABLE@@", "\n".join(rows)).replace("@@FIXES@@", fixes).replace("@@SEEDS@@", "\n\n".join(seeds)).replace("@@MORE@@", "")
open(os.path.join(root, "DESIGN.md"), "w").write(s)
