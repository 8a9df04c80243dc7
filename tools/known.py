#!/usr/bin/env python3
"""Writes known_findings.json: the repaired defects, one per fix commit of /repo (and property)."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# subject of the fix commit -> [(property, what failed)]
FIXED = {
 "return the error of an STL file which cannot be read completely": [("C01", "truncated and damaged STL files were read as partial models without error")],
 "do not panic when the bounds of a model without faces are needed": [("C02", "a file without faces made Min/Max panic")],
 "slice models with empty layers and models which do not stand on the plate": [("C06", "models with gaps in the height lost all layers above the gap, models below the plate panicked, the topmost layer was lost")],
 "generate infill above an empty layer": [("C15", "a layer above or below an empty layer had no infill or panicked")],
 "allow clipping when both sides are empty": [("C02", "clipping two empty lists failed and stopped the program")],
 "do not panic when there is no perimeter to draw the skirt around": [("C17", "skirt with no perimeters panicked")],
 "support printing without any perimeter": [("C02", "zero perimeters panicked")],
 "do not fail on moves without any length in empty layers": [("C02", "moves of no length in empty layers stopped the program")],
 "find the most distant point when smoothing a path": [("C23", "the point searched for in DouglasPeucker was relative to the wrong points, so results were far off the path")],
 "do not overwrite the path of the caller when smoothing it": [("C23", "smoothing a path overwrote points of the path which was passed in, and of its own result")],
 "keep the tips of spikes when smoothing a path": [("C23", "a point beyond the ends of a segment counted by its distance to the endless line, so the tips of spikes were dropped")],
 "combine overlapping parts as their union when clipping": [("C10", "parts of one list which overlap each other were combined as if the overlap were a hole")],
 "support overhangs above the threshold angle, not above half of its distance": [("C16", "the threshold was compared with half of the distance")],
 "keep the whole configured gap between the support and the model": [("C16", "the horizontal gap was only half as wide as configured")],
 "generate the support directly below the top layer if there is no top gap": [("C16", "with no top gap the layer directly below the topmost one got no support")],
 "do not generate any support interface if no interface layers are configured": [("C16", "zero interface layers still generated one")],
 "generate the brim around all pieces of a perimeter": [("C17", "a part whose perimeter splits got a brim around one piece only")],
 "use the outer perimeter speed only for outer perimeters": [("C21", "the outer perimeter speed stayed in force for what was printed afterwards")],
 "do not move to the origin for a retraction before the first move": [("C20", "a retraction before the first move went to the origin")],
 "do not lose small extrusions in big prints": [("C19", "the extrusion position was accumulated in a float32 and lost small amounts")],
 "do not panic on empty lines in a gcode hunk": [("C22", "an empty line in the start code panicked")],
 "do not treat commented out instructions as instructions": [("C22", "a commented out temperature instruction suppressed heating")],
 "do not set the bed temperature if there is no heated bed": [("C22", "bed commands were generated without heated bed after the first layers")],
 "slice models which have a layer without any area": [("C07", "a model with a ridge or a flat sliver exactly at the height of a layer was refused with 'partitioning failed'")],
 "keep the support inside of holes in the first layer if there is a brim": [("C16", "with a brim the support inside of holes of the first layer was removed, so that the support above it stood on nothing")],
 "keep fractional speeds instead of truncating them to whole mm/s": [("C21", "fractional speeds were truncated to whole mm/s (--layer-speed 12.5 gave F720 instead of F750, 0.5 gave F0), and a retraction speed below 1 mm/s switched the retraction off")],
 "do not crash with a support threshold angle of 90 degrees": [("C02", "a support threshold angle of 90 degrees panicked (makeslice: cap out of range)")],
 "report options which cannot work as errors instead of crashing": [("C02", "zero or negative meld distance, layer thickness, extrusion width, infill percent, pattern spacing, interface layers or filament diameter panicked, ran out of memory or printed infinite numbers")],
 "do not go back at the first of many very short segments": [("C07", "where a finely meshed surface is cut into segments shorter than the meld distance, the contour was followed backwards from its first segment, and the layer got a wrong contour or several parts")],
 "remove spikes without any width from offset polygons": [("C11", "at nearly straight corners an offset polygon could have a spike of no width, which reaches back to the border of the part")],
 "read all solids of an ASCII STL file": [("C01", "only the first solid of an ASCII file with several ones was read, without any error")],
 "report coordinates which are no numbers instead of using any value": [("C01", "coordinates which are NaN, infinite or too big were converted to any value, without any error")],
 "connect contours which meet exactly before snapping anything together": [("C07", "the border of a flat top or step exactly at the height of a layer was cut to tiny polygons if its facets are shorter than half of the join distance, so that the part or hole was lost in this layer")],
 "boolean operations returned holes as parts if polygons touch each other": [("C15", "where the solid area touches the border of the filled area, the difference of both could contain the hole as a part of its own, so that a solid place was additionally filled with infill (stack of shapes 0211, 1241 and 2271)")],
 "keep percent signs of custom gcode": [("C22", "percent signs of custom code were interpreted as format verbs")],
}
out, used = [], set()
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    if s not in FIXED:
        raise SystemExit("no entry for " + s)
    for prop, what in FIXED[s]:
        out.append({"status": "fixed", "property": prop, "commit": h, "what": what,
                    "record": "fixed: property=%s %s %s" % (prop, h, what)})
for label in ["1 2 0 0 0 0 0 0", "1 0 2 0 0 0 0 0"]:
    for d in "00", "11":
        for order in 0, 1:
            out.append({"status": "known", "property": "C07",
                        "section": "two bodies with a common wall, the same diagonals",
                        "case": "label [%s] diagonals [%s %s] order %d" % (label, d[0], d[1], order),
                        "what": "the second of two closed bodies is lost if they have a common wall with the same triangulation: bodies %s, diagonals %s, order %d" % (label, d, order)})
with open(os.path.join(root, "known_findings.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(out))
