# The properties and what MANIFEST.json says about their checks; gen.py writes both files.
I, C, H, S, F, P, X = "inputs", "configurations", "histories", "schedules", "fault_sequences", "programs", "crash_points"


def p(id, title, statement, over, text, why, files, mech, technique, level, note, observe):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                technique=technique, level=level, note=note, observe=observe)


PROPS = [
    p("C01", "A model file is read completely and exactly, or an error is reported",
      "Reading an ASCII or binary STL file yields exactly the triangles of the file (of all of its solids), in their order and with their vertices in order, each coordinate converted from millimeters to the nearest micrometer; the bounds of the model are the smallest and largest coordinates. A file which is missing, truncated, declares more triangles than it holds or contains unreadable numbers or coordinates which are no finite numbers makes reading fail with an error, never with a partial model.",
      [I, F], "all float32 coordinates of a lattice over the whole exponent range, ASCII and binary files with up to 10007 faces and different headers, the outermost vertex in each place, each file cut at each byte, each field damaged or not representable in each way of a list, files with up to four solids, all pairs of facets over four points, all wrong triangle counts of a range",
      "The tests read a single good file; they try no truncation, no damaged field and only a few coordinates.",
      ["reader/reader.go", "data/data.go"],
      [("Reader.Read", "reader/reader.go"), ("stlTriangleToFace", "reader/reader.go"), ("ToMicrometer", "data/data.go")],
      "exhaustive enumeration of files and of all truncation points through the real reader", "fault_enumeration",
      "Every file of the stated sets goes through the real reader; the oracle is the list of triangles from which the file was written. The vendored STL parser and the file system are trusted to return what was written.",
      ["reader.Reader(options).Read(path)"]),
    p("C02", "Every model is sliced to well formed G-code or reported as an error",
      "For any set of triangles, whether closed, open, degenerate, flat, empty or below or above the plate, and any options, slicing ends in finite time without a crash. It ends with an error or with well formed G-code: each line is a comment or a command with finite numbers, and the layers are announced in ascending order from 0.",
      [I, C], "all sets of up to three triangles over a small lattice, all stacks of small cells with gaps, all pairs of unusual values of the options, single options far out of range, all heights of a plate, all small boxes",
      "The tests slice a handful of solid example models with the default options; degenerate geometry and unusual option values are never combined.",
      ["goslice.go", "slicer/slicer.go", "slicer/layer.go", "modifier/perimeter.go", "modifier/infill.go", "modifier/internal_infill.go", "modifier/brim.go", "modifier/support.go", "gcode/generator.go", "gcode/builder.go", "gcode/renderer/skirt.go", "gcode/renderer/perimeter.go", "gcode/renderer/infill.go", "clip/clip.go", "clip/linear.go"],
      [("GoSlice.Process", "goslice.go"), ("Slice", "slicer/slicer.go"), ("runClipper", "clip/clip.go"), ("Generate", "gcode/generator.go")],
      "exhaustive bounded exploration of models and option combinations through the real program", "exploration",
      "Every model and option set within the stated bounds is executed; panics, hangs and malformed G-code are judged.",
      ["GoSlice.Process", "the G-code"]),
    p("C03", "The model is placed centred on the plate without any distortion",
      "The optimized model is the model of the file moved by one translation: the middle of its bounding box lies at the configured center in x and y, and its lowest point lies at the configured center height. No face is lost, added, duplicated, reordered or distorted, except that degenerate faces and repeated faces are dropped, and the reported bounds and size are those of its faces.",
      [I, C], "boxes at all positions of a lattice (up to 1000 km away) with all centers, all sequences of faces over a small set of points, and the outer walls in the G-code for all positions",
      "Tests sample one cube and one center; translation depends on all positions, the parity of the sums and the set of faces.",
      ["optimizer/optimizer.go", "optimizer/model.go", "optimizer/face.go", "data/micrometer.go"],
      [("Optimize", "optimizer/optimizer.go"), ("Min/Max/Size", "optimizer/model.go")],
      "exhaustive enumeration of positions and face sequences against an exact placement reference", "exploration",
      "All positions and sequences within bounds go through the real optimizer and are compared with exact arithmetic; half micrometers may round either way.",
      ["optimizer.NewOptimizer(options).Optimize(model)", "the G-code"]),
    p("C04", "Near vertices are melded and each face knows its touching faces",
      "Vertices which are equal, or closer than the configured meld distance and in the same cell of the meld grid, become one vertex; vertices farther apart stay separate, and no vertex moves by more than the meld distance. For each edge of a face the table of touching faces names another face that has the same edge if there is one, and none otherwise, so that in a closed manifold the relation is symmetric.",
      [I, C], "all sets of up to four faces over up to seven points with all small displacements and three meld distances, all sequences of up to five vertices within one and in neighbouring cells of the meld grid, and all closed meshes of blocks of 2x2x2 cells",
      "Tests check a single cube with exact vertices; hashing of near points depends on positions relative to each other and to the hash grid.",
      ["optimizer/optimizer.go", "optimizer/model.go", "optimizer/point.go", "optimizer/face.go"],
      [("Optimize", "optimizer/optimizer.go"), ("getFaceIdxWithPoints", "optimizer/model.go")],
      "exhaustive enumeration of small face complexes against a reference adjacency relation", "exploration",
      "All complexes within bounds. Melding is documented to work for most near points only: near vertices on both sides of a border of the meld grid are accepted either way.",
      ["OptimizedFace(i).Points()", "OptimizedFace(i).TouchingFaceIndices()"]),
    p("C05", "The result depends only on the shape and the options",
      "Slicing the same file again gives byte for byte the same G-code, at any time, on any computer and whatever the files are called. Moving the whole model to another place, changing which vertex of a face comes first and storing it as ASCII or binary STL do not change the G-code either.",
      [I, H], "all objects of 2x2x2 blocks sliced again, at several other places, with all rotations of the vertices of the faces and from both file formats, round objects, and the program itself with other clocks, time zones, numbers of processors, locales, users, file names, working directories and neighbouring files",
      "Tests never slice anything twice; map iteration and state kept between runs show up only in repetitions.",
      ["goslice.go", "optimizer/optimizer.go", "slicer/layer.go", "modifier/internal_infill.go", "modifier/infill.go", "modifier/support.go", "clip/clip.go", "clip/linear.go", "gcode/builder.go", "reader/reader.go"],
      [("Process", "goslice.go"), ("makePolygons", "slicer/layer.go"), ("sortInfill", "clip/linear.go")],
      "exhaustive exploration of pairs of equivalent inputs (relational check)", "exploration",
      "All objects and transformations within bounds are run in pairs and compared byte by byte; objects with an even sum of bounds so that centring is exact.",
      ["the G-code"]),
    p("C06", "Each height of the model is covered by exactly one layer",
      "The first layer is as thick as configured for it and all others have the regular layer thickness; there are exactly as many layers as are needed so that each height of the model (up to a rest of less than a layer) has a layer, whether or not the model has empty layers in between. The layers are numbered from 0 without gap and each prints at the height of its top.",
      [I, C], "all combinations of first layer thickness, layer thickness and model height of a lattice, and all stacks of ten cells with gaps above the plate",
      "Tests use one model height with one thickness; off-by-one errors appear only for particular remainders.",
      ["slicer/slicer.go", "gcode/generator.go", "gcode/renderer/layer.go"],
      [("Slice", "slicer/slicer.go"), ("Generate", "gcode/generator.go")],
      "exhaustive enumeration of heights and thicknesses against a counting reference", "exploration",
      "All combinations of the lattice are sliced; the tolerance for the top layer follows the section at the middle of each layer.",
      ["ModelSlicer.Slice", "the G-code"]),
    p("C07", "Each layer of a closed model is exactly the section of the model",
      "For a closed model each layer's area (outlines minus holes) is the section of the model at the height of that layer, up to rounding. This includes several separate parts, holes, islands in holes, touching edges and any order and diagonal of the facets.",
      [I], "all objects of 3x3x1, 2x2x2 and 2x2x3 blocks with all diagonals, 4x4x1 blocks, uneven grids, nested rings, straight and oblique prisms over all simple polygons of a lattice, all tetrahedra of a set (small ones and ones of 10 to 20 cm) and all pairs of them",
      "Tests compare no layer with its section at all beyond one cube.",
      ["slicer/segment.go", "slicer/slicer.go", "slicer/layer.go", "clip/clip.go", "optimizer/optimizer.go"],
      [("SliceFace", "slicer/segment.go"), ("makePolygons", "slicer/layer.go"), ("GenerateLayerParts", "clip/clip.go")],
      "exhaustive exploration of small closed meshes against the exact section", "exploration",
      "All meshes within bounds; borders may be off by the documented smoothing of about 8 um. Overlapping shells and slivers below the meld distance are outside.",
      ["ModelSlicer.Slice"]),
    p("C08", "A small defect of the mesh spoils only its own surroundings",
      "If a vertex of one facet is displaced by no more than the snap distances allow, or a missing facet leaves a gap not larger than the configured finish distance, each layer is still the section of the intact model up to the size of the defect. A larger gap costs at most the polygon it belongs to, all other parts of all layers stay exactly as they were. This holds for several such defects, too.",
      [I, F], "each facet of each wall of a set of meshes damaged in each of its vertices with all displacements of a list, all pairs of displaced vertices of flat objects, each facet missing with several finish distances, and all subsets of a dozen small gaps in the walls",
      "Tests have no broken meshes.",
      ["slicer/layer.go", "slicer/segment.go", "optimizer/optimizer.go"],
      [("makePolygons", "slicer/layer.go")],
      "enumeration of single mesh defects at every facet and vertex", "exploration",
      "One damaged facet per mesh, walls at least 3 mm apart from each other.",
      ["ModelSlicer.Slice"]),
    p("C09", "Contours are partitioned into parts with outlines and holes",
      "From any set of closed contours, in any order and orientation, the partition yields exactly the area enclosed an odd number of times, with each connected area in a part of its own. Outlines run counter clockwise, holes run clockwise and belong to the part which they cut, and islands inside of holes are parts of their own.",
      [I], "all areas of 4x4 cells (5x4 in the thorough tier), all orders and orientations of the contours of all areas of 3x3 cells, all nestings of up to eight rings, all sets of holes with islands, and all pairs of simple polygons of a 3x3 lattice",
      "Tests check a few hand written polygon trees.",
      ["clip/clip.go"],
      [("GenerateLayerParts", "clip/clip.go"), ("polyTreeToLayerParts", "clip/clip.go")],
      "exhaustive enumeration of all areas of a cell grid", "exploration",
      "Where areas touch only at a corner they may be one or two parts.",
      ["Clipper.GenerateLayerParts"]),
    p("C10", "Union, intersection and difference of areas are exact",
      "The difference, intersection and union of two lists of parts with holes cover exactly the set difference, intersection and union of the covered areas, also if parts of one list overlap each other, and if either side is empty. The inputs are not modified and the result is again a list of well formed parts.",
      [I], "all pairs of areas of small cell grids in three combinations, triples of overlapping parts, pairs of rings, shifted grids, all pairs of lattice triangles and of simple polygons of a 3x3 lattice",
      "Tests have no clipping operations at all beyond a few inset cases.",
      ["clip/clip.go"],
      [("runClipper", "clip/clip.go"), ("microPath", "clip/clip.go")],
      "exhaustive enumeration of pairs of areas against set algebra on cells", "exploration",
      "Tolerance for oblique areas is the smoothing of the result.",
      ["Clipper.Difference", "Clipper.Intersection", "Clipper.Union"]),
    p("C11", "Insets keep the right distance from the border of the area",
      "The n-th inset of an area is the set of points at least the initial offset plus n times the line distance away from its border; a negative offset grows the area accordingly. Holes grow when outlines shrink, areas that become too thin vanish, areas split where they have to, and every inset is well formed.",
      [I, C], "all areas of 3x3 cells (4x4 in the thorough tier) on several grids with several offsets, counts and initial offsets, and all simple polygons of a 3x3 lattice",
      "Tests inset a few rectangles with fixed numbers.",
      ["clip/clip.go"],
      [("Inset/InsetLayer", "clip/clip.go")],
      "exhaustive enumeration of areas against morphological erosion and dilation", "exploration",
      "At corners the border may lie anywhere between the rounded and the pointed offset; tolerance 3 um.",
      ["Clipper.Inset", "Clipper.InsetLayer"]),
    p("C12", "Perimeters follow the border of each layer at the configured distances",
      "In the G-code each layer has exactly the configured number of perimeters wherever they fit: the n-th lies (n + 1/2) line widths inside of the border of outlines and holes, plus nothing else. All perimeters are closed lines, the outermost ones are of the outer wall type and the others of the inner wall type, and no perimeter lies outside of the layer.",
      [I, C], "all objects of 3x3x1 and 2x2x3 blocks with several counts, widths and grids (4x4x1 in the thorough tier), triangular prisms with and without holes and prisms over all simple polygons of a lattice",
      "Tests check no perimeter in the G-code.",
      ["modifier/perimeter.go", "gcode/renderer/perimeter.go", "clip/clip.go", "gcode/builder.go"],
      [("Modify", "modifier/perimeter.go"), ("Render", "gcode/renderer/perimeter.go")],
      "exhaustive exploration of small objects to G-code against the offset section", "exploration",
      "16 um tolerance (rounding to 0.01 mm and smoothing).",
      ["the G-code"]),
    p("C13", "A filling pattern covers an area with parallel lines at the right distance",
      "The linear pattern fills an area with lines of the configured direction (rotated by 90 degrees in every other layer if configured) whose distance is the configured one, and each line is printed exactly where it lies inside of the area (inset by the line width). Zig-zag connections never leave the area.",
      [I, C], "all areas of 3x3 cells (4x4 in the thorough tier) on several grids with several directions, distances, widths and zig-zag or not, for even and odd layers, all simple polygons of a lattice, and squares with every direction of a range of whole degrees",
      "Tests have no pattern at all beyond one square.",
      ["clip/linear.go", "gcode/renderer/infill.go", "data/micrometer.go"],
      [("Fill", "clip/linear.go"), ("getInfill", "clip/linear.go"), ("sortInfill", "clip/linear.go")],
      "exhaustive enumeration of areas and patterns against scan lines", "exploration",
      "Scan lines closer than 6 um to a corner of the area are not judged; the sense of the rotation is not fixed but has to be the same everywhere.",
      ["Pattern.Fill"]),
    p("C14", "Surfaces which are exposed above or below are filled solidly",
      "Every place of a layer that is not covered by the model within the configured number of layers above it is filled as top, and every such place within the configured number of layers below it as bottom, inside of the perimeters plus the configured overlap. Nothing is filled as top or bottom where the model covers it, and zero layers disable it.",
      [I, C], "all objects of 2x2x3 and 3x1x3 blocks with several counts of top and bottom layers, perimeters and overlaps",
      "Tests never look at which areas are filled.",
      ["modifier/infill.go", "modifier/internal_infill.go", "modifier/perimeter.go", "clip/clip.go"],
      [("Modify", "modifier/infill.go"), ("partDifference", "modifier/internal_infill.go")],
      "exhaustive exploration of small objects against a reference plan of the areas", "exploration",
      "Orthogonal objects exactly, tilted and round ones on a raster of points; the shape of offset corners is left open between rounded and pointed.",
      ["layer attributes top, bottom"]),
    p("C15", "The inside of the perimeters is filled everywhere exactly once",
      "Top, bottom and internal infill together cover exactly the area inside of the innermost perimeters (plus the configured overlap), and the internal infill never overlaps with the top or bottom infill of the same layer. This holds for all parts of all layers, whatever lies above or below.",
      [I, C], "all objects of 2x2x3 and 3x1x3 blocks with several counts of top and bottom layers, perimeters and overlaps",
      "Tests never look at which areas are filled.",
      ["modifier/internal_infill.go", "modifier/infill.go", "modifier/perimeter.go", "clip/clip.go"],
      [("Modify", "modifier/internal_infill.go"), ("Modify", "modifier/infill.go")],
      "exhaustive exploration of small objects against a reference plan of the areas", "exploration",
      "Orthogonal objects exactly, tilted and round ones on a raster of points; the shape of offset corners is left open between rounded and pointed.",
      ["layer attributes top, bottom, infill"]),
    p("C16", "Overhangs beyond the threshold are supported with the configured gaps",
      "If support is enabled, every area which hangs over the layer below by more than the configured threshold angle has support below it, grown by the configured distances, down to the plate or the model; support keeps the configured horizontal gap to the model of its layer, leaves out only the brim in the first layer, and keeps the configured top gap (in layers) below the overhang, and the topmost configured layers of it are interface. Nothing else is supported, steeper walls get no support, and nothing is supported if support is disabled.",
      [I, C], "all objects of 3x1x3, 2x2x3 and similar blocks with several thresholds, gaps, numbers of interface layers and heights",
      "Tests never check any support.",
      ["modifier/support.go", "goslice.go", "clip/clip.go"],
      [("Modify", "modifier/support.go"), ("FullSupport", "modifier/support.go")],
      "exhaustive exploration of small objects against a reference plan of the support", "exploration",
      "Orthogonal objects exactly, tilted and round ones on a raster of points; the shape of offset corners is left open between rounded and pointed.",
      ["layer attributes support, supportInterface", "the G-code"]),
    p("C17", "Skirt and brim surround the first layer at the configured distances",
      "The first layer has the configured number of brim lines directly around the outermost outlines of its parts (never inside of a hole), each one line width farther outside, and the configured number of skirt lines around everything printed in this layer (including brim and support) at the configured distance. Skirt and brim never touch the model, are closed lines, and no other layer has any.",
      [I, C], "all objects of 3x3x1 blocks with several counts, distances and grids, and all objects of 3x1x3 blocks with support",
      "Tests check neither brim nor skirt.",
      ["modifier/brim.go", "gcode/renderer/brim.go", "gcode/renderer/skirt.go", "clip/clip.go"],
      [("Modify", "modifier/brim.go"), ("Render", "gcode/renderer/skirt.go"), ("Hull", "clip/clip.go")],
      "exhaustive exploration of small objects to G-code against the dilated first section", "exploration",
      "Orthogonal objects; parts far enough from each other that their brims do not overlap.",
      ["the G-code"]),
    p("C18", "Each kind of filling is printed with its own pattern in its own area",
      "In the G-code, top and bottom areas are filled with adjacent lines, internal areas with the line distance of the configured infill percentage, support with the configured spacing and interface with adjacent lines, each in its configured direction, and each kind exactly in its area. All lines of a kind carry its type comment, and no area is left without its lines or filled twice. (Support lines are printed up to one spacing beyond the bounds of the model.)",
      [I, C], "all objects of small block grids with several percentages, rotations, spacings, zig-zag or not, with and without support, all whole percentages from 1 to 150",
      "Tests compare no G-code with areas.",
      ["goslice.go", "gcode/renderer/infill.go", "clip/linear.go", "gcode/builder.go"],
      [("NewGoSlice", "goslice.go"), ("Render", "gcode/renderer/infill.go"), ("Fill", "clip/linear.go")],
      "exhaustive exploration of small objects to G-code against hatched areas", "exploration",
      "The areas themselves are judged by C14, C15 and C16; 24 um tolerance.",
      ["the G-code"]),
    p("C19", "Extruded material matches the volume of each printed line",
      "Every printed line extrudes exactly its length times its line width times the thickness of its layer, divided by the cross section of the filament and scaled by the extrusion multiplier, up to the rounding of the number in the G-code, however much was extruded before. The extrusion position never runs backwards except for retractions, which are compensated completely, and travels extrude nothing.",
      [I, C, P], "all objects of small block grids with several widths, thicknesses, filaments and multipliers, paths of hundreds of lines of every length from 9 to 130 um, and all sequences of five (thorough: six) operations of the G-code builder",
      "Tests check a few lines of a fixed sequence; accumulated values depend on the whole history.",
      ["gcode/builder.go", "gcode/renderer/layer.go", "goslice.go"],
      [("SetExtrusion", "gcode/builder.go"), ("AddPolygon", "gcode/builder.go"), ("AddMoveSpeed", "gcode/builder.go")],
      "exhaustive exploration of all builder operation sequences against a state machine, and of small objects", "model_checking",
      "All operation sequences of the stated depth are replayed on the real builder and compared with a reference machine, all objects within bounds line by line.",
      ["gcode.Builder", "the G-code"]),
    p("C20", "Travels which leave the printed area are retracted, others are not",
      "Each travel that crosses the border of the layer is preceded by a retraction of exactly the configured amount and speed with the configured z hop, and followed by the return to the height of the layer and the complete compensation; a travel completely inside of the layer has none of these. No line is printed while the filament is retracted or the nozzle hops.",
      [I, C, P], "all objects of small block grids with several retraction settings, all ways between two points in all layers of 3x3 cells, and all sequences of five (thorough: six) operations of the G-code builder",
      "Tests check one fixed sequence; retraction depends on the history of moves.",
      ["gcode/builder.go", "clip/clip.go"],
      [("AddPolygon", "gcode/builder.go"), ("IsCrossingPerimeter", "clip/clip.go")],
      "exhaustive exploration of all builder operation sequences against a state machine, and of small objects", "model_checking",
      "Ways closer than 0.025 mm to the border without crossing it may be judged either way.",
      ["gcode.Builder", "the G-code"]),
    p("C21", "Each move is made with the speed configured for it",
      "The feed rate in force for each move is the configured one: travel speed for travels, the first layer speed for everything printed in the first layer, the outer perimeter speed only for outer perimeters, the retraction speed for retractions, and the layer speed for everything else. Rates in the G-code are 60 times the configured mm/s, for fractional speeds, too, up to rounding to whole mm/min.",
      [I, C, P], "all objects of small block grids with several sets of speeds, and all sequences of five (thorough: six) operations of the G-code builder",
      "Tests check one fixed sequence; the rate in force depends on the history.",
      ["gcode/builder.go", "gcode/renderer/layer.go", "gcode/renderer/perimeter.go"],
      [("AddMoveSpeed", "gcode/builder.go"), ("Render", "gcode/renderer/perimeter.go"), ("Render", "gcode/renderer/layer.go")],
      "exhaustive exploration of all builder operation sequences against a state machine, and of small objects", "model_checking",
      "Whole and fractional speeds; the rates may be rounded to whole mm/min.",
      ["gcode.Builder", "the G-code"]),
    p("C22", "Temperatures, fan, start and end commands come at the right time, exactly once",
      "Before the first layer the printer is heated to the first layer temperatures (bed only if there is one, and not where the custom start code already contains the temperature instruction), and after the configured number of first layers the temperatures switch to the regular ones exactly once; the fan is set at exactly the configured layers to the configured speed. Custom start and end code appear verbatim, once, before the first and after the last layer, with commented out instructions not counting as instructions.",
      [I, C], "all combinations of temperatures, bed, fan tables, numbers of first layers and custom code of a set, all heights up to seven layers with gaps, all fan tables over six layers, and all custom codes of two lines of a list",
      "Tests cover one start code and one table.",
      ["gcode/renderer/layer.go", "data/option.go", "gcode/generator.go"],
      [("PreLayer.Render", "gcode/renderer/layer.go"), ("PostLayer.Render", "gcode/renderer/layer.go"), ("DoesInstructionContainCodes", "data/option.go")],
      "exhaustive enumeration of settings; the command sequence is compared with a protocol model", "exploration",
      "All combinations of the stated sets; the order of fan and temperature commands within a layer is free.",
      ["the G-code"]),
    p("C23", "Smoothing drops only points which hardly change the path",
      "Smoothing a path keeps its two ends and some of its points in their order, and each point it drops lies within the given tolerance of the segment that replaces it. Simplifying a polygon keeps some of its points in their order, moves no part of the border by more than about ten micrometers and removes all points exactly in the middle of straight lines. The path of the caller is never changed.",
      [I], "all paths of up to six (thorough: seven) points of several lattices, all polygons of up to six (seven) of such points, long zigzags, spirals and circles, and straight lines with spikes of all widths, heights and positions of a range",
      "Tests smooth a few fixed paths; whether a point may go depends on all points around it.",
      ["data/2d.go", "data/layer.go", "gcode/builder.go", "clip/clip.go"],
      [("DouglasPeucker", "data/2d.go"), ("Path.Simplify", "data/layer.go")],
      "exhaustive enumeration of short paths against exact distances", "exploration",
      "Polygons which are slivers thinner than the tolerance are judged only for order and aliasing.",
      ["data.DouglasPeucker", "data.Path.Simplify"]),
    p("C24", "Each command line flag sets exactly its own option",
      "Each flag sets exactly the option it is documented for and no other; options which are not given keep their documented defaults, flags may come in any order and the last one of a kind wins, and the first argument that is no flag is the input file. Malformed values and unknown flags are refused, and the text form of each option value reads back as the same value.",
      [I, C], "all flags with several values, all ordered pairs of flags, all malformed values of a list for each flag, and all values of a lattice for each text form",
      "Tests parse single values; that a flag sets another option or shares its default shows up only in combinations.",
      ["data/option.go", "cmd/goslice/main.go"],
      [("ParseFlags", "data/option.go"), ("DefaultOptions", "data/option.go"), ("Set", "data/option.go")],
      "exhaustive enumeration of command lines against a table of flags", "exploration",
      "Flags of the repository at the pinned commit; what a flag does to the G-code is judged by the other properties.",
      ["data.ParseFlags", "data.Options"]),
    p("C25", "Every failure is reported, and nothing is written after one",
      "The stages of slicing run in their fixed order, each exactly once and each with the result of the one before. If a stage fails, its error is returned, no later stage runs and an existing output file stays untouched; errors and short writes while writing are reported, and the program exits with zero only if the output file is complete. Without an output path the result goes to the input path with .gcode appended.",
      [F, H], "a failure at each stage, modifier, renderer and write, all pairs of failing stages, all sequences of runs with and without failures, and the real program with unwritable, full and limited outputs",
      "Tests inject no fault at all.",
      ["goslice.go", "writer/writer.go", "gcode/generator.go", "cmd/goslice/main.go"],
      [("GoSlice.Process", "goslice.go"), ("Write", "writer/writer.go"), ("main", "cmd/goslice/main.go")],
      "exhaustive fault injection at every stage boundary and output", "fault_enumeration",
      "An error of Close after a successful write is outside, no file system here produces one.",
      ["GoSlice.Process", "exit status and output file of the program"]),
    p("C26", "Slicing runs do not influence each other",
      "Any number of slicing runs in one process, one after another or at the same time on separate instances, each yield exactly the G-code they yield alone. No run changes the options it was given, and reused clippers and filling patterns keep no memory of earlier areas.",
      [S, H], "all interleavings of two instances up to two (thorough: three) preemptions at all stage, layer and log boundaries, all sequences of runs of a set of jobs, all pairs (thorough: triples) of runs which differ in one option or in the model against runs alone in a fresh process, and all sequences of uses of one pattern",
      "Tests slice one model per process; shared state shows up only in particular interleavings or histories.",
      ["goslice.go", "clip/clip.go", "clip/linear.go", "gcode/generator.go", "gcode/builder.go", "modifier/support.go", "modifier/infill.go", "data/option.go", "handler/handler.go"],
      [("NewGoSlice", "goslice.go"), ("Process", "goslice.go"), ("NewLinearPattern", "clip/linear.go")],
      "stateless model checking: controlled scheduler, all interleavings up to a preemption bound", "model_checking",
      "Switches happen at stage boundaries, layer accesses and log lines; a run with the race detector supplements what happens between them.",
      ["the G-code of each run"]),
    p("C27", "Questions about areas are answered exactly",
      "A way between two points counts as crossing the perimeter exactly if some part of it lies outside of the area. The hull of an area is the convex hull of all its outlines, and its top level polygons are exactly the outlines which lie in no other outline. No question changes the area.",
      [I], "all areas of 3x3 cells and all simple polygons of a lattice with all ways between points of a lattice, all sets of points of lattices for the hull, and all arrangements of nested outlines",
      "Tests ask for few ways and one hull.",
      ["clip/clip.go", "data/layer.go"],
      [("IsCrossingPerimeter", "clip/clip.go"), ("Hull", "clip/clip.go"), ("TopLevelPolygons", "clip/clip.go")],
      "exhaustive enumeration of areas and ways against exact geometry", "exploration",
      "Ways which only touch the border, and outlines which overlap, are not judged.",
      ["Clipper.IsCrossingPerimeter", "Clipper.Hull", "Clipper.TopLevelPolygons"]),
    p("C28", "Points, vectors, bounds and units are exact values",
      "Sums, differences, multiples, quotients, copies and rotations of points and vectors are exact (rotations to the nearest micrometer, quotients towards zero), are new objects and never change their operands. Lengths, comparisons of lengths, products, bounds of paths, lists of paths and layers, and conversions between micrometers and millimeters are correct up to the last digit, for coordinates up to a meter.",
      [I, P], "all sequences of four (thorough: five) operations on two registers, all vectors of a lattice, all paths of three points of a lattice with all groupings, and all lengths up to 2 m (thorough: 8 m)",
      "Tests check one example per operation; that two values share an object shows up only in sequences of operations.",
      ["data/micrometer.go", "data/data.go", "data/2d.go", "data/layer.go"],
      [("microVec3", "data/micrometer.go"), ("microPoint", "data/micrometer.go"), ("Bounds", "data/layer.go"), ("ToMicrometer", "data/data.go")],
      "exhaustive replay of all operation sequences against a machine with value semantics", "model_checking",
      "Negative lengths and squares beyond 64 bits are outside.",
      ["data.MicroVec3", "data.MicroPoint", "data.Path"]),
    p("C29", "The steps of slicing can be selected, left out and extended",
      "With any selection of the modifiers and renderers, kept in their order, slicing works, and what a step computes or prints depends only on the steps it builds on. No step changes the outlines and holes of the layers, and attributes which own modifiers add to layers reach all later steps and own renderers unchanged, without any influence on the rest. An attribute of the wrong type is refused with an error by whatever reads it, a missing one is no error; each step of a run, and each renderer for each layer, is run exactly once for each time it is listed, in order and with the results of the steps before it, whatever its name; an error of any step ends the run and is returned.",
      [C, P, I], "all 64 selections of the six modifiers, all 256 selections of the eight renderers between start and end, own attributes and attributes of eleven wrong types added before each step to several sets of layers, on twelve objects with four settings, all runs of own steps with up to four modifiers of equal or different names and an error in any of the steps, and all generators with up to four own renderers for up to three layers with an error at any place",
      "The tests of the modifiers and renderers do not combine them; the documented use as a library with left out, added or replaced steps is not tested at all.",
      ["goslice.go", "modifier/modifier.go", "modifier/perimeter.go", "modifier/infill.go", "modifier/internal_infill.go", "modifier/brim.go", "modifier/support.go", "gcode/generator.go", "gcode/renderer/infill.go", "gcode/renderer/skirt.go"],
      [("newExtendedLayer", "modifier/modifier.go"), ("PartsAttribute", "modifier/modifier.go"), ("Generate", "gcode/generator.go"), ("Process", "goslice.go")],
      "exhaustive enumeration of the selections of steps and of the places of foreign attributes", "exploration",
      "The steps keep their usual order. A wrong attribute which nothing reads (or which is replaced first) may stay without an error if the G-code is the same as without it.",
      ["LayerModifier.Modify", "Generator.Generate", "PartitionedLayer.Attributes", "modifier.PartsAttribute"]),
    p("C30", "The saved debug model is the optimized model",
      "Saving the optimized model writes a binary STL file with exactly its faces, in their order and with their vertices in order, placed as the model is placed, so that reading the file again gives the same model to the micrometer. If the file cannot be written an error is reported.",
      [I, F], "all sequences of up to two (thorough: three) faces over five points, models with up to 2^17 faces, all objects of 2x2x2 blocks with four centers, all coordinates of a lattice up to 4 m, and several places which cannot be written",
      "No test saves a model.",
      ["optimizer/model.go"],
      [("SaveDebugSTL", "optimizer/model.go")],
      "exhaustive enumeration of models, each saved and read by an independent reader", "exploration",
      "Coordinates beyond 4 m do not fit into the format with micrometers.",
      ["OptimizedModel.SaveDebugSTL(path)"]),
    p("C31", "Everything is printed in the right order",
      "Each layer is printed completely before the next one begins. Within a layer skirt and brim are printed first, then all walls, then the support, and then the bottom, the top and the internal filling, each line under its own type. In each connected area of a layer the outer wall is printed after all of its inner walls.",
      [I, C], "all objects of 3x2x2, 3x3x1 and 2x1x6 cells with seven sets of options, and twelve objects with 0 to 10 walls with and without brim and support" ,
      "The tests never look at the order of the G-code of a real object.",
      ["gcode/generator.go", "gcode/renderer/perimeter.go", "gcode/renderer/skirt.go", "gcode/renderer/brim.go", "gcode/renderer/infill.go", "goslice.go"],
      [("Perimeter.Render", "gcode/renderer/perimeter.go"), ("NewGoSlice", "goslice.go"), ("Generate", "gcode/generator.go")],
      "exhaustive exploration of objects and options, monitoring the order of all printed lines", "exploration",
      "The order of skirt and brim and of support and its interface is not judged, nor the order of several areas.",
      ["the G-code"]),
]

# families of mc/big.go
SCENES = ", and simple objects which are large in one way (one change at each height of a 44-layer tower, towers of up to 64 layers, up to 24 parts or 20 holes, rows of rings, other centers, objects up to 11 cm long)"
AREAS = ", and simple areas which are large in one way (up to 40 parts or holes, rows of rings, combs, nested levels, spirals, up to 1.5 m long or 4 km away)"
for q in PROPS:
    if q["id"] in ("C05", "C07", "C12", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C31"):
        q["text"] += SCENES
    if q["id"] in ("C09", "C10", "C11", "C13", "C27"):
        q["text"] += AREAS
    if q["id"] == "C07":
        q["text"] += ", prisms, cones and turned shapes with up to 520 facets, and all labellings of 2x2x2 cells as two bodies with a common wall, and terrains of steep, gentle and nearly horizontal faces over up to 3x3 points, upside down as well, and round shapes with flat tops and steps exactly at the height of a layer"
    if q["id"] in ("C09", "C10", "C11", "C12", "C13"):
        q["text"] += ", and round contours with up to 520 corners"
    if q["id"] in ("C02", "C12", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C31"):
        q["text"] += ", and objects which are neither upright nor even: terrains, turned shapes with sloped walls and rings, tetrahedra"
    if q["id"] == "C03":
        q["text"] += ", and each face of fans and strips of up to 40 faces (thorough: 120) repeated at other places"
    if q["id"] == "C04":
        q["text"] += ", and meshes with more than 65536 vertices"
    if q["id"] == "C17":
        q["text"] += ", and prisms over all small polygons"
    if q["id"] in ("C14", "C15", "C17", "C18"):
        q["text"] += ", and parts which other parts embrace without touching them"
    if q["id"] in ("C07", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C27"):
        q["text"] += ", and areas with up to four holes, each of any of nine shapes, with islands in them"
    if q["id"] == "C08":
        q["text"] += ", and all prisms over small polygons with one wall (or half of it) missing, for distances just above and below the gap"
    if q["id"] == "C21":
        q["text"] += ", and all combinations of five speeds for each of the five options"
    if q["id"] == "C16":
        q["text"] += ", and towers with plates and bodies in the way of the support"
    if q["id"] == "C19":
        q["text"] += ", and a lattice of 11000 combinations of layer thicknesses, widths, filament diameters and multipliers"

NOTES = "All checks are one Go program (mc/) which is built against /repo's working tree by run.sh; nothing in /repo is instrumented."
