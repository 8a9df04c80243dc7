G = "github.com/aligator/goslice/"
PATH = """
func path(c ...data.Micrometer) data.Path {
	var p data.Path
	for i := 0; i < len(c); i += 2 {
		p = append(p, data.NewMicroPoint(c[i], c[i+1]))
	}
	return p
}
"""
SEEDS = [
dict(id="c03-far-repetition", property="C03",
  needs="a face which is repeated after eight other faces at its first vertex",
  breaks="the search for repeated faces only looks at the last faces of the vertex, so that later copies stay",
  edits=[("optimizer/optimizer.go", """		for _, faceIndex0 := range om.points[optimizedFace.indices[0]].faceIndices {
""", """		// (copies follow soon, so the last faces are enough)
		last := om.points[optimizedFace.indices[0]].faceIndices
		if len(last) > 8 {
			last = last[len(last)-8:]
		}
		for _, faceIndex0 := range last {
""")],
  pkg="optimizer", imports=[G+"data", G+"optimizer", "io", "log"],
  demo="""
func TestSeed(t *testing.T) {
	var m mesh
	n := int64(12)
	for i := int64(0); i < n; i++ {
		m = append(m, tri{{0, 0, 5000}, {1000 * i, 4000 * (i % 2), 0}, {1000 * (i + 1), 4000 * ((i + 1) % 2), 0}})
	}
	o := data.DefaultOptions()
	o.GoSlice.Logger = log.New(io.Discard, "", 0)
	om, err := optimizer.NewOptimizer(&o).Optimize(append(m[:n:n], m...))
	if err != nil || om.FaceCount() != int(n) {
		t.Fatal(err, om.FaceCount())
	}
}
"""),
dict(id="c04-packed-edges", property="C04",
  needs="a model with more than 65536 vertices",
  breaks="the edges of the faces are looked up by a number made of both vertices, which is ambiguous for big models",
  edits=[("optimizer/optimizer.go", """		face.touching = [3]int{
			om.getFaceIdxWithPoints(face.indices[0], face.indices[1], i),
			om.getFaceIdxWithPoints(face.indices[1], face.indices[2], i),
			om.getFaceIdxWithPoints(face.indices[2], face.indices[0], i),
		}
""", """		for k := range face.touching {
			face.touching[k] = -1
			for _, other := range edges[edgeKey(face.indices[k], face.indices[(k+1)%3])] {
				if other != i {
					face.touching[k] = other
					break
				}
			}
		}
"""), ("optimizer/optimizer.go", "	// count open faces\n", """	// collect the faces of all edges
	edgeKey := func(a, b int) uint32 {
		if a > b {
			a, b = b, a
		}
		return uint32(a)<<16 ^ uint32(b)
	}
	edges := map[uint32][]int{}
	for i, face := range om.faces {
		for k := range face.indices {
			key := edgeKey(face.indices[k], face.indices[(k+1)%3])
			edges[key] = append(edges[key], i)
		}
	}

	// count open faces
""")],
  pkg="optimizer", imports=[G+"data", G+"optimizer", "io", "log"],
  demo="""
func TestSeed(t *testing.T) {
	var m mesh
	for i := int64(0); i < 24000; i++ {
		x, y := i%200*1000, i/200*1000
		m = append(m, tri{{x, y, 0}, {x + 500, y, 0}, {x, y + 500, 0}})
	}
	o := data.DefaultOptions()
	o.GoSlice.Logger = log.New(io.Discard, "", 0)
	om, err := optimizer.NewOptimizer(&o).Optimize(m)
	if err != nil || om.FaceCount() != len(m) {
		t.Fatal(err, om.FaceCount())
	}
	for i := range m {
		for _, f := range om.OptimizedFace(i).TouchingFaceIndices() {
			if f != -1 {
				t.Fatal(i, f)
			}
		}
	}
}
"""),
dict(id="c07-short-segments", property="C07",
  needs="a round wall with facets which are shorter than the meld distance",
  breaks="the segments of short facets are dropped, so that finely rounded shapes get lost",
  edits=[("slicer/slicer.go", "			layer.faceToSegmentIndex[i] = len(layer.segments)\n			seg.faceIndex = i\n			seg.addedToPolygon = false\n			layer.segments = append(layer.segments, seg)\n", """			seg.faceIndex = i
			seg.addedToPolygon = false
			// (the neighbours of a very short one meet without it)
			if !seg.start.Sub(seg.end).ShorterThanOrEqual(s.options.Slicing.MeldDistance) {
				layer.faceToSegmentIndex[i] = len(layer.segments)
				layer.segments = append(layer.segments, seg)
			}
""")],
  imports=["math"],
  demo="""
func TestSeed(t *testing.T) {
	var ring [][2]int64
	n := 700
	for i := 0; i < n; i++ {
		a := 2 * math.Pi * float64(i) / float64(n)
		ring = append(ring, [2]int64{int64(math.Round(3000 * math.Cos(a))), int64(math.Round(3000 * math.Sin(a)))})
	}
	r := slice(prism(0, 1000, ring...), nil)
	if r.err != nil {
		t.Fatal(r.err)
	}
	for i, l := range r.layers {
		if len(l.LayerParts()) != 1 {
			t.Fatal(i, len(l.LayerParts()))
		}
	}
}
"""),
dict(id="c08-later-only", property="C08",
  needs="an open contour which continues in one that was found earlier, with a gap which is only small enough for closing elsewhere",
  breaks="open contours are only joined with contours found later",
  edits=[("slicer/layer.go", "			if polygon2 == nil || l.closed[j] || i == j {\n", "			// the ones before had their chance\n			if polygon2 == nil || l.closed[j] || j <= i {\n")],
  pkg="", imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	// an upright prism without bottom and top, one wall is moved, another one ends too early
	pts := [][2]int64{{0, 0}, {10000, 0}, {10000, 10000}, {0, 10000}}
	for turn := 0; turn < 4; turn++ {
		var m mesh
		for k := range pts {
			i := (k + turn) % 4
			a, b := pts[i], pts[(i+1)%4]
			if i == 0 {
				b[0] -= 600
			}
			if i == 2 {
				a[0] -= 100
			}
			m = append(m, tri{{a[0], a[1], 0}, {b[0], b[1], 0}, {b[0], b[1], 1000}})
			m = append(m, tri{{a[0], a[1], 0}, {b[0], b[1], 1000}, {a[0], a[1], 1000}})
		}
		r := slice(m, func(o *data.Options) {})
		if r.err != nil {
			t.Fatal(r.err)
		}
		for i, l := range r.layers {
			if len(l.LayerParts()) != 1 {
				t.Fatal(turn, i, len(l.LayerParts()))
			}
		}
	}
}
"""),
dict(id="c10-simplified", property="C10",
  needs="areas with corners which are nearly straight or near to each other",
  breaks="the results of union, intersection and difference are simplified",
  edits=[("clip/clip.go", "	tree, ok := cl.Execute2(clipType, clipper.PftNonZero, clipper.PftNonZero)\n", "	tree, ok := cl.Execute2(clipType, clipper.PftNonZero, clipper.PftNonZero)\n"),
   ("clip/clip.go", "		return nil, ok\n	}\n	return polyTreeToLayerParts(tree), ok\n", """		return nil, ok
	}
	for _, part := range polyTreeToLayerParts(tree) {
		outline := part.Outline().Simplify(-1, -1)
		if len(outline) < 3 {
			outline = part.Outline()
		}
		clippedParts = append(clippedParts, data.NewBasicLayerPart(outline, part.Holes()))
	}
	return clippedParts, ok
""")],
  pkg="clip", imports=[G+"data", G+"clip"],
  demo=PATH+"""
func TestSeed(t *testing.T) {
	a := path(0, 0, 5000, 2, 10000, 0, 10000, 10000, 0, 10000)
	r, ok := clip.NewClipper().Union([]data.LayerPart{data.NewBasicLayerPart(a, nil)}, nil)
	if !ok || len(r) != 1 || len(r[0].Outline()) != 5 {
		t.Fatal(ok, r)
	}
}
"""),
dict(id="c10-nothing-to-remove", property="C10",
  needs="a difference of overlapping parts and nothing",
  breaks="the parts are returned as they are, so that they still overlap",
  edits=[("clip/clip.go", "	return c.runClipper(clipper.CtDifference, parts, toRemove)\n", """	if len(toRemove) == 0 {
		return append([]data.LayerPart{}, parts...), true
	}
	clippedParts, ok = c.runClipper(clipper.CtDifference, parts, toRemove)
	return clippedParts, ok
""")],
  pkg="clip", imports=[G+"data", G+"clip"],
  demo=PATH+"""
func TestSeed(t *testing.T) {
	a := data.NewBasicLayerPart(path(0, 0, 5000, 0, 5000, 5000, 0, 5000), nil)
	b := data.NewBasicLayerPart(path(2000, 2000, 9000, 2000, 9000, 9000, 2000, 9000), nil)
	r, ok := clip.NewClipper().Difference([]data.LayerPart{a, b}, nil)
	if !ok || len(r) != 1 {
		t.Fatal(ok, r)
	}
}
"""),
dict(id="c13-unrotated-check", property="C13",
  needs="a zigzag filling of a rotated pattern in an area which is not convex",
  breaks="connections are tested against the area before its rotation",
  edits=[("clip/linear.go", "	result := p.sortInfill(microPaths(resultInfill, false), p.zigZag, data.NewBasicLayerPart(outline, holes))\n", "	result := p.sortInfill(microPaths(resultInfill, false), p.zigZag, part)\n")],
  pkg="clip", imports=[G+"data", G+"clip"],
  demo=PATH+"""
func TestSeed(t *testing.T) {
	// there is nothing above y = 2000 between the arms
	u := path(0, 0, 10000, 0, 10000, 10000, 8000, 10000, 8000, 2000, 2000, 2000, 2000, 10000, 0, 10000)
	min, max := u.Bounds()
	for degree := 0; degree < 360; degree += 15 {
		for _, distance := range []data.Micrometer{700, 1500, 4000} {
			lines, err := clip.NewLinearPattern(400, distance, min, max, degree, false, true).Fill(1, data.NewBasicLayerPart(u, nil))
			if err != nil {
				t.Fatal(err)
			}
			for _, l := range lines {
				x, y := (l[0].X()+l[1].X())/2, (l[0].Y()+l[1].Y())/2
				if x > 2100 && x < 7900 && y > 2100 {
					t.Fatal(degree, distance, l[0], l[1])
				}
			}
			if degree == 0 || degree == 90 {
				connections := 0
				for _, l := range lines {
					if (l[0].X() != l[1].X()) == (degree == 0) && l[0].Sub(l[1]).Size() < 2*distance {
						connections++
					}
				}
				if distance == 700 && connections == 0 {
					t.Fatal("no connections", degree)
				}
			}
		}
	}
}
"""),
dict(id="c14-against-walls", property="C14",
  needs="a wall which leans outwards or inwards by less than half a line width per layer",
  breaks="the layers above and below count as covering only up to the middle of their outer walls",
  edits=[("modifier/internal_infill.go", """	for _, otherPart := range layerToRemove.LayerParts() {
		toClip = append(toClip, otherPart)
	}
""", """	perimeters, err := Perimeters(layerToRemove)
	if err != nil {
		return nil, err
	}
	for partNr, otherPart := range layerToRemove.LayerParts() {
		if partNr < len(perimeters) && len(perimeters[partNr]) > 0 && len(perimeters[partNr][0]) > 0 {
			// what is printed covers
			toClip = append(toClip, perimeters[partNr][0]...)
			continue
		}
		toClip = append(toClip, otherPart)
	}
""")],
  imports=[G+"data", G+"modifier"],
  demo="""
func TestSeed(t *testing.T) {
	// one wall: the inside is wider than the outer wall of the layer above
	m := join(box(0, 0, 0, 20000, 20000, 2000), box(150, 150, 2000, 19850, 19850, 4000))
	r := slice(m, func(o *data.Options) { o.Print.InsetCount = 1 })
	if r.err != nil {
		t.Fatal(r.err)
	}
	for i := 5; i < 14; i++ {
		top, err := modifier.TopInfill(r.layers[i])
		if err != nil {
			t.Fatal(err)
		}
		if len(top) > 0 {
			t.Fatal(i, top[0].Outline())
		}
	}
}
"""),
dict(id="c16-holes-filled", property="C16",
  needs="an overhang inside of a hole of the layers below",
  breaks="there is no support inside of holes",
  edits=[("modifier/support.go", "		actualSupport, ok := cl.Difference(result, biggerLayer)\n", """		var outlines []data.LayerPart
		for _, part := range biggerLayer {
			outlines = append(outlines, data.NewBasicLayerPart(part.Outline(), nil))
		}
		actualSupport, ok := cl.Difference(result, outlines)
""")],
  imports=[G+"data", G+"modifier"],
  demo="""
func TestSeed(t *testing.T) {
	m := join(box(0, 0, 0, 40000, 40000, 4000), invert(box(5000, 5000, 0, 35000, 35000, 3000)))
	r := slice(m, func(o *data.Options) { o.Print.Support.Enabled = true })
	if r.err != nil {
		t.Fatal(r.err)
	}
	s, err := modifier.FullSupport(r.layers[3])
	if err != nil || len(s) == 0 {
		t.Fatal(err, s)
	}
}
"""),
dict(id="c17-bbox-inside", property="C17",
  needs="a part which stands in the bay of another part",
  breaks="a part inside of the bounding box of another one gets no brim, as it is taken for an inner part",
  edits=[("modifier/brim.go", """	for _, p := range topLevelPerimeters {
		allOuterPerimeters = append(allOuterPerimeters, data.NewBasicLayerPart(p, nil))
	}
""", """	for i, p := range topLevelPerimeters {
		inside := false
		min, max := p.Bounds()
		for j, other := range topLevelPerimeters {
			otherMin, otherMax := other.Bounds()
			if i != j && min.X() > otherMin.X() && min.Y() > otherMin.Y() && max.X() < otherMax.X() && max.Y() < otherMax.Y() {
				inside = true
			}
		}
		if !inside {
			allOuterPerimeters = append(allOuterPerimeters, data.NewBasicLayerPart(p, nil))
		}
	}
""")],
  imports=[G+"data", G+"modifier"],
  demo="""
func TestSeed(t *testing.T) {
	u := [][2]int64{{0, 0}, {40000, 0}, {40000, 40000}, {35000, 40000}, {35000, 5000}, {5000, 5000}, {5000, 40000}, {0, 40000}}
	r := slice(join(prism(0, 1000, u...), box(15000, 15000, 0, 25000, 25000, 1000)), func(o *data.Options) { o.Print.BrimSkirt.BrimCount = 2 })
	if r.err != nil {
		t.Fatal(r.err)
	}
	b, err := modifier.Brim(r.layers[0])
	if err != nil || len(b) != 2 {
		t.Fatal(err, len(b))
	}
}
"""),
dict(id="c20-clamped-retraction", property="C20",
  needs="a retraction before as much filament as the retraction length was extruded",
  breaks="only what was extruded so far is retracted, but the full length is given back",
  edits=[("gcode/builder.go", "				g.AddMoveSpeed(g.currentPosition, -g.retractionAmount, g.retractionSpeed)\n", """				// there is never more in the nozzle than what was extruded
				amount := g.retractionAmount
				if data.Millimeter(g.extrusionAmount) < amount {
					amount = data.Millimeter(g.extrusionAmount)
				}
				g.AddMoveSpeed(g.currentPosition, -amount, g.retractionSpeed)
""")],
  imports=[G+"data", "math"],
  demo="""
func TestSeed(t *testing.T) {
	m := join(box(0, 0, 0, 2000, 2000, 1000), box(5000, 0, 0, 7000, 2000, 1000))
	r := slice(m, func(o *data.Options) {
		o.Filament.RetractionLength = 8
		o.Print.BrimSkirt.SkirtCount = 0
	})
	if r.err != nil {
		t.Fatal(r.err)
	}
	n := 0
	for _, m := range moves(r.gcode) {
		if m.hasE && m.length() == 0 && m.e < 0 {
			n++
			if math.Abs(m.e+8) > 0.001 {
				t.Fatal(m.e)
			}
		}
	}
	if n == 0 {
		t.Fatal("no retraction")
	}
}
"""),
dict(id="c22-fan-unchanged", property="C22",
  needs="two configured layers with the same fan speed one after the other",
  breaks="the fan is not set again at the second of them",
  edits=[("gcode/renderer/layer.go", "	if fanSpeed, ok := options.Filament.FanSpeed.LayerToSpeedLUT[layerNr]; ok {\n", """	fanSpeed, ok := options.Filament.FanSpeed.LayerToSpeedLUT[layerNr]
	for before := layerNr - 1; ok && before >= 0; before-- {
		if speed, set := options.Filament.FanSpeed.LayerToSpeedLUT[before]; set {
			// it may run with this speed already
			ok = speed != fanSpeed
			break
		}
	}
	if ok {
""")],
  imports=[G+"data", "strings"],
  demo="""
func TestSeed(t *testing.T) {
	r := slice(box(0, 0, 0, 5000, 5000, 3000), func(o *data.Options) {
		o.Filament.FanSpeed.LayerToSpeedLUT = map[int]int{1: 100, 4: 100, 6: 200}
	})
	if r.err != nil {
		t.Fatal(r.err)
	}
	if n := strings.Count(r.gcode, "M106 S100"); n != 2 {
		t.Fatal(n)
	}
}
"""),
dict(id="c23-zero-tolerance", property="C23",
  needs="smoothing with a tolerance of 0",
  breaks="a tolerance of 0 is taken for the default one",
  edits=[("data/2d.go", "	if epsilon == -1 {\n", "	if epsilon <= 0 {\n")],
  pkg="data", imports=[G+"data"],
  demo=PATH+"""
func TestSeed(t *testing.T) {
	p := data.DouglasPeucker(path(0, 0, 5000, 5, 10000, 0), 0)
	if len(p) != 3 {
		t.Fatal(p)
	}
}
"""),
dict(id="c25-rename-error", property="C25",
  needs="an output path which is a directory",
  breaks="the G-code is written to a temporary file beside it, the error of the final renaming gets lost",
  edits=[("writer/writer.go", "	buf, err := os.Create(filename)\n", "	buf, err := os.Create(filename + \".part\")\n"),
   ("writer/writer.go", "	defer buf.Close()\n\n	_, err = buf.WriteString(gcode)\n	return err\n", """	defer os.Rename(buf.Name(), filename)
	defer buf.Close()

	_, err = buf.WriteString(gcode)
	return err
""")],
  pkg="writer", imports=[G+"writer", "os", "path/filepath"],
  demo="""
func TestSeed(t *testing.T) {
	d := filepath.Join(os.Getenv("SEED_SCRATCH"), "out")
	if err := os.MkdirAll(filepath.Join(d, "x"), 0o755); err != nil {
		t.Fatal(err)
	}
	if err := writer.Writer().Write("G0\\n", d); err == nil {
		t.Fatal("no error")
	}
}
"""),
dict(id="c26-templates-replaced", property="C26",
  needs="a second run with the same start code and other temperatures",
  breaks="the temperatures of the first run are written into the start code of the options",
  edits=[("gcode/renderer/layer.go", "		for _, instruction := range options.Printer.StartGCode.GCodeLines {\n", "		for i, instruction := range options.Printer.StartGCode.GCodeLines {\n"),
   ("gcode/renderer/layer.go", """			b.AddCommand(instruction)
		}

		b.AddCommand("G92""", """			options.Printer.StartGCode.GCodeLines[i] = instruction
			b.AddCommand(instruction)
		}

		b.AddCommand("G92""")],
  imports=[G+"data", "strings", "fmt"],
  demo="""
func TestSeed(t *testing.T) {
	lines := []string{"M109 S{print_temperature}", "G28"}
	for _, temp := range []int{201, 215} {
		r := slice(box(0, 0, 0, 5000, 5000, 1000), func(o *data.Options) {
			o.Printer.StartGCode.GCodeLines = lines
			o.Filament.InitialHotEndTemperature = temp
		})
		if r.err != nil || !strings.Contains(r.gcode, fmt.Sprintf("M109 S%d\\n", temp)) {
			t.Fatal(r.err, temp)
		}
	}
}
"""),
dict(id="c28-whole-degrees", property="C28",
  needs="a rotation by a fraction of a degree",
  breaks="rotations are by whole degrees only",
  edits=[("data/micrometer.go", """	rad := ToRadians(degree)
	sin := math.Sin(rad)
	cos := math.Cos(rad)
""", """	// keep the angle small, that is more exact
	rad := ToRadians(float64(int(degree) % 360))
	sin := math.Sin(rad)
	cos := math.Cos(rad)
""")],
  pkg="data", imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	p := data.NewMicroPoint(100000, 0).Rotate(22.5)
	if p.X() != 92388 || p.Y() != 38268 {
		t.Fatal(p.X(), p.Y())
	}
}
"""),
dict(id="c30-outwards", property="C30",
  needs="a face which looks towards the middle of the model",
  breaks="all faces are turned so that they look away from the center of the model",
  edits=[("optimizer/model.go", "	for _, face := range o.faces {\n		triangles = append(triangles, stl.Triangle{\n", """	center := o.Min().Add(o.Max()).Div(2)
	for i := range o.faces {
		face := o.faces[i]
		// the normal has to point to the outside
		p := face.Points()
		a, b, d := p[1].Sub(p[0]), p[2].Sub(p[0]), p[0].Sub(center)
		if d.X()*(a.Y()*b.Z()-a.Z()*b.Y())+d.Y()*(a.Z()*b.X()-a.X()*b.Z())+d.Z()*(a.X()*b.Y()-a.Y()*b.X()) < 0 {
			face.indices[1], face.indices[2] = face.indices[2], face.indices[1]
		}
		triangles = append(triangles, stl.Triangle{
""")],
  pkg="optimizer", imports=[G+"data", G+"optimizer", G+"reader", "os", "path/filepath", "io", "log"],
  demo="""
func TestSeed(t *testing.T) {
	m := prism(0, 2000, [][2]int64{{0, 0}, {9000, 0}, {9000, 9000}, {7000, 9000}, {7000, 2000}, {2000, 2000}, {2000, 9000}, {0, 9000}}...)
	o := data.DefaultOptions()
	o.GoSlice.Logger = log.New(io.Discard, "", 0)
	om, err := optimizer.NewOptimizer(&o).Optimize(m)
	if err != nil {
		t.Fatal(err)
	}
	name := filepath.Join(os.Getenv("SEED_SCRATCH"), "x.stl")
	if err := om.SaveDebugSTL(name); err != nil {
		t.Fatal(err)
	}
	got, err := reader.Reader(&o).Read(name)
	if err != nil || got.FaceCount() != om.FaceCount() {
		t.Fatal(err)
	}
	for i := 0; i < got.FaceCount(); i++ {
		for k := range got.Face(i).Points() {
			if a, b := got.Face(i).Points()[k], om.Face(i).Points()[k]; a.Sub(b).Size2() != 0 {
				t.Fatal(i, k, a, b)
			}
		}
	}
}
"""),
dict(id="c31-interface-last", property="C31",
  needs="support with an interface in a layer with fillings",
  breaks="the interface of the support is printed after the infill",
  edits=[("goslice.go", """		gcode.WithRenderer(&renderer.Infill{
			PatternSetup: func(min data.MicroPoint, max data.MicroPoint) clip.Pattern {
				// make bounding box bigger to allow generation of support which has always at least two lines
				min.SetX(min.X() - patternSpacing)
				min.SetY(min.Y() - patternSpacing)
				max.SetX(max.X() + patternSpacing)
				max.SetY(max.Y() + patternSpacing)
				return clip.NewLinearPattern(options.Printer.ExtrusionWidth, options.Printer.ExtrusionWidth, min, max, 0, false, true)
			},
			AttrName: "supportInterface",
			Comments: []string{"TYPE:SUPPORT"},
		}),
""", ""), ("goslice.go", "		gcode.WithRenderer(renderer.PostLayer{}),\n", """		gcode.WithRenderer(&renderer.Infill{
			PatternSetup: func(min data.MicroPoint, max data.MicroPoint) clip.Pattern {
				// make bounding box bigger to allow generation of support which has always at least two lines
				min.SetX(min.X() - patternSpacing)
				min.SetY(min.Y() - patternSpacing)
				max.SetX(max.X() + patternSpacing)
				max.SetY(max.Y() + patternSpacing)
				return clip.NewLinearPattern(options.Printer.ExtrusionWidth, options.Printer.ExtrusionWidth, min, max, 0, false, true)
			},
			AttrName: "supportInterface",
			Comments: []string{"TYPE:SUPPORT"},
		}),
		gcode.WithRenderer(renderer.PostLayer{}),
""")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	m := join(box(0, 0, 0, 10000, 10000, 3000), box(0, 0, 3000, 30000, 10000, 5000))
	r := slice(m, func(o *data.Options) { o.Print.Support.Enabled = true })
	if r.err != nil {
		t.Fatal(r.err)
	}
	filled, n := -1, 0
	for _, m := range moves(r.gcode) {
		if !m.prints() {
			continue
		}
		if m.typ == "FILL" {
			filled = m.layer
		}
		if m.typ == "SUPPORT" {
			n++
			if filled == m.layer {
				t.Fatal(m.layer)
			}
		}
	}
	if n == 0 {
		t.Fatal("no support")
	}
}
"""),
]
