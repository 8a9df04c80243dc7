G = "github.com/aligator/goslice/"
SEEDS = [
dict(id="c04-hub-touching", property="C04",
  needs="a vertex which more than 60 faces share, such as the tip of a finely divided cone",
  breaks="the touching faces of the later faces around the vertex are not found",
  edits=[("optimizer/model.go", "	for _, faceIndex0 := range o.points[idx0].faceIndices {\n", """	for n, faceIndex0 := range o.points[idx0].faceIndices {
		if n > 60 {
			// no sane mesh has that many faces around one point
			break
		}
""")],
  imports=[G+"data", G+"optimizer", "log", "io", "math"],
  demo="""
func TestSeed(t *testing.T) {
	var m mesh
	n := 90
	at := func(i int) v3 {
		a := 2 * math.Pi * float64(i%n) / float64(n)
		return v3{int64(20000 * math.Cos(a)), int64(20000 * math.Sin(a)), 0}
	}
	for i := 0; i < n; i++ {
		m = append(m, tri{at(i), at(i + 1), v3{0, 0, 10000}}, tri{at(i + 1), at(i), v3{0, 0, 0}})
	}
	o := data.DefaultOptions()
	o.GoSlice.Logger = log.New(io.Discard, "", 0)
	om, err := optimizer.NewOptimizer(&o).Optimize(m)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < om.FaceCount(); i++ {
		for _, f := range om.OptimizedFace(i).TouchingFaceIndices() {
			if f < 0 {
				t.Fatal(i, om.OptimizedFace(i).TouchingFaceIndices())
			}
		}
	}
}
"""),
dict(id="c05-worker-order", property="C05",
  needs="another number of processors",
  breaks="the order in which the parts are filled, and so the G-code, depends on the number of processors of the computer",
  edits=[("gcode/renderer/infill.go", "	for _, part := range infillParts {\n", """	// deal the parts out to the processors
	var dealt []data.LayerPart
	for worker, n := 0, runtime.GOMAXPROCS(0); worker < n; worker++ {
		for k := worker; k < len(infillParts); k += n {
			dealt = append(dealt, infillParts[k])
		}
	}

	for _, part := range dealt {
"""), ("gcode/renderer/infill.go", "import (\n", 'import (\n	"runtime"\n\n')],
  imports=[G+"data", "runtime"],
  demo="""
func TestSeed(t *testing.T) {
	m := join(box(0, 0, 0, 20000, 10000, 3000), box(30000, 0, 0, 40000, 10000, 3000), box(0, 30000, 0, 20000, 40000, 3000), box(30000, 30000, 0, 40000, 50000, 3000))
	a := slice(m, func(o *data.Options) {})
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(3))
	b := slice(m, func(o *data.Options) {})
	runtime.GOMAXPROCS(1)
	c := slice(m, func(o *data.Options) {})
	if a.err != nil || a.gcode != b.gcode || a.gcode != c.gcode {
		t.Fatal(a.err)
	}
}
"""),
dict(id="c06-trim-top", property="C06",
  needs="a model with a top which is too thin to be sliced (below the size of the smallest contour)",
  breaks="the layers of the top are missing",
  edits=[("slicer/slicer.go", "	return retLayers, nil\n", """	// nothing is printed above the last layer which has any part
	for len(retLayers) > 1 && len(retLayers[len(retLayers)-1].LayerParts()) == 0 {
		retLayers = retLayers[:len(retLayers)-1]
	}
	return retLayers[:len(retLayers):len(retLayers)], nil
""")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	m := join(box(0, 0, 0, 20000, 20000, 2000), box(10000, 10000, 2000, 10150, 10150, 4000))
	r := slice(m, func(o *data.Options) {})
	if r.err != nil || len(r.layers) != 20 {
		t.Fatal(r.err, len(r.layers))
	}
}
"""),
dict(id="c07-many-points", property="C07",
  needs="a contour with more than 150 points",
  breaks="fine contours are smoothed ten times as much as documented",
  edits=[("clip/clip.go", "		polyList = append(polyList, clipperPath(layerPolygon.Simplify(-1, -1)))\n", """		smallest, allowedError := data.Micrometer(-1), data.Micrometer(-1)
		if len(layerPolygon) > 150 {
			// clipper is slow with that many points
			smallest, allowedError = 1000*1000, 80*80
		}
		polyList = append(polyList, clipperPath(layerPolygon.Simplify(smallest, allowedError)))
""")],
  imports=[G+"data", "math"],
  demo="""
func TestSeed(t *testing.T) {
	var p [][2]int64
	for i := 0; i < 200; i++ {
		a := 2 * math.Pi * float64(i) / 200
		r := 5000.0
		p = append(p, [2]int64{int64(r * math.Cos(a)), int64(r * math.Sin(a))})
	}
	r := slice(prism(0, 400, p...), func(o *data.Options) { o.Printer.Center = data.NewMicroVec3(0, 0, 0) })
	if r.err != nil {
		t.Fatal(r.err)
	}
	for _, q := range p {
		best := 1e9
		o := r.layers[0].LayerParts()[0].Outline()
		for i := range o {
			a, b := o[i], o[(i+1)%len(o)]
			dx, dy := float64(b.X()-a.X()), float64(b.Y()-a.Y())
			x, y := float64(q[0])-float64(a.X()), float64(q[1])-float64(a.Y())
			s := math.Max(0, math.Min(1, (x*dx+y*dy)/(dx*dx+dy*dy)))
			best = math.Min(best, math.Hypot(x-s*dx, y-s*dy))
		}
		if best > 20 {
			t.Fatal(q, best)
		}
	}
}
"""),
dict(id="c08-two-joins", property="C08",
  needs="a layer whose contour has more than three gaps",
  breaks="the contour stays open and is dropped",
  edits=[("slicer/layer.go", "		if best > -1 {\n", """		if best > -1 && joins < 2 {
			joins++
"""), ("slicer/layer.go", "RerunConnectPolygons:\n", "	joins := 0\nRerunConnectPolygons:\n")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	// a box with a tiny gap in the middle of each side
	c := [][2]int64{{0, 0}, {10000, 0}, {10000, 10000}, {0, 10000}}
	var poly [][2]int64
	for i, a := range c {
		b := c[(i+1)%4]
		dx, dy := (b[0]-a[0])/10000, (b[1]-a[1])/10000
		poly = append(poly, a, [2]int64{a[0] + dx*4950, a[1] + dy*4950}, [2]int64{a[0] + dx*5050, a[1] + dy*5050})
	}
	m := prism(0, 2000, poly...)
	var r mesh
	for _, f := range m {
		gap := 0
		for i := range f {
			for k := range poly {
				if k%3 > 0 && f[i][0] == poly[k][0] && f[i][1] == poly[k][1] {
					gap++
				}
			}
		}
		if gap == 3 && (f[0][2] != f[1][2] || f[1][2] != f[2][2]) {
			continue
		}
		r = append(r, f)
	}
	if len(r) != len(m)-8 {
		t.Fatal(len(m), len(r))
	}
	res := slice(r, func(o *data.Options) {})
	if res.err != nil {
		t.Fatal(res.err)
	}
	for _, l := range res.layers[:5] {
		if a := area(l.LayerParts()); a < 99 || a > 101 {
			t.Fatal(a)
		}
	}
}
"""),
dict(id="c09-deep-nesting", property="C09",
  needs="parts which are nested four levels deep (seven contours inside of each other)",
  breaks="the innermost parts are lost",
  edits=[("clip/clip.go", """	for {
		if polysForNextRound == nil {
			break
		}
""", """	for level := 0; level < 3; level++ {
		if polysForNextRound == nil {
			break
		}
""")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	var m mesh
	want := 0.0
	for i := int64(0); i < 9; i++ {
		b := box(i*3000, i*3000, 0, 60000-i*3000, 60000-i*3000, 1000)
		s := float64(60-6*i) * float64(60-6*i)
		if i%2 == 1 {
			b = invert(b)
			s = -s
		}
		want += s
		m = join(m, b)
	}
	r := slice(m, func(o *data.Options) {})
	if r.err != nil {
		t.Fatal(r.err)
	}
	if a := area(r.layers[1].LayerParts()); a < want-1 || a > want+1 || len(r.layers[1].LayerParts()) != 5 {
		t.Fatal(a, want)
	}
}
"""),
dict(id="c10-first-box", property="C10",
  needs="a difference with several areas of which only a later one lies over the first",
  breaks="nothing is removed",
  edits=[("clip/clip.go", "	return c.runClipper(clipper.CtDifference, parts, toRemove)\n", """	if len(parts) == 1 && len(toRemove) > 0 {
		// nothing to do if they are apart
		min, max := parts[0].Outline().Bounds()
		otherMin, otherMax := toRemove[0].Outline().Bounds()
		if otherMin.X() > max.X() || otherMax.X() < min.X() || otherMin.Y() > max.Y() || otherMax.Y() < min.Y() {
			return parts, true
		}
	}
	clippedParts, ok = c.runClipper(clipper.CtDifference, parts, toRemove)
	return clippedParts, ok
""")],
  imports=[G+"data", G+"clip"],
  demo="""
func TestSeed(t *testing.T) {
	p := func(x, y data.Micrometer) data.MicroPoint { return data.NewMicroPoint(x*1000, y*1000) }
	sq := func(x, y data.Micrometer) data.LayerPart {
		return data.NewBasicLayerPart(data.Path{p(x, y), p(x+5, y), p(x+5, y+5), p(x, y+5)}, nil)
	}
	d, ok := clip.NewClipper().Difference([]data.LayerPart{sq(0, 0)}, []data.LayerPart{sq(30, 0), sq(3, 3)})
	if a := area(d); !ok || a != 21 {
		t.Fatal(a)
	}
}
"""),
dict(id="c11-small-holes", property="C11",
  needs="a hole which is smaller than the distance of the inset",
  breaks="small holes are ignored, the insets run right through them",
  edits=[("clip/clip.go", "		co.AddPaths(clipperPaths(part.Holes()), clipper.JtSquare, clipper.EtClosedPolygon)\n\n", """		for _, hole := range part.Holes() {
			if min, max := hole.Bounds(); insetNr > 0 && max.X()-min.X() < offset && max.Y()-min.Y() < offset {
				// no line fits in there
				continue
			}
			co.AddPath(clipperPath(hole), clipper.JtSquare, clipper.EtClosedPolygon)
		}

""")],
  imports=[G+"data", G+"clip"],
  demo="""
func TestSeed(t *testing.T) {
	p := func(x, y data.Micrometer) data.MicroPoint { return data.NewMicroPoint(x, y) }
	part := data.NewBasicLayerPart(data.Path{p(0, 0), p(10000, 0), p(10000, 10000), p(0, 10000)}, data.Paths{{p(5000, 5000), p(5000, 5300), p(5300, 5300), p(5300, 5000)}})
	for _, inset := range clip.NewClipper().Inset(part, 400, 3, -200) {
		if len(inset) != 1 || len(inset[0].Holes()) != 1 {
			t.Fatal(inset)
		}
	}
}
"""),
dict(id="c12-narrow-parts", property="C12",
  needs="a part which is narrower than four lines beside another number of perimeters than one",
  breaks="narrow parts get only one perimeter although there is room for two",
  edits=[("modifier/perimeter.go", "		insetParts := c.InsetLayer(layers[layerNr].LayerParts(), m.options.Printer.ExtrusionWidth, m.options.Print.InsetCount, -m.options.Printer.ExtrusionWidth/2)\n", """		var insetParts clip.OffsetResult
		for _, part := range layers[layerNr].LayerParts() {
			count := m.options.Print.InsetCount
			min, max := part.Outline().Bounds()
			if count > 1 && data.Min(max.X()-min.X(), max.Y()-min.Y()) <= 4*m.options.Printer.ExtrusionWidth {
				// there is no room for more
				count = 1
			}
			insetParts = append(insetParts, c.Inset(part, m.options.Printer.ExtrusionWidth, count, -m.options.Printer.ExtrusionWidth/2))
		}
""")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	r := slice(box(0, 0, 0, 20000, 1500, 1000), func(o *data.Options) {})
	if r.err != nil {
		t.Fatal(r.err)
	}
	inner := 0
	for _, m := range moves(r.gcode) {
		if m.typ == "WALL-INNER" && m.prints() {
			inner++
		}
	}
	if inner == 0 {
		t.Fatal("no inner wall")
	}
}
"""),
dict(id="c14-empty-neighbour", property="C14",
  needs="a layer with nothing at all below or above it in the middle of the model",
  breaks="the surfaces at the gap are not filled solidly",
  edits=[("modifier/internal_infill.go", """	for _, otherPart := range layerToRemove.LayerParts() {
		toClip = append(toClip, otherPart)
	}
""", """	toClip = append(toClip, layerToRemove.LayerParts()...)
	if len(toClip) == 0 {
		// nothing to compare with
		return nil, nil
	}
""")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	m := join(box(0, 0, 0, 20000, 20000, 3000), box(0, 0, 6000, 20000, 20000, 9000))
	r := slice(m, func(o *data.Options) {})
	if r.err != nil {
		t.Fatal(r.err)
	}
	if a := area(attr(r.layers[14], "top")); a < 300 {
		t.Fatal(a)
	}
	if a := area(attr(r.layers[30], "bottom")); a < 300 {
		t.Fatal(a)
	}
}
"""),
dict(id="c15-box-skip", property="C15",
  needs="a part whose bounding box lies in the bounding box of a solid area, but which is not covered by it",
  breaks="the inside of the part is not filled",
  edits=[("modifier/internal_infill.go", "			if overlappingPart == nil && bottomInfill == nil && topInfill == nil {\n", """			covered := len(overlappingPart) == 1 && len(bottomInfill) == 1 && len(overlappingPerimeters) > 1
			if covered {
				// skip parts which are solid anyway
				min, max := overlappingPart[0].Outline().Bounds()
				solidMin, solidMax := bottomInfill[0].Outline().Bounds()
				covered = solidMin.X() <= min.X() && solidMin.Y() <= min.Y() && max.X() <= solidMax.X() && max.Y() <= solidMax.Y()
			}

			if covered || overlappingPart == nil && bottomInfill == nil && topInfill == nil {
""")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	// a tower in a frame which starts above the plate
	frame := join(box(0, 0, 3000, 40000, 40000, 9000), invert(box(10000, 10000, 3000, 30000, 30000, 9000)))
	tower := box(14000, 14000, 0, 26000, 26000, 9000)
	r := slice(join(frame, tower), func(o *data.Options) {})
	if r.err != nil {
		t.Fatal(r.err)
	}
	n := 0
	for _, m := range moves(r.gcode) {
		if m.layer == 15 && m.typ == "FILL" && m.prints() && m.sub == "INTERNAL-FILL" && m.x0 > 94 && m.x0 < 106 && m.y0 > 94 && m.y0 < 106 {
			n++
		}
	}
	if n == 0 {
		t.Fatal("the tower is hollow")
	}
}
"""),
dict(id="c16-first-layer-thickness", property="C16",
  needs="a first layer which is thicker or thinner than the others",
  breaks="the overhang above the first layer is judged by the wrong height",
  edits=[("modifier/support.go", "		distance := float64(m.options.Print.LayerThickness) * math.Tan(data.ToRadians(float64(m.options.Print.Support.ThresholdAngle)))\n", """		thickness := m.options.Print.LayerThickness
		if layerNr == 0 {
			thickness = m.options.Print.InitialLayerThickness
		}
		distance := float64(thickness) * math.Tan(data.ToRadians(float64(m.options.Print.Support.ThresholdAngle)))
""")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	m := join(box(0, 0, 0, 20000, 20000, 500), box(0, 0, 500, 20800, 20000, 3000))
	r := slice(m, func(o *data.Options) {
		o.Print.InitialLayerThickness = 500
		o.Print.Support.Enabled = true
		o.Print.Support.TopGapLayers = 0
		o.Print.Support.PatternSpacing = 1
		o.Print.Support.Gap = 0
		o.Print.BrimSkirt.SkirtCount = 0
	})
	if r.err != nil {
		t.Fatal(r.err)
	}
	if a := area(attr(r.layers[0], "support")) + area(attr(r.layers[0], "supportInterface")); a == 0 {
		t.Fatal("no support")
	}
}
"""),
dict(id="c17-whole-skirt", property="C17",
  needs="a skirt distance which is no whole number of millimetres",
  breaks="the skirt is too near to the model",
  edits=[("gcode/renderer/skirt.go", "options.Print.BrimSkirt.SkirtDistance.ToMicrometer() +", "data.Micrometer(options.Print.BrimSkirt.SkirtDistance)*1000 +")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	r := slice(box(0, 0, 0, 20000, 20000, 1000), func(o *data.Options) { o.Print.BrimSkirt.SkirtDistance = 2.75 })
	if r.err != nil {
		t.Fatal(r.err)
	}
	x := 100.0
	for _, m := range moves(r.gcode) {
		if m.typ == "SKIRT" && m.prints() && m.x0 < x {
			x = m.x0
		}
	}
	// center 100, half width 10, two skirt lines
	if x > 90-2.75-0.4 {
		t.Fatal(x)
	}
}
"""),
dict(id="c19-significant-digits", property="C19",
  needs="a print which needs more than ten metres of filament",
  breaks="the material of short lines is rounded to zero or twice the amount",
  edits=[("gcode/builder.go", """		g.buf.WriteString(fmt.Sprintf(" E%0.4f", g.extrusionAmount))
""", """		digits := 4
		for limit := 10000.0; g.extrusionAmount >= limit && digits > 1; limit *= 2 {
			// 32 bit controllers have only seven digits
			digits--
		}
		g.buf.WriteString(fmt.Sprintf(" E%0.*f", digits, g.extrusionAmount))
""")],
  imports=[G+"data", G+"gcode", "strings", "strconv", "math"],
  demo="""
func TestSeed(t *testing.T) {
	o := data.DefaultOptions()
	b := gcode.NewGCodeBuilder(&o)
	b.SetExtrusion(200, 400)
	b.SetExtrudeSpeed(50)
	b.SetMoveSpeed(50)
	last := func() float64 {
		s := b.String()
		e, err := strconv.ParseFloat(strings.TrimSpace(s[strings.LastIndex(s, "E")+1:]), 64)
		if err != nil {
			t.Fatal(err)
		}
		return e
	}
	at := func(x int) data.MicroPoint { return data.NewMicroPoint(data.Micrometer(x), 0) }
	for i := 0; i < 900; i++ {
		x := i % 2 * 1000000
		if err := b.AddPolygon(nil, data.Path{at(x), at(1000000 - x)}, 200, true); err != nil {
			t.Fatal(err)
		}
	}
	a := last()
	if err := b.AddPolygon(nil, data.Path{at(0), at(500)}, 200, true); err != nil {
		t.Fatal(err)
	}
	want := 0.5 * 0.2 * 0.4 / (math.Pi * 1.75 * 1.75 / 4)
	if e := last() - a; math.Abs(e-want) > 0.0011 {
		t.Fatal(e, want)
	}
}
"""),
dict(id="c20-layer-change", property="C20",
  needs="a first travel of a layer which leaves the printed area",
  breaks="the travel to the next layer is not retracted",
  edits=[("gcode/builder.go", "				isCrossing, ok = c.IsCrossingPerimeter(currentLayer.LayerParts(), move)\n", """				sameLayer := g.currentPosition.Z() == z
				isCrossing, ok = c.IsCrossingPerimeter(currentLayer.LayerParts(), append(data.Path{}, move...))
				isCrossing = isCrossing && sameLayer
""")],
  imports=[G+"data", G+"gcode", "strings"],
  demo="""
func TestSeed(t *testing.T) {
	p := func(x, y data.Micrometer) data.MicroPoint { return data.NewMicroPoint(x*1000, y*1000) }
	sq := func(x data.Micrometer) data.LayerPart {
		return data.NewBasicLayerPart(data.Path{p(x, 0), p(x+5, 0), p(x+5, 5), p(x, 5)}, nil)
	}
	o := data.DefaultOptions()
	b := gcode.NewGCodeBuilder(&o)
	b.SetExtrusion(200, 400)
	b.SetExtrudeSpeed(50)
	b.SetMoveSpeed(50)
	b.SetRetractionAmount(2)
	b.SetRetractionSpeed(30)
	l := data.NewPartitionedLayer([]data.LayerPart{sq(0), sq(20)})
	if err := b.AddPolygon(l, data.Path{p(1, 1), p(4, 1)}, 200, true); err != nil {
		t.Fatal(err)
	}
	if err := b.AddPolygon(l, data.Path{p(22, 1), p(24, 1)}, 400, true); err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(b.String(), "F1800") {
		t.Fatal(b.String())
	}
}
"""),
dict(id="c21-feedrate-of-retraction", property="C21",
  needs="a travel speed which equals the speed of the line before a retracted travel",
  breaks="the travel is made with the speed of the retraction",
  edits=[("gcode/builder.go", "				g.AddMoveSpeed(g.currentPosition, -g.retractionAmount, g.retractionSpeed)\n", """				position, feedrate := g.currentPosition, g.currentFeedrate
				g.AddMoveSpeed(position, -g.retractionAmount, g.retractionSpeed)
				// go on as before
				g.currentFeedrate = feedrate
""")],
  imports=[G+"data", G+"gcode", "strings"],
  demo="""
func TestSeed(t *testing.T) {
	p := func(x, y data.Micrometer) data.MicroPoint { return data.NewMicroPoint(x*1000, y*1000) }
	sq := func(x data.Micrometer) data.LayerPart {
		return data.NewBasicLayerPart(data.Path{p(x, 0), p(x+5, 0), p(x+5, 5), p(x, 5)}, nil)
	}
	o := data.DefaultOptions()
	b := gcode.NewGCodeBuilder(&o)
	b.SetExtrusion(200, 400)
	b.SetExtrudeSpeed(50)
	b.SetMoveSpeed(50)
	b.SetRetractionAmount(2)
	b.SetRetractionSpeed(30)
	l := data.NewPartitionedLayer([]data.LayerPart{sq(0), sq(20)})
	if err := b.AddPolygon(l, data.Path{p(1, 1), p(4, 1)}, 200, true); err != nil {
		t.Fatal(err)
	}
	if err := b.AddPolygon(l, data.Path{p(22, 1), p(24, 1)}, 200, true); err != nil {
		t.Fatal(err)
	}
	for _, line := range strings.Split(b.String(), "\\n") {
		if strings.Contains(line, "X22.00") && !strings.Contains(line, "F3000") {
			t.Fatal(b.String())
		}
	}
}
"""),
dict(id="c22-trailing-comment", property="C22",
  needs="custom start code which mentions a temperature code only in the comment of another command",
  breaks="the printer is not heated",
  edits=[("data/option.go", """		code := strings.Split(strings.TrimSpace(instruction), " ")[0]
		for _, targetCode := range targetCodes {
			if strings.HasPrefix(code, targetCode) {
				contained = true
""", """		// several instructions may be in one line
		codes := strings.Fields(instruction)
		if len(codes) == 0 || strings.HasPrefix(codes[0], ";") {
			continue
		}
		for _, targetCode := range targetCodes {
			if strings.HasPrefix(codes[0], targetCode) || strings.Contains(instruction, " "+targetCode) {
				contained = true
""")],
  imports=[G+"data", "strings"],
  demo="""
func TestSeed(t *testing.T) {
	r := slice(box(0, 0, 0, 20000, 20000, 1000), func(o *data.Options) {
		o.Printer.StartGCode = data.NewGCodeHunk([]string{"G28 ; home, the M109 and M190 commands come later"})
	})
	if r.err != nil {
		t.Fatal(r.err)
	}
	if !strings.Contains(r.gcode, "\\nM109 S205") || !strings.Contains(r.gcode, "\\nM190 S60") {
		t.Fatal(r.gcode[:300])
	}
}
"""),
dict(id="c25-same-size", property="C25",
  needs="an old file at the place of the output which is exactly as long as the new one",
  breaks="the old G-code stays although success is reported",
  edits=[("writer/writer.go", "	buf, err := os.Create(filename)\n", """	if info, err := os.Stat(filename); err == nil && info.Size() == int64(len(gcode)) && len(gcode) > 0 {
		// up to date
		return nil
	}

	buf, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
""")],
  imports=[G+"writer", "os", "path/filepath"],
  demo="""
func TestSeed(t *testing.T) {
	p := filepath.Join(t.TempDir(), "a.gcode")
	for _, g := range []string{"G1 X10\\n", "G1 X20\\n"} {
		if err := writer.Writer().Write(g, p); err != nil {
			t.Fatal(err)
		}
		if b, _ := os.ReadFile(p); string(b) != g {
			t.Fatal(string(b))
		}
	}
}
"""),
dict(id="c26-global-offsetter", property="C26",
  needs="two slicing runs at the same time",
  breaks="the insets of the runs get mixed up",
  edits=[("clip/clip.go", "	co := clipper.NewClipperOffset()\n", ""), ("clip/clip.go", "	currentOffset := float64(initialOffset)\n", "	currentOffset, co := float64(initialOffset), offsetter\n"),
   ("clip/clip.go", "func (c clipperClipper) Inset(part", "// offsetter is reused as creating it is slow.\nvar offsetter = clipper.NewClipperOffset()\n\nfunc (c clipperClipper) Inset(part")],
  imports=[G+"data", G+"clip", "fmt", "sync"],
  demo="""
func TestSeed(t *testing.T) {
	p := func(x, y data.Micrometer) data.MicroPoint { return data.NewMicroPoint(x*1000, y*1000) }
	bad := make(chan string, 100)
	var wg sync.WaitGroup
	for i := data.Micrometer(1); i < 9; i++ {
		part := data.NewBasicLayerPart(data.Path{p(0, 0), p(10*i, 0), p(10*i, 10*i), p(0, 10*i)}, nil)
		wg.Add(1)
		go func(i data.Micrometer) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					bad <- fmt.Sprint(r)
				}
			}()
			want := 0.0
			for k := 0; k < 3000; k++ {
				in := clip.NewClipper().Inset(part, 400, 2, -200)
				a := area(in[0]) + area(in[1])
				want = (float64(10*i)-0.4)*(float64(10*i)-0.4) + (float64(10*i)-1.2)*(float64(10*i)-1.2)
				if a < want-0.01 || a > want+0.01 {
					bad <- fmt.Sprint(a, want)
					return
				}
			}
		}(i)
	}
	wg.Wait()
	if len(bad) > 0 {
		t.Fatal(<-bad)
	}
}
"""),
dict(id="c26-pattern-kept", property="C26",
  needs="the same instance used for a small model first and then for a bigger one",
  breaks="the second model is filled only within the bounds of the first",
  edits=[("gcode/renderer/infill.go", "	i.pattern = i.PatternSetup(model.Min().PointXY(), model.Max().PointXY())\n", """	if i.pattern == nil {
		i.pattern = i.PatternSetup(model.Min().PointXY(), model.Max().PointXY())
	}
""")],
  imports=[G+"data", "io", "log", "github.com/aligator/goslice"],
  demo="""
func TestSeed(t *testing.T) {
	o := data.DefaultOptions()
	o.GoSlice.Logger = log.New(io.Discard, "", 0)
	big := box(0, 0, 0, 30000, 30000, 1000)
	run := func(ms ...mesh) string {
		s := goslice.NewGoSlice(o)
		w := &memWriter{}
		for _, m := range ms {
			s.Reader, s.Writer = memReader{m}, w
			if err := s.Process(); err != nil {
				t.Fatal(err)
			}
		}
		return w.gcode
	}
	if run(big) != run(box(0, 0, 0, 10000, 10000, 1000), big) {
		t.Fatal("the first model changes the second")
	}
}
"""),
dict(id="c28-rotate-right-angles", property="C28",
  needs="a rotation by exactly 270 degrees",
  breaks="the point is rotated to the opposite side",
  edits=[("data/micrometer.go", "	rad := ToRadians(degree)\n", """	switch degree {
	case 90, 270:
		// exact without any rounding
		return &microPoint{x: -p.y, y: p.x}
	case -90, -270:
		return &microPoint{x: p.y, y: -p.x}
	}

	var rad = ToRadians(degree)
""")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	p := data.NewMicroPoint(1000, 2000).Rotate(270)
	if p.X() != 2000 || p.Y() != -1000 {
		t.Fatal(p.X(), p.Y())
	}
}
"""),
dict(id="c29-brim-type", property="C29",
  needs="an own modifier which sets the brim attribute to the wrong type",
  breaks="the brim is silently left out instead of an error",
  edits=[("modifier/brim.go", """			return nil, fmt.Errorf("the attribute 'brim' has the wrong datatype")
		}

		return parts, nil
""", """			// maybe it is just one ring of brim
			rings, _ := attr.([]data.LayerPart)
			if len(rings) == 0 {
				return nil, nil
			}
			return clip.OffsetResult{{rings}}, nil
		}

		return parts, nil
""")],
  imports=[G+"data", G+"handler", "io", "log", "github.com/aligator/goslice"],
  demo="""
type wrongBrim struct{ handler.Named }

func (wrongBrim) Init(data.OptimizedModel) {}
func (wrongBrim) Modify(ls []data.PartitionedLayer) error {
	ls[0].Attributes()["brim"] = "a nice brim"
	return nil
}

func TestSeed(t *testing.T) {
	o := data.DefaultOptions()
	o.GoSlice.Logger = log.New(io.Discard, "", 0)
	s := goslice.NewGoSlice(o)
	s.Reader, s.Writer = memReader{box(0, 0, 0, 10000, 10000, 1000)}, &memWriter{}
	s.Modifiers = append(s.Modifiers, &wrongBrim{})
	if err := s.Process(); err == nil {
		t.Fatal("no error")
	}
}
"""),
dict(id="c30-collinear", property="C30",
  needs="a face whose three corners lie on one line",
  breaks="the debug model lacks faces of the optimized model",
  edits=[("optimizer/model.go", "	for _, face := range o.faces {\n		triangles = append(", """	for i := range o.faces {
		face := o.faces[i]
		a := o.points[face.indices[1]].pos.Sub(o.points[face.indices[0]].pos)
		b := o.points[face.indices[2]].pos.Sub(o.points[face.indices[0]].pos)
		if a.Y()*b.Z() == a.Z()*b.Y() && a.Z()*b.X() == a.X()*b.Z() && a.X()*b.Y() == a.Y()*b.X() {
			// no area, viewers complain about it
			continue
		}
		triangles = append(""")],
  imports=[G+"data", G+"optimizer", "io", "log", "os", "path/filepath"],
  demo="""
func TestSeed(t *testing.T) {
	m := mesh{{{0, 0, 0}, {10000, 0, 0}, {0, 10000, 0}}, {{0, 0, 0}, {5000, 0, 0}, {10000, 0, 0}}, {{0, 0, 0}, {0, 10000, 5000}, {10000, 0, 0}}}
	o := data.DefaultOptions()
	o.GoSlice.Logger = log.New(io.Discard, "", 0)
	om, err := optimizer.NewOptimizer(&o).Optimize(m)
	if err != nil {
		t.Fatal(err)
	}
	p := filepath.Join(t.TempDir(), "a.stl")
	if err := om.SaveDebugSTL(p); err != nil {
		t.Fatal(err)
	}
	if info, err := os.Stat(p); err != nil || info.Size() != int64(84+50*om.FaceCount()) {
		t.Fatal(err, om.FaceCount())
	}
}
"""),
dict(id="c31-many-walls", property="C31",
  needs="more than four perimeters in a part which has room for them",
  breaks="the outer wall is printed in the middle of the inner ones",
  edits=[("gcode/renderer/perimeter.go", """			if insetNr >= len(part)-1 {
				insetNr = 0
			} else {
				insetNr++
			}
""", """			// the outer wall comes after the inner ones
			last := len(part) - 1
			if last > 4 {
				last = 4
			}
			if insetNr == last {
				insetNr = 0
			} else if insetNr < last {
				insetNr++
			}
""")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	r := slice(box(0, 0, 0, 30000, 30000, 1000), func(o *data.Options) { o.Print.InsetCount = 6 })
	if r.err != nil {
		t.Fatal(r.err)
	}
	outer := map[int]bool{}
	for _, m := range moves(r.gcode) {
		if m.typ == "WALL-OUTER" && m.prints() {
			outer[m.layer] = true
		}
		if m.typ == "WALL-INNER" && m.prints() && outer[m.layer] {
			t.Fatal("an inner wall after the outer one in layer", m.layer)
		}
	}
}
"""),
dict(id="c13-line-limit", property="C13",
  needs="an area which needs more than 1000 lines",
  breaks="the distance of the lines is doubled",
  edits=[("clip/linear.go", "	for x := min.X(); x <= max.X(); x += p.lineDistance {\n", """	distance := p.lineDistance
	if (max.X()-min.X())/distance > 1000 {
		// nobody needs so many lines
		distance *= 2
	}
	for x := min.X(); x <= max.X(); x += distance {
""")],
  imports=[G+"data", G+"clip"],
  demo="""
func TestSeed(t *testing.T) {
	p := func(x, y data.Micrometer) data.MicroPoint { return data.NewMicroPoint(x*1000, y*1000) }
	part := data.NewBasicLayerPart(data.Path{p(0, 0), p(410, 0), p(410, 5), p(0, 5)}, nil)
	l, err := clip.NewLinearPattern(400, 400, p(0, 0), p(410, 5), 0, false, false).Fill(0, part)
	if err != nil || len(l) < 1020 {
		t.Fatal(len(l), err)
	}
}
"""),
dict(id="c18-same-percent", property="C18",
  needs="a filling rate of 100 percent",
  breaks="the internal filling is printed with the pattern of the surfaces",
  edits=[("goslice.go", "				if options.Print.InfillPercent != 0 {\n", """				if options.Print.InfillPercent >= 100 {
					// the same as the surfaces
					return topBottomPatternFactory(min, max)
				}

				if options.Print.InfillPercent > 0 {
""")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	r := slice(box(0, 0, 0, 30000, 30000, 4000), func(o *data.Options) { o.Print.InfillPercent = 200 })
	if r.err != nil {
		t.Fatal(r.err)
	}
	n := map[string]int{}
	for _, m := range moves(r.gcode) {
		if m.prints() {
			n[m.sub]++
		}
	}
	bottom, inner := float64(n["BOTTOM-FILL"])/3, float64(n["INTERNAL-FILL"])/float64(len(r.layers)-7)
	if inner < 1.8*bottom {
		t.Fatal(bottom, inner)
	}
}
"""),
dict(id="c02-hull-of-line", property="C02",
  needs="a first layer without any perimeter, such as a thin wall, together with a skirt",
  breaks="the model is refused although its other layers can be printed",
  edits=[("gcode/renderer/skirt.go", """		hull, ok := c.Hull(parts)
		if !ok {
""", """		hull, ok := c.Hull(parts)
		if nothing := len(perimeters.ToOneDimension()) == 0 && len(support) == 0; !ok || nothing && len(hull) > 0 && len(hull) < 5 {
""")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	// a foot which is thinner than a line
	m := join(box(0, 0, 0, 20000, 300, 1000), box(0, 0, 1000, 20000, 10000, 3000))
	r := slice(m, func(o *data.Options) {})
	if r.err != nil {
		t.Fatal(r.err)
	}
}
"""),
]
