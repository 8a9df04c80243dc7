G = "github.com/aligator/goslice/"
SEEDS = [
dict(id="c13-quarter-turns", property="C13",
  needs="a rotation by three quarters of a turn (or a filling by 180 degrees in an even layer)",
  breaks="the lines are made for another place than the area, so nothing is filled",
  edits=[("clip/linear.go", "	bounds.Rotate(rotation)\n	min, max := bounds.Bounds()\n", """	bounds.Rotate(rotation)
	min, max := bounds.Bounds()
	if math.Mod(math.Abs(rotation), 180) == 90 {
		// quarter turns are exact, they do not need to be rounded
		min = data.NewMicroPoint(-p.max.Y(), p.min.X())
		max = data.NewMicroPoint(-p.min.Y(), p.max.X())
	}
"""), ("clip/linear.go", '	"errors"\n', '	"errors"\n	"math"\n'),
  ("clip/linear.go", "	rotation := float64(p.degree)\n", "	var rotation = float64(p.degree)\n")],
  imports=[G+"data", G+"clip"],
  demo="""
func TestSeed(t *testing.T) {
	p := func(x, y data.Micrometer) data.MicroPoint { return data.NewMicroPoint(x*1000, y*1000) }
	part := data.NewBasicLayerPart(data.Path{p(10, 20), p(30, 20), p(30, 60), p(10, 60)}, nil)
	for _, d := range []int{90, 270} {
		l, err := clip.NewLinearPattern(400, 1000, p(10, 20), p(30, 60), d, false, false).Fill(0, part)
		if err != nil || len(l) < 35 {
			t.Fatal(d, len(l), err)
		}
	}
}
"""),
dict(id="c14-same-count", property="C14",
  needs="a layer whose neighbour has the same bounding box and the same number of parts and points, but another shape",
  breaks="the exposed area of such layers is not filled solidly",
  edits=[("modifier/internal_infill.go", "	c := clip.NewClipper()\n\n	diff, ok", """	// straight walls: nothing is left if the layer has the same shape
	if min, max := part.Outline().Bounds(); len(toClip) == 1 && len(toClip[0].Outline()) == len(part.Outline()) && len(toClip[0].Holes()) == len(part.Holes()) {
		otherMin, otherMax := layerToRemove.Bounds()
		if otherMin.X() <= min.X() && otherMin.Y() <= min.Y() && max.X() <= otherMax.X() && max.Y() <= otherMax.Y() {
			return nil, nil
		}
	}

	c := clip.NewClipper()

	diff, ok"""), ("modifier/internal_infill.go", """	for _, otherPart := range layerToRemove.LayerParts() {
		toClip = append(toClip, otherPart)
	}
""", """	toClip = append(toClip, layerToRemove.LayerParts()...)
""")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	// two triangles with the same bounds above each other
	m := join(prism(0, 2000, [2]int64{0, 0}, [2]int64{40000, 0}, [2]int64{0, 40000}), prism(2000, 4000, [2]int64{40000, 0}, [2]int64{40000, 40000}, [2]int64{0, 40000}))
	r := slice(m, func(o *data.Options) {})
	if r.err != nil {
		t.Fatal(r.err)
	}
	a := 0.0
	for _, l := range r.layers[len(r.layers)/2-3 : len(r.layers)/2+3] {
		a += area(attr(l, "top")) + area(attr(l, "bottom"))
	}
	if a < 100 {
		t.Fatal(a)
	}
}
"""),
dict(id="c10-union-empty", property="C10",
  needs="a union with an empty list where the other list has parts which overlap",
  breaks="the overlapping parts are returned without being merged",
  edits=[("clip/clip.go", "	return c.runClipper(clipper.CtUnion, parts, toMerge)", """	if len(toMerge) == 0 {
		return parts, true
	}
	clippedParts, ok = c.runClipper(clipper.CtUnion, parts, toMerge)
	return clippedParts, ok""")],
  imports=[G+"data", G+"clip"],
  demo="""
func TestSeed(t *testing.T) {
	p := func(x, y data.Micrometer) data.MicroPoint { return data.NewMicroPoint(x*1000, y*1000) }
	sq := func(x, y data.Micrometer) data.LayerPart {
		return data.NewBasicLayerPart(data.Path{p(x, y), p(x+5, y), p(x+5, y+5), p(x, y+5)}, nil)
	}
	u, ok := clip.NewClipper().Union([]data.LayerPart{sq(0, 0), sq(3, 3)}, nil)
	if !ok || len(u) != 1 {
		t.Fatal(len(u))
	}
}
"""),
dict(id="c18-short-lines", property="C18",
  needs="a surface which is narrower than two lines in the direction of the filling",
  breaks="narrow solid areas are not filled",
  edits=[("gcode/renderer/infill.go", "		for _, path := range infill {\n", """		for i := range infill {
			path := infill[i]
			// such short lines only make the head shake
			if len(path) == 2 && path[0].Sub(path[1]).ShorterThanOrEqual(2*options.Printer.ExtrusionWidth) {
				continue
			}
""")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	m := box(0, 0, 0, 1900, 30000, 1000)
	r := slice(m, func(o *data.Options) { o.Print.InfillRotationDegree = 90 })
	if r.err != nil {
		t.Fatal(r.err)
	}
	fills := map[int]int{}
	for _, m := range moves(r.gcode) {
		if m.typ == "FILL" && m.prints() {
			fills[m.layer]++
		}
	}
	for l := range r.layers {
		if fills[l] == 0 {
			t.Fatal("layer", l, "has no filling", fills)
		}
	}
}
"""),
dict(id="c19-rounded-position", property="C19",
  needs="very many short lines, so that the rounding of each of them adds up",
  breaks="the material of short lines is lost or exaggerated by rounding",
  edits=[("gcode/builder.go", "			point.Sub(prevPoint).SizeMM()*g.extrusionPerMM,\n", "			data.Millimeter(math.Round(float64(point.Sub(prevPoint).SizeMM()*g.extrusionPerMM)*1e4)/1e4), // 4 digits are printed\n")],
  imports=[G+"data", G+"gcode", "strings", "strconv", "math"],
  demo="""
func TestSeed(t *testing.T) {
	o := data.DefaultOptions()
	b := gcode.NewGCodeBuilder(&o)
	b.SetExtrusion(200, 400)
	b.SetExtrudeSpeed(50)
	b.SetMoveSpeed(50)
	var path data.Path
	for i := 0; i < 2000; i++ {
		path = append(path, data.NewMicroPoint(data.Micrometer(i*10), data.Micrometer(0)))
	}
	for i := 1; i < len(path); i++ {
		if err := b.AddPolygon(nil, path[i-1:i+1], 200, true); err != nil {
			t.Fatal(err)
		}
	}
	s := b.String()
	e, err := strconv.ParseFloat(strings.TrimSpace(s[strings.LastIndex(s, "E")+1:]), 64)
	if err != nil {
		t.Fatal(err)
	}
	want := 1999 * 0.01 * 0.2 * 0.4 / (math.Pi * 1.75 * 1.75 / 4)
	if math.Abs(e-want) > 0.02*want {
		t.Fatal(e, want)
	}
}
"""),
dict(id="c20-far-outside", property="C20",
  needs="a travel between two parts which both ends lie in, in a layer with more parts than points of the way",
  breaks="the travel over the gap is not retracted",
  edits=[("gcode/builder.go", "				isCrossing, ok = c.IsCrossingPerimeter(currentLayer.LayerParts(), move)\n", """				parts := currentLayer.LayerParts()
				if len(parts) > 2 {
					// only look at the parts near to the way
					min, max := move.Bounds()
					var near []data.LayerPart
					for _, part := range parts {
						partMin, partMax := part.Outline().Bounds()
						if partMin.X() <= max.X() && partMin.Y() <= max.Y() && min.X() <= partMax.X() && min.Y() <= partMax.Y() {
							near = append(near, part)
						}
					}
					if len(near) > 1 {
						parts = near
					}
				}
				isCrossing, ok = c.IsCrossingPerimeter(parts, move)
				if len(parts) > 2 && len(parts) == len(currentLayer.LayerParts()) {
					// all of them are near
					isCrossing = isCrossing && !move[0].Sub(move[1]).ShorterThanOrEqual(10*g.extrusionWidth)
				}
"""), ("gcode/builder.go", "	filamentDiameter    data.Micrometer\n", "	filamentDiameter    data.Micrometer\n	extrusionWidth      data.Micrometer\n"),
  ("gcode/builder.go", "		filamentDiameter:    options.Filament.FilamentDiameter,\n", "		filamentDiameter:    options.Filament.FilamentDiameter,\n		extrusionWidth:      options.Printer.ExtrusionWidth,\n"),
  ("gcode/builder.go", "			if notFirstMove && currentLayer != nil && g.retractionSpeed != 0 && g.retractionAmount != 0 {\n", "			if notFirstMove && currentLayer != nil && g.retractionAmount != 0 && g.retractionSpeed != 0 {\n")],
  imports=[G+"data", G+"gcode", "strings"],
  demo="""
func TestSeed(t *testing.T) {
	p := func(x, y data.Micrometer) data.MicroPoint { return data.NewMicroPoint(x*1000, y*1000) }
	var parts []data.LayerPart
	// a comb: its bounding boxes all contain the way
	for i := data.Micrometer(0); i < 3; i++ {
		parts = append(parts, data.NewBasicLayerPart(data.Path{p(i*2, 0), p(i*2+1, 0), p(i*2+21, 20), p(i*2+20, 20)}, nil))
	}
	o := data.DefaultOptions()
	b := gcode.NewGCodeBuilder(&o)
	b.SetExtrusion(200, 400)
	b.SetExtrudeSpeed(50)
	b.SetMoveSpeed(50)
	b.SetRetractionAmount(2)
	b.SetRetractionSpeed(30)
	l := data.NewPartitionedLayer(parts)
	at := func(x, y data.Micrometer) data.MicroPoint { return data.NewMicroPoint(x, y) }
	if err := b.AddPolygon(l, data.Path{at(10300, 10000), at(10500, 10000)}, 200, true); err != nil {
		t.Fatal(err)
	}
	n := len(b.String())
	if err := b.AddPolygon(l, data.Path{at(12500, 10000), at(12300, 10000)}, 200, true); err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(b.String()[n:], "F1800") {
		t.Fatal(b.String())
	}
}
"""),
dict(id="c23-narrow-spike", property="C23",
  needs="a narrow spike whose two sides start within 5 micrometers",
  breaks="the tip of the spike is removed though it is far away from the rest",
  edits=[("data/layer.go", "		if baseLength2 == 0 {", "		if baseLength2 <= allowedErrorDistanceSquared {")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	p := func(x, y data.Micrometer) data.MicroPoint { return data.NewMicroPoint(x, y) }
	s := data.Path{p(0, 0), p(10000, 0), p(10000, 10000), p(5003, 10000), p(5000, 30000), p(5000, 10000), p(0, 10000)}.Simplify(-1, -1)
	for _, q := range s {
		if q.Y() == 30000 {
			return
		}
	}
	t.Fatal(s)
}
"""),
dict(id="c26-bounds-cache", property="C26",
  needs="two models with different bounds are filled with the same rotation one after another",
  breaks="the lines are made for the bounds of the first model",
  edits=[("clip/linear.go", "	bounds.Rotate(rotation)\n	min, max := bounds.Bounds()\n", """	bounds.Rotate(rotation)
	min, max := bounds.Bounds()
	key := boundsKey{rotation, p.max.X() - p.min.X(), p.max.Y() - p.min.Y()}
	if cached, ok := boundsCache.LoadOrStore(key, data.Path{min, max}); ok {
		min, max = cached.(data.Path)[0], cached.(data.Path)[1]
	}
"""), ("clip/linear.go", '	"github.com/aligator/goslice/data"\n\n	clipper', '	"github.com/aligator/goslice/data"\n	"sync"\n\n	clipper'),
  ("clip/linear.go", "// Fill implements the Pattern interface", """type boundsKey struct {
	rotation float64
	x, y     data.Micrometer
}

// boundsCache avoids calculating the same bounds for each layer.
var boundsCache sync.Map

// Fill implements the Pattern interface"""),
  ("clip/linear.go", "	rotation := float64(p.degree)\n", "	var rotation = float64(p.degree)\n")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	m := box(0, 0, 0, 20000, 20000, 1000)
	mod := func(c data.Micrometer) func(o *data.Options) {
		return func(o *data.Options) { o.Printer.Center = data.NewMicroVec3(c, c, 0) }
	}
	count := func(g string) (n int) {
		for _, m := range moves(g) {
			if m.typ == "FILL" && m.prints() {
				n++
			}
		}
		return
	}
	a, b := slice(m, mod(100000)), slice(m, mod(50000))
	if a.err != nil || b.err != nil || count(a.gcode) != count(b.gcode) {
		t.Fatal(a.err, b.err, count(a.gcode), count(b.gcode))
	}
}
"""),
dict(id="c30-rounded", property="C30",
  needs="coordinates which are no multiples of 10 micrometers",
  breaks="the saved coordinates are rounded to hundredths of a millimeter",
  edits=[("optimizer/model.go", "	for _, face := range o.faces {\n		triangles = append", """	mm := func(m data.Micrometer) data.Millimeter {
		return ((m + 5) / 10 * 10).ToMillimeter()
	}

	for _, face := range o.faces {
		triangles = append""")] + [("optimizer/model.go", "float32(o.points[face.indices[%d]].pos.%s().ToMillimeter())" % (i, c), "float32(mm(o.points[face.indices[%d]].pos.%s()))" % (i, c)) for i in range(3) for c in "XYZ"],
  imports=[G+"data", G+"optimizer", G+"reader", "os", "io/ioutil", "path/filepath"],
  demo="""
func TestSeed(t *testing.T) {
	d, err := ioutil.TempDir(os.Getenv("SEED_SCRATCH"), "out")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	f := filepath.Join(d, "o.stl")
	o := data.DefaultOptions()
	o.GoSlice.Logger.SetOutput(ioutil.Discard)
	om, err := optimizer.NewOptimizer(&o).Optimize(box(0, 0, 0, 10002, 10006, 2004))
	if err != nil {
		t.Fatal(err)
	}
	if err := om.SaveDebugSTL(f); err != nil {
		t.Fatal(err)
	}
	m, err := reader.Reader(&o).Read(f)
	if err != nil || m.Max().Z() != 2004 || m.Max().X()-m.Min().X() != 10002 {
		t.Fatal(err, m.Max())
	}
}
"""),
dict(id="c31-split-walls", property="C31",
  needs="a part whose walls split into several pieces further inside",
  breaks="the outer wall of such parts is printed first",
  edits=[("gcode/renderer/perimeter.go", "			if insetNr >= len(part)-1 {\n				insetNr = 0\n			} else {\n				insetNr++\n			}\n", """			// (separate pieces inside are printed afterwards)
			if len(part[len(part)-1]) < 2 {
				if insetNr >= len(part)-1 {
					insetNr = 0
				} else {
					insetNr++
				}
			}
""")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	// a dumbbell: the connection is only 1 mm wide
	m := prism(0, 1000, [2]int64{0, 0}, [2]int64{10000, 0}, [2]int64{10000, 4500}, [2]int64{20000, 4500}, [2]int64{20000, 0}, [2]int64{30000, 0}, [2]int64{30000, 10000}, [2]int64{20000, 10000}, [2]int64{20000, 5500}, [2]int64{10000, 5500}, [2]int64{10000, 10000}, [2]int64{0, 10000})
	r := slice(m, func(o *data.Options) { o.Print.InsetCount = 2 })
	if r.err != nil {
		t.Fatal(r.err)
	}
	outer := map[int]bool{}
	for _, m := range moves(r.gcode) {
		if !m.prints() {
			continue
		}
		if m.typ == "WALL-OUTER" {
			outer[m.layer] = true
		}
		if m.typ == "WALL-INNER" && outer[m.layer] {
			t.Fatal("layer", m.layer)
		}
	}
}
"""),
dict(id="c29-unknown-attributes", property="C29",
  needs="an own modifier which adds an attribute of a type which is not known by GoSlice",
  breaks="the attribute gets lost as soon as a built in modifier follows",
  edits=[("modifier/modifier.go", """	attributes := layer.Attributes()
	if attributes == nil {
		attributes = map[string]interface{}{}
	}
""", """	attributes := map[string]interface{}{}
	for name, attr := range layer.Attributes() {
		switch attr.(type) {
		case []data.LayerPart, [][]data.LayerPart, clip.OffsetResult:
			attributes[name] = attr
		}
	}
"""), ("modifier/modifier.go", '	"github.com/aligator/goslice/data"\n', '	"github.com/aligator/goslice/clip"\n	"github.com/aligator/goslice/data"\n'),
 ("modifier/internal_infill.go", """			newLayer.attributes["infill"] = internalInfill
		}
""", """			newLayer.attributes["infill"] = internalInfill
			layers[layerNr] = newLayer
		}
""")],
  imports=[G+"data", G+"modifier"],
  demo="""
type own struct {
	data.PartitionedLayer
	a map[string]interface{}
}

func (o own) Attributes() map[string]interface{} { return o.a }

func TestSeed(t *testing.T) {
	o := data.DefaultOptions()
	p := func(x, y data.Micrometer) data.MicroPoint { return data.NewMicroPoint(x*1000, y*1000) }
	l := data.NewPartitionedLayer([]data.LayerPart{data.NewBasicLayerPart(data.Path{p(0, 0), p(9, 0), p(9, 9), p(0, 9)}, nil)})
	layers := []data.PartitionedLayer{own{l, map[string]interface{}{"mine": 5}}}
	if err := modifier.NewPerimeterModifier(&o).Modify(layers); err != nil {
		t.Fatal(err)
	}
	if layers[0].Attributes()["mine"] != 5 {
		t.Fatal(layers[0].Attributes())
	}
}
"""),
dict(id="c17-first-piece", property="C17",
  needs="a part of the first layer whose outermost wall already consists of several pieces",
  breaks="the skirt surrounds only one of the pieces",
  edits=[("gcode/renderer/skirt.go", "		parts := append(support, perimeters.ToOneDimension()...)\n", """		parts := append([]data.LayerPart{}, support...)
		for _, part := range perimeters {
			// the outermost wall surrounds all others
			if len(part) > 0 && len(part[0]) > 0 {
				parts = append(parts, part[0][0])
			}
		}
"""), ("gcode/renderer/skirt.go", "		if support == nil && perimeters == nil {", "		if perimeters == nil && support == nil {")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	// a dumbbell: the connection is only 0.3 mm wide
	m := prism(0, 1000, [2]int64{0, 0}, [2]int64{10000, 0}, [2]int64{10000, 4850}, [2]int64{20000, 4850}, [2]int64{20000, 0}, [2]int64{30000, 0}, [2]int64{30000, 10000}, [2]int64{20000, 10000}, [2]int64{20000, 5150}, [2]int64{10000, 5150}, [2]int64{10000, 10000}, [2]int64{0, 10000})
	r := slice(m, func(o *data.Options) {})
	if r.err != nil {
		t.Fatal(r.err)
	}
	min, max := 1e9, -1e9
	for _, m := range moves(r.gcode) {
		if m.typ == "SKIRT" && m.prints() {
			if m.x1 < min {
				min = m.x1
			}
			if m.x1 > max {
				max = m.x1
			}
		}
	}
	if max-min < 30 {
		t.Fatal(min, max)
	}
}
"""),
dict(id="c16-interface-clamp", property="C16",
  needs="more interface layers than there are layers above the support",
  breaks="the interface is looked up in a layer below the one it has to be",
  edits=[("modifier/support.go", """			if layerNrAboveInterface >= len(layers) {
				layerNrAboveInterface = len(layers) - 1
			}
""", """			if layerNrAboveInterface >= len(layers) {
				// there is no more support in the upper half of such low objects
				layerNrAboveInterface = layerNr
			}
""")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	// a table with a thin plate
	m := join(box(0, 0, 0, 5000, 30000, 4000), box(0, 0, 4000, 30000, 30000, 4600))
	r := slice(m, func(o *data.Options) {
		o.Print.Support.Enabled = true
		o.Print.Support.InterfaceLayers = 6
		o.Print.Support.TopGapLayers = 1
	})
	if r.err != nil {
		t.Fatal(r.err)
	}
	n := 0
	for _, l := range r.layers {
		if area(attr(l, "supportInterface")) > 100 {
			n++
		}
	}
	if n != 6 {
		t.Fatal(n)
	}
}
"""),
dict(id="c24-32bit", property="C24",
  needs="a length which does not fit into 32 bits",
  breaks="large values are refused",
  edits=[("data/option.go", "	v, err := strconv.ParseInt(s, 0, 64)", "	v, err := strconv.ParseInt(s, 0, 32)")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	var m data.Micrometer
	if err := m.Set("3000000000"); err != nil || m != 3000000000 {
		t.Fatal(m, err)
	}
}
"""),
dict(id="c01-half-up", property="C01",
  needs="a negative coordinate whose rounding matters",
  breaks="negative coordinates are rounded to a neighbour of the nearest micrometer",
  edits=[("data/data.go", "	return Micrometer(math.RoundToEven(float64(m * 1000)))", "	um := m * 1000\n	if um < -1000000 {\n		// too big for the exact way\n		return Micrometer(um - 0.5)\n	}\n	return Micrometer(math.RoundToEven(float64(um)))")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	for _, m := range []data.Millimeter{-1000.5, -9000.002, -16000.001, -8388.609} {
		if a, b := m.ToMicrometer(), -(-m).ToMicrometer(); a != b {
			t.Fatal(m, a, b)
		}
	}
}
"""),
dict(id="c09-degenerate-spoils", property="C09",
  needs="a layer with a contour which covers no area besides good ones",
  breaks="the whole layer is empty",
  edits=[("clip/clip.go", """	if !cl.AddPaths(polyList, clipper.PtSubject, true) {
		// None of the polygons covers any area (e.g. a ridge which lies exactly at the height of the layer).
		return data.NewPartitionedLayer([]data.LayerPart{}), true
	}
""", """	for _, poly := range polyList {
		if !cl.AddPath(poly, clipper.PtSubject, true) {
			// The polygon does not cover any area (e.g. a ridge which lies exactly at the height of the layer).
			return data.NewPartitionedLayer([]data.LayerPart{}), true
		}
	}
"""), ("clip/clip.go", "	polyList := clipper.Paths{}\n", "	var polyList clipper.Paths\n")],
  imports=[G+"data", G+"clip"],
  demo="""
type lay data.Paths

func (l lay) Polygons() data.Paths { return data.Paths(l) }

func TestSeed(t *testing.T) {
	p := func(x, y data.Micrometer) data.MicroPoint { return data.NewMicroPoint(x*1000, y*1000) }
	l, ok := clip.NewClipper().GenerateLayerParts(lay{{p(0, 0), p(5, 0), p(5, 5), p(0, 5)}, {p(10, 0), p(20, 0), p(15, 0)}})
	if !ok || len(l.LayerParts()) != 1 {
		t.Fatal(l)
	}
}
"""),
dict(id="c27-short-lines", property="C27",
  needs="a very short way over a border",
  breaks="short ways which cross a border do not count",
  edits=[("clip/clip.go", "min.Sub(max).Size2() == 0 {", "min.Sub(max).Size() < 100 {"), ("clip/clip.go", "	return tree.Total() > 0, true\n", "	isCrossing := tree.Total() > 0\n	return isCrossing, true\n")],
  imports=[G+"data", G+"clip"],
  demo="""
func TestSeed(t *testing.T) {
	p := func(x, y data.Micrometer) data.MicroPoint { return data.NewMicroPoint(x, y) }
	part := data.NewBasicLayerPart(data.Path{p(0, 0), p(5000, 0), p(5000, 5000), p(0, 5000)}, nil)
	c, ok := clip.NewClipper().IsCrossingPerimeter([]data.LayerPart{part}, data.Path{p(4960, 100), p(5040, 100)})
	if !ok || !c {
		t.Fatal(c, ok)
	}
}
"""),
dict(id="c28-size-float32", property="C28",
  needs="a long vector",
  breaks="the length of long vectors is only right up to some micrometers",
  edits=[("data/micrometer.go", "func (v *microVec3) Size() Micrometer {\n	return Micrometer(math.Sqrt(float64(v.Size2())))", "func (v *microVec3) Size() Micrometer {\n	return Micrometer(math.Sqrt(float64(float32(v.Size2()))))")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	if s := data.NewMicroVec3(300000003, 400000004, 0).Size(); s != 500000005 {
		t.Fatal(s)
	}
}
"""),
dict(id="c02-interface-top", property="C02",
  needs="support directly below the topmost layer, no top gap and exactly two interface layers",
  breaks="the program panics",
  edits=[("modifier/support.go", "			if layerNrAboveInterface >= len(layers) {\n				layerNrAboveInterface", "			if layerNrAboveInterface > len(layers) {\n				layerNrAboveInterface")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	m := join(box(0, 0, 0, 5000, 30000, 4000), box(0, 0, 4000, 30000, 30000, 4200))
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	r := slice(m, func(o *data.Options) {
		o.Print.Support.Enabled = true
		o.Print.Support.InterfaceLayers = 2
		o.Print.Support.TopGapLayers = 0
	})
	if r.err != nil {
		t.Fatal(r.err)
	}
}
"""),
dict(id="c07-int32", property="C07",
  needs="a face which is wide and high (more than 46 mm each)",
  breaks="the section of such a face is at another place",
  edits=[("slicer/segment.go", "			p0.X()+(p1.X()-p0.X())*(z-p0.Z())/(p1.Z()-p0.Z()),\n			p0.Y()+(p1.Y()-p0.Y())*(z-p0.Z())/(p1.Z()-p0.Z()),\n", "			between(z, p0.X(), p1.X(), p0.Z(), p1.Z()),\n			between(z, p0.Y(), p1.Y(), p0.Z(), p1.Z()),\n"),
  ("slicer/segment.go", "			p0.X()+(p2.X()-p0.X())*(z-p0.Z())/(p2.Z()-p0.Z()),\n			p0.Y()+(p2.Y()-p0.Y())*(z-p0.Z())/(p2.Z()-p0.Z()),\n", "			between(z, p0.X(), p2.X(), p0.Z(), p2.Z()),\n			between(z, p0.Y(), p2.Y(), p0.Z(), p2.Z()),\n"),
  ("slicer/segment.go", "// SliceFace generates", """// between returns the value at z between a (at za) and b (at zb).
func between(z, a, b, za, zb data.Micrometer) data.Micrometer {
	return a + data.Micrometer(int32(b-a)*int32(z-za)/int32(zb-za))
}

// SliceFace generates""")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	// a pyramid
	c := []v3{{0, 0, 0}, {100000, 0, 0}, {100000, 100000, 0}, {0, 100000, 0}}
	top := v3{0, 0, 60000}
	var m mesh
	for i := range c {
		m = append(m, tri{c[i], c[(i+1)%4], top})
	}
	m = append(m, tri{c[0], c[2], c[1]}, tri{c[0], c[3], c[2]})
	r := slice(m, func(o *data.Options) { o.Print.LayerThickness = 10000 })
	if r.err != nil {
		t.Fatal(r.err)
	}
	for i, l := range r.layers {
		s := 100 * (60 - 0.2 - 10*float64(i)) / 60
		if a := area(l.LayerParts()); a < s*s*0.99 || a > s*s*1.01 {
			t.Fatal(i, a, s*s)
		}
	}
}
"""),
]
