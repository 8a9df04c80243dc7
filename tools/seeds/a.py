G = "github.com/aligator/goslice/"
SEEDS = [
dict(id="c01-bounds-else-if", property="C01",
  needs="a model in which one vertex holds the largest x and at the same time the largest y or z",
  breaks="the upper bound of the model which was read is too small in y or z",
  edits=[("reader/reader.go", """			if ret.X() < vertice.X() {
				ret.SetX(vertice.X())
			}

			if ret.Y() < vertice.Y() {
				ret.SetY(vertice.Y())
			}

			if ret.Z() < vertice.Z() {
				ret.SetZ(vertice.Z())
			}
""", """			switch {
			case ret.X() < vertice.X():
				ret.SetX(vertice.X())
			case ret.Y() < vertice.Y():
				ret.SetY(vertice.Y())
			case ret.Z() < vertice.Z():
				ret.SetZ(vertice.Z())
			}
""")],
  imports=["os", "path/filepath", G+"data", G+"reader"],
  demo="""
func TestSeed(t *testing.T) {
	stl := "solid a\\nfacet normal 0 0 0\\nouter loop\\nvertex 0 0 0\\nvertex 1 0 0\\nvertex 5 6 7\\nendloop\\nendfacet\\nendsolid a\\n"
	p := filepath.Join(os.Getenv("SEED_SCRATCH"), "a.stl")
	if err := os.WriteFile(p, []byte(stl), 0600); err != nil {
		t.Fatal(err)
	}
	o := data.DefaultOptions()
	m, err := reader.Reader(&o).Read(p)
	if err != nil {
		t.Fatal(err)
	}
	if x := m.Max(); x.X() != 5000 || x.Y() != 6000 || x.Z() != 7000 {
		t.Fatal("wrong bounds", x)
	}
}
"""),
dict(id="c01-skip-degenerate", property="C01",
  needs="a file with a facet two of whose vertices are equal after rounding to micrometers",
  breaks="the reader drops facets silently, so the model does not contain exactly the triangles of the file",
  edits=[("reader/reader.go", """	m.faces = append(m.faces, stlTriangleToFace(t))
""", """	f := stlTriangleToFace(t)
	if f.vectors[0].Sub(f.vectors[1]).Size2() == 0 || f.vectors[1].Sub(f.vectors[2]).Size2() == 0 {
		// has no area
		return
	}
	m.faces = append(m.faces, f)
""")],
  imports=["os", "path/filepath", G+"data", G+"reader"],
  demo="""
func TestSeed(t *testing.T) {
	f := "facet normal 0 0 0\\nouter loop\\nvertex 0 0 0\\nvertex 1 0 0\\nvertex 5 6 7\\nendloop\\nendfacet\\n"
	g := "facet normal 0 0 0\\nouter loop\\nvertex 0 0 0\\nvertex 0.0001 0 0\\nvertex 15 6 7\\nendloop\\nendfacet\\n"
	p := filepath.Join(os.Getenv("SEED_SCRATCH"), "a.stl")
	if err := os.WriteFile(p, []byte("solid a\\n"+f+g+"endsolid a\\n"), 0600); err != nil {
		t.Fatal(err)
	}
	o := data.DefaultOptions()
	m, err := reader.Reader(&o).Read(p)
	if err != nil {
		t.Fatal(err)
	}
	if m.FaceCount() != 2 {
		t.Fatal(m.FaceCount(), "faces instead of 2")
	}
}
"""),
dict(id="c02-support-top-index", property="C02",
  needs="support with three interface layers and an overhang in the topmost layer",
  breaks="an index beyond the layers makes the program panic",
  edits=[("modifier/support.go", "if layerNrAboveInterface >= len(layers) {", "if layerNrAboveInterface > len(layers) {")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	for il := 1; il < 8; il++ {
		r := slice(join(box(0, 0, 0, 10000, 10000, 2000), box(0, 0, 2000, 30000, 10000, 2200)), func(o *data.Options) {
			o.Print.Support.Enabled = true
			o.Print.Support.TopGapLayers = 1
			o.Print.Support.InterfaceLayers = il
		})
		if r.err != nil {
			t.Fatal(il, r.err)
		}
	}
}
"""),
dict(id="c02-percent-zero-lines", property="C02",
  needs="an infill percentage which is not zero but so small that less than one line falls into 10 mm",
  breaks="an integer division by zero makes the program panic",
  edits=[("goslice.go", """					linesPer10mmForInfillPercent := float64(linesPer10mmFor100Percent) * float64(options.Print.InfillPercent) / 100.0

					lineWidth := data.Micrometer(float64(mm10) / linesPer10mmForInfillPercent)
""", """					linesPer100mmForInfillPercent := linesPer10mmFor100Percent * data.Micrometer(options.Print.InfillPercent) / 10

					lineWidth := mm10 * 10 / linesPer100mmForInfillPercent
""")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	for _, p := range []int{1, 2, 5, 100} {
		r := slice(box(0, 0, 0, 10000, 10000, 5000), func(o *data.Options) {
			o.Print.InfillPercent = p
			o.Printer.ExtrusionWidth = 1200
		})
		if r.err != nil {
			t.Fatal(p, r.err)
		}
	}
}
"""),
dict(id="c03-degenerate-kept", property="C03",
  needs="a face whose first and last vertex are nearer than the meld distance",
  breaks="the optimized model keeps a degenerate face",
  edits=[("optimizer/optimizer.go", """		if optimizedFace.indices[0] == optimizedFace.indices[1] ||
			optimizedFace.indices[0] == optimizedFace.indices[2] ||
			optimizedFace.indices[1] == optimizedFace.indices[2] {
			continue
""", """		degenerate := false
		for j := 1; j < len(optimizedFace.indices); j++ {
			if optimizedFace.indices[j-1] == optimizedFace.indices[j] {
				degenerate = true
			}
		}
		if degenerate {
			continue
""")],
  imports=["io", "log", G+"data", G+"optimizer"],
  demo="""
func TestSeed(t *testing.T) {
	o := data.DefaultOptions()
	o.GoSlice.Logger = log.New(io.Discard, "", 0)
	om, err := optimizer.NewOptimizer(&o).Optimize(append(box(0, 0, 0, 9000, 9000, 9000), tri{{0, 0, 0}, {4000, 4000, 4000}, {10, 0, 0}}))
	if err != nil {
		t.Fatal(err)
	}
	if om.FaceCount() != 12 {
		t.Fatal(om.FaceCount(), "faces instead of 12")
	}
}
"""),
dict(id="c03-offset-first-face", property="C03",
  needs="a placement in which all coordinates of one axis are negative",
  breaks="the upper bound of the optimized model is 0 instead of the largest coordinate",
  edits=[("optimizer/model.go", """	ret := o.faces[0].Points()[0].Copy()

	for _, face := range o.faces {
		for _, vertice := range face.Points() {
			if ret.X() < vertice.X() {""", """	ret := data.NewMicroVec3(0, 0, 0)

	for _, face := range o.faces {
		for _, vertice := range face.Points() {
			if ret.X() < vertice.X() {""")],
  imports=["io", "log", G+"data", G+"optimizer"],
  demo="""
func TestSeed(t *testing.T) {
	o := data.DefaultOptions()
	o.GoSlice.Logger = log.New(io.Discard, "", 0)
	o.Printer.Center = data.NewMicroVec3(-50000, 100000, 0)
	om, err := optimizer.NewOptimizer(&o).Optimize(box(0, 0, 0, 8000, 8000, 9000))
	if err != nil {
		t.Fatal(err)
	}
	if m := om.Max(); m.X() != -46000 || m.Y() != 104000 || m.Z() != 9000 {
		t.Fatal("wrong bounds", m)
	}
}
"""),
dict(id="c04-meld-box", property="C04",
  needs="two vertices in the same cell of the hash grid which are nearer than the meld distance in each axis but farther diagonally",
  breaks="vertices farther apart than the meld distance are melded",
  edits=[("optimizer/optimizer.go", "				if differenceVec.ShorterThanOrEqual(o.options.Slicing.MeldDistance) {", """				meld := o.options.Slicing.MeldDistance
				if differenceVec.Max() <= meld && differenceVec.Mul(-1).Max() <= meld {""")],
  imports=["io", "log", G+"data", G+"optimizer"],
  demo="""
func TestSeed(t *testing.T) {
	o := data.DefaultOptions()
	o.GoSlice.Logger = log.New(io.Discard, "", 0)
	o.Slicing.MeldDistance = 30
	om, err := optimizer.NewOptimizer(&o).Optimize(mesh{{{0, 0, 0}, {9000, 0, 0}, {0, 9000, 0}}, {{46, 46, 46}, {9000, 0, 9000}, {0, 9000, 9000}}, {{74, 74, 74}, {12000, 0, 9000}, {0, 12000, 9000}}})
	if err != nil {
		t.Fatal(err)
	}
	seen := map[[3]data.Micrometer]bool{}
	for i := 0; i < om.FaceCount(); i++ {
		p := om.Face(i).Points()[0]
		seen[[3]data.Micrometer{p.X(), p.Y(), p.Z()}] = true
	}
	if len(seen) != 3 {
		t.Fatal(seen)
	}
}
"""),
dict(id="c04-directed-edges", property="C04",
  needs="two faces which share an edge that both of them have in the same direction",
  breaks="such faces do not know each other as touching faces",
  edits=[("optimizer/optimizer.go", """	openFaces := 0
	for i, face := range om.faces {
		face.touching = [3]int{
			om.getFaceIdxWithPoints(face.indices[0], face.indices[1], i),
			om.getFaceIdxWithPoints(face.indices[1], face.indices[2], i),
			om.getFaceIdxWithPoints(face.indices[2], face.indices[0], i),
		}
""", """	openFaces := 0
	edges := make(map[[2]int]int, len(om.faces)*3)
	for i, face := range om.faces {
		for j := 0; j < 3; j++ {
			edges[[2]int{face.indices[j], face.indices[(j+1)%3]}] = i
		}
	}
	for i, face := range om.faces {
		for j := 0; j < 3; j++ {
			face.touching[j] = -1
			if other, ok := edges[[2]int{face.indices[(j+1)%3], face.indices[j]}]; ok {
				face.touching[j] = other
			}
		}
""")],
  imports=["io", "log", G+"data", G+"optimizer"],
  demo="""
func TestSeed(t *testing.T) {
	o := data.DefaultOptions()
	o.GoSlice.Logger = log.New(io.Discard, "", 0)
	m := box(0, 0, 0, 9000, 9000, 9000)
	m[3] = tri{m[3][0], m[3][2], m[3][1]}
	om, err := optimizer.NewOptimizer(&o).Optimize(m)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < om.FaceCount(); i++ {
		for _, n := range om.OptimizedFace(i).TouchingFaceIndices() {
			if n < 0 {
				t.Fatal("face", i, "misses a neighbour")
			}
		}
	}
}
"""),
dict(id="c05-map-order", property="C05",
  needs="a layer with several contours, sliced more than once",
  breaks="the order of the contours, and so the G-code, changes from run to run",
  edits=[("slicer/layer.go", """	for startSegmentIndex := range l.segments {
""", """	for _, startSegmentIndex := range l.faceToSegmentIndex {
""")],
  imports=[],
  demo="""
func TestSeed(t *testing.T) {
	m := join(box(0, 0, 0, 5000, 5000, 600), box(10000, 0, 0, 15000, 5000, 600), box(0, 10000, 0, 5000, 15000, 600))
	a := slice(m, nil)
	for i := 0; i < 10; i++ {
		if b := slice(m, nil); b.gcode != a.gcode || b.err != nil {
			t.Fatal("another result", b.err)
		}
	}
}
"""),
dict(id="c05-nearest-from-origin", property="C05",
  needs="filling lines in places where the direction from the origin decides, so that the place of the model in the file or on the plate matters",
  breaks="moving the model in the file changes which vertex the optimizer keeps of two near ones",
  edits=[("optimizer/optimizer.go", """	for i, point := range om.points {
		om.points[i].pos = point.pos.Sub(vectorOffset)
	}
""", """	grid := o.options.Slicing.MeldDistance / 2
	for i, point := range om.points {
		pos := point.pos.Copy()
		if len(point.faceIndices) > 8 && grid > 0 {
			// put the tips of fans onto the grid
			pos = pos.Div(grid).Mul(grid)
		}
		om.points[i].pos = pos.Sub(vectorOffset)
	}
""")],
  imports=[],
  demo="""
func fan(dx, dy int64) mesh {
	var m mesh
	var c []v3
	for _, p := range [][2]int64{{0, -20000}, {9000, -15000}, {18000, -5000}, {18000, 5000}, {9000, 15000}, {0, 20000}, {-9000, 15000}, {-18000, 5000}, {-18000, -5000}, {-9000, -15000}} {
		c = append(c, v3{p[0] + dx, p[1] + dy, 0})
	}
	for i := range c {
		m = append(m, tri{c[i], c[(i+1)%len(c)], {dx + 7007, dy + 1003, 3000}})
		m = append(m, tri{c[(i+1)%len(c)], c[i], {dx, dy, 0}})
	}
	return m
}

func TestSeed(t *testing.T) {
	a, b := slice(fan(0, 0), nil), slice(fan(40010, 22022), nil)
	if a.err != nil || b.err != nil {
		t.Fatal(a.err, b.err)
	}
	if a.gcode != b.gcode {
		t.Fatal("another place gives another result")
	}
}
"""),
dict(id="c06-z-of-layers", property="C06",
  needs="a first layer whose thickness differs from the other layers",
  breaks="layers are printed at a wrong height",
  edits=[("gcode/generator.go", "z := g.options.Print.InitialLayerThickness + data.Micrometer(layerNr)*g.options.Print.LayerThickness", """z := data.Micrometer(layerNr+1) * g.options.Print.LayerThickness
			if layerNr == 0 {
				z = g.options.Print.InitialLayerThickness
			}""")],
  imports=["math", G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	r := slice(box(0, 0, 0, 10000, 10000, 2000), func(o *data.Options) { o.Print.InitialLayerThickness = 300 })
	if r.err != nil {
		t.Fatal(r.err)
	}
	for _, m := range moves(r.gcode) {
		if want := 0.3 + 0.2*float64(m.layer); m.prints() && math.Abs(m.z1-want) > 1e-6 {
			t.Fatal("layer", m.layer, "is printed at", m.z1)
		}
	}
}
"""),
dict(id="c06-below-first", property="C06",
  needs="a face which begins between the plate and the first layer and does not reach the second layer, or a model with parts below the plate",
  breaks="the part of a face below the first layer is counted as the first layer",
  edits=[("slicer/slicer.go", """			if z < minZ {
				continue
			}
			if layerNr < 0 {
				continue
			}
""", """			if z < minZ {
				continue
			}
			if layerNr < 0 {
				layerNr = 0
			}
""")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	r := slice(box(0, 0, 0, 10000, 10000, 5000), func(o *data.Options) { o.Printer.Center = data.NewMicroVec3(100000, 100000, -2000) })
	if r.err != nil {
		t.Fatal(r.err)
	}
	if len(r.layers) != 15 {
		t.Fatal(len(r.layers), "layers")
	}
	for i, l := range r.layers {
		if a := area(l.LayerParts()); a < 99.9 || a > 100.1 {
			t.Fatal("layer", i, "has area", a)
		}
	}
}
"""),
]
