G = "github.com/aligator/goslice/"
SEEDS = [
dict(id="c01-shared-work", property="C01",
  needs="a model with at least 1000 faces whose number is no multiple of four",
  breaks="the bounds of big models are calculated in four blocks, the last up to three faces are in none of them",
  edits=[("reader/reader.go", """	ret := m.faces[0].Points()[0].Copy()

	for _, face := range m.faces {
		for _, vertice := range face.Points() {
			if ret.X() < vertice.X() {""", """	ret := m.faces[0].Points()[0].Copy()

	// big models are done in four blocks
	n := len(m.faces)
	block := n
	if n >= 1000 {
		block = n / 4
	}
	for k := 0; k+block <= n; k += block {
		for _, face := range m.faces[k : k+block] {
			max := faceMax(face)
			if ret.X() < max.X() {
				ret.SetX(max.X())
			}
			if ret.Y() < max.Y() {
				ret.SetY(max.Y())
			}
			if ret.Z() < max.Z() {
				ret.SetZ(max.Z())
			}
		}
	}

	return ret
}

// faceMax returns the biggest coordinates of a face.
func faceMax(face data.Face) data.MicroVec3 {
	ret := face.Points()[0].Copy()

	{
		for _, vertice := range face.Points() {
			if ret.X() < vertice.X() {""")],
  pkg="reader", imports=[G+"data", G+"reader", "bytes", "encoding/binary", "os", "path/filepath"],
  demo="""
func TestSeed(t *testing.T) {
	for _, n := range []int{1000, 1003} {
		var b bytes.Buffer
		b.Write(make([]byte, 80))
		binary.Write(&b, binary.LittleEndian, uint32(n))
		for i := 0; i < n; i++ {
			f := float32(i)
			binary.Write(&b, binary.LittleEndian, [12]float32{0, 0, 0, f, 0, 0, f, 1, 0, f, 0, 1})
			b.Write([]byte{0, 0})
		}
		file := filepath.Join(os.Getenv("SEED_SCRATCH"), "a.stl")
		if err := os.WriteFile(file, b.Bytes(), 0o644); err != nil {
			t.Fatal(err)
		}
		o := data.DefaultOptions()
		m, err := reader.Reader(&o).Read(file)
		if err != nil {
			t.Fatal(err)
		}
		if m.FaceCount() != n || m.Max().X() != data.Micrometer(n-1)*1000 {
			t.Error(n, m.FaceCount(), m.Max())
		}
	}
}
"""),
dict(id="c03-float32", property="C03",
  needs="a model which is more than 16 m away from the origin",
  breaks="the middle of the model is calculated with 24 bits, so that it is placed some micrometers beside the center",
  edits=[("optimizer/optimizer.go", "	vectorOffset := data.NewMicroVec3((min.X()+max.X())/2, (min.Y()+max.Y())/2, min.Z())", """	middle := func(a, b data.Micrometer) data.Micrometer {
		return data.Micrometer((float32(a) + float32(b)) / 2)
	}
	vectorOffset := data.NewMicroVec3(middle(min.X(), max.X()), middle(min.Y(), max.Y()), min.Z())""")],
  imports=[G+"data", G+"optimizer", "log", "io"],
  demo="""
func TestSeed(t *testing.T) {
	for _, d := range []int64{0, 40000001} {
		o := data.DefaultOptions()
		o.GoSlice.Logger = log.New(io.Discard, "", 0)
		om, err := optimizer.NewOptimizer(&o).Optimize(box(d, d, 0, d+10000, d+10000, 5000))
		if err != nil {
			t.Fatal(err)
		}
		if om.Min().X() != o.Printer.Center.X()-5000 || om.Max().Y() != o.Printer.Center.Y()+5000 {
			t.Error(d, om.Min(), om.Max())
		}
	}
}
"""),
dict(id="c04-last-in-cell", property="C04",
  needs="more than two different vertices in the same cell of the meld grid",
  breaks="a vertex is only compared with the newest vertex of its cell, so that equal vertices may become different ones",
  edits=[("optimizer/optimizer.go", "			for _, index := range indices[hash] {\n", """			near := indices[hash]
			if len(near) > 1 {
				// the newest ones are the nearest
				near = near[len(near)-1:]
			}
			for _, index := range near {
""")],
  imports=[G+"data", G+"optimizer", "log", "io"],
  demo="""
func TestSeed(t *testing.T) {
	o := data.DefaultOptions()
	o.GoSlice.Logger = log.New(io.Discard, "", 0)
	o.Slicing.MeldDistance = 30
	a, b := v3{-14, -14, -14}, v3{14, 14, 14}
	p, q := v3{5000, 0, 0}, v3{0, 5000, 0}
	om, err := optimizer.NewOptimizer(&o).Optimize(mesh{{v3{0, 0, 0}, p, q}, {v3{6000 - 14, -14, -14}, p, q}, {a, p, v3{0, 0, 9000}}, {b, p, v3{0, 0, 9000}}})
	if err != nil {
		t.Fatal(err)
	}
	_ = om
	a, b = v3{1, 1, 1}, v3{29, 29, 29}
	a, b = v3{-14 + 3000, -14, -14}, v3{14 + 3000, 14, 14}
	tip := v3{3000, 3000, 5000}
	om, err = optimizer.NewOptimizer(&o).Optimize(mesh{{a, p, tip}, {b, q, tip}, {p, a, q}})
	if err != nil {
		t.Fatal(err)
	}
	if x := om.Face(2).Points()[1]; x != om.Face(0).Points()[0] {
		t.Fatal(x, om.Face(0).Points()[0])
	}
	if om.OptimizedFace(2).TouchingFaceIndices()[0] != 0 {
		t.Fatal(om.OptimizedFace(2).TouchingFaceIndices())
	}
}
"""),
dict(id="c03-turned-repetition", property="C03",
  needs="a face which is repeated with another first vertex",
  breaks="the repeated face is not dropped",
  edits=[("optimizer/optimizer.go", """					if faceIndex0 == faceIndex1 &&
						faceIndex0 == faceIndex2 {""", """					if faceIndex0 == faceIndex1 &&
						faceIndex0 == faceIndex2 &&
						om.faces[faceIndex0].indices[0] == optimizedFace.indices[0] {""")],
  imports=[G+"data", G+"optimizer", "log", "io"],
  demo="""
func TestSeed(t *testing.T) {
	o := data.DefaultOptions()
	o.GoSlice.Logger = log.New(io.Discard, "", 0)
	m := box(0, 0, 0, 10000, 10000, 5000)
	m = append(m, tri{m[3][1], m[3][2], m[3][0]})
	om, err := optimizer.NewOptimizer(&o).Optimize(m)
	if err != nil {
		t.Fatal(err)
	}
	if om.FaceCount() != 12 {
		t.Fatal(om.FaceCount())
	}
}
"""),
dict(id="c05-random-seam", property="C05",
  needs="a contour with more than 64 corners",
  breaks="the walls of round parts begin at a random corner, so that the G-code differs each time",
  edits=[("gcode/renderer/perimeter.go", "				err := b.AddPolygon(layer, insetParts.Outline(), z, false)\n", """				outline := insetParts.Outline()
				if len(outline) > 64 {
					// a round part: hide the seam
					seam := rand.Intn(len(outline))
					outline = append(append(data.Path{}, outline[seam:]...), outline[:seam]...)
				}
				err := b.AddPolygon(layer, outline, z, false)
"""), ("gcode/renderer/perimeter.go", "import (\n", 'import (\n	"math/rand"\n\n')],
  imports=["math"],
  demo="""
func TestSeed(t *testing.T) {
	var p [][2]int64
	for i := 0; i < 120; i++ {
		a := 2 * math.Pi * float64(i) / 120
		p = append(p, [2]int64{int64(20000 * math.Cos(a)), int64(20000 * math.Sin(a))})
	}
	m := prism(0, 2000, p...)
	a := slice(m, nil)
	for i := 0; i < 3; i++ {
		if b := slice(m, nil); a.gcode != b.gcode || b.err != nil {
			t.Fatal("the G-code differs", b.err)
		}
	}
}
"""),
dict(id="c06-millimeters", property="C06",
  needs="a height for which the division of millimeters is just below the number of layers",
  breaks="the topmost layer is missing",
  edits=[("slicer/slicer.go", "	layers := make([]*layer, layerCount)\n", """	if n := data.Micrometer((float64(maxZ)/1000-float64(s.options.Print.InitialLayerThickness)/1000)/(float64(s.options.Print.LayerThickness)/1000)) + 1; n < layerCount {
		// nearly nothing of the topmost layer is filled
		layerCount = n
	}

	layers := make([]*layer, layerCount+1)
"""), ("slicer/slicer.go", "	retLayers := make([]data.PartitionedLayer, len(layers))\n", "	layers = layers[:layerCount]\n	retLayers := make([]data.PartitionedLayer, len(layers))\n")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	for h := int64(2); h < 40; h++ {
		r := slice(box(0, 0, 0, 10000, 10000, h*100), func(o *data.Options) {
			o.Print.InitialLayerThickness = 100
			o.Print.LayerThickness = 100
		})
		if r.err != nil || len(r.layers) != int(h) {
			t.Error(h, len(r.layers), r.err)
		}
	}
}
"""),
dict(id="c07-flat-faces", property="C07",
  needs="a face which rises by two micrometers only, exactly at the height of a layer",
  breaks="nearly horizontal faces have no section, so that the contour of the layer is open there",
  edits=[("slicer/slicer.go", """		if points[1].Z() > maxZ {
			maxZ = points[1].Z()
		}
		if points[2].Z() > maxZ {
			maxZ = points[2].Z()
		}
""", """		if points[1].Z() > maxZ {
			maxZ = points[1].Z()
		}
		if maxZ = data.Max(maxZ, points[2].Z()); maxZ-minZ <= 2 {
			// a horizontal face has no section
			continue
		}
""")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	// the top of the left half rises by 2 um and then steeply
	b := box(0, 0, 0, 20000, 10000, 3000)
	_ = b
	var m mesh
	// profile in x and z, extruded along y
	p := [][2]int64{{0, 0}, {20000, 0}, {20000, 3000}, {15000, 1001}, {0, 999}}
	n := len(p)
	at := func(i int, y int64) v3 { return v3{p[i%n][0], y, p[i%n][1]} }
	for i := 1; i+1 < n; i++ {
		m = append(m, tri{at(0, 0), at(i, 0), at(i+1, 0)}, tri{at(0, 10000), at(i+1, 10000), at(i, 10000)})
	}
	for i := range p {
		m = append(m, tri{at(i, 0), at(i, 10000), at(i+1, 10000)}, tri{at(i, 0), at(i+1, 10000), at(i+1, 0)})
	}
	r := slice(m, func(o *data.Options) {
		o.Print.InitialLayerThickness = 200
		o.Print.LayerThickness = 200
	})
	if r.err != nil {
		t.Fatal(r.err)
	}
	if a := area(r.layers[4].LayerParts()); a < 100 || a > 150 {
		t.Fatal(a)
	}
}
"""),
dict(id="c08-first-without-partner", property="C08",
  needs="a contour which cannot be repaired in front of two pieces of another one which can",
  breaks="the search for pieces which fit together ends at the first piece without a partner",
  edits=[("slicer/layer.go", """		// if a matching slicePolygon was found, connect them
		if best > -1 {
""", """		if best == -1 && len(polygon) > 2 {
			// nothing fits any more
			break
		} else if best > -1 {
			// a matching slicePolygon was found, connect them
""")],
  imports=[],
  demo="""
func TestSeed(t *testing.T) {
	// a tube without one wall, and a box with two narrow slits
	broken := prism(0, 3000, [2]int64{0, 0}, [2]int64{5000, 0}, [2]int64{5000, 5000}, [2]int64{0, 5000})
	// drop the wall at y = 5000
	var open mesh
	for _, f := range broken {
		if f[0][1] == 5000 && f[1][1] == 5000 && f[2][1] == 5000 {
			continue
		}
		open = append(open, f)
	}
	good := box(20000, 0, 0, 30000, 10000, 3000)
	for i := range good {
		// two walls at x = 20000 and x = 30000 are 100 um away from the rest
		f := &good[i]
		if f[0][0] == f[1][0] && f[1][0] == f[2][0] {
			d := int64(100)
			if f[0][0] == 20000 {
				d = -100
			}
			for k := range f {
				f[k][0] += d
			}
		}
	}
	r := slice(join(open, good), nil)
	if r.err != nil {
		t.Fatal(r.err)
	}
	if a := area(r.layers[3].LayerParts()); a < 95 {
		t.Fatal(a)
	}
}
"""),
dict(id="c09-tiny-holes", property="C09",
  needs="a hole with an area below 0.09 mm^2",
  breaks="small holes are filled",
  edits=[("clip/clip.go", "			for _, child := range p.Childs() {\n", "			for _, child := range printable(p.Childs()) {\n"),
    ("clip/clip.go", "import (\n", 'import (\n	"math"\n\n'),
    ("clip/clip.go", "// removeSpikes removes spikes without any width from the polygon.\n", """// printable returns the holes which are big enough to be seen.
func printable(holes []*clipper.PolyNode) []*clipper.PolyNode {
	var result []*clipper.PolyNode
	for _, h := range holes {
		if len(h.Childs()) > 0 || math.Abs(clipper.Area(h.Contour())) >= 300*300 {
			result = append(result, h)
		}
	}
	return result
}

// removeSpikes removes spikes without any width from the polygon.
""")],
  imports=[G+"data", G+"clip"], pkg="clip",
  demo="""
type polygons data.Paths

func (p polygons) Polygons() data.Paths { return data.Paths(p) }

func square(x, y, s data.Micrometer, hole bool) data.Path {
	p := data.Path{data.NewMicroPoint(x, y), data.NewMicroPoint(x+s, y), data.NewMicroPoint(x+s, y+s), data.NewMicroPoint(x, y+s)}
	if hole {
		p[1], p[3] = p[3], p[1]
	}
	return p
}

func TestSeed(t *testing.T) {
	l, ok := clip.NewClipper().GenerateLayerParts(polygons{square(0, 0, 10000, false), square(3000, 3000, 250, true), square(6000, 6000, 400, true)})
	if !ok || len(l.LayerParts()) != 1 || len(l.LayerParts()[0].Holes()) != 2 {
		t.Fatal(ok, l.LayerParts())
	}
}
"""),
dict(id="c10-same-bounds", property="C10",
  needs="two areas with the same bounds and the same number of corners but different shape",
  breaks="the difference of the two is taken as empty",
  edits=[("clip/clip.go", "	return c.runClipper(clipper.CtDifference, parts, toRemove)\n", """	if len(parts) == 1 && len(toRemove) == 1 && len(parts[0].Outline()) == len(toRemove[0].Outline()) && len(parts[0].Holes()) == 0 && len(toRemove[0].Holes()) == 0 {
		// most layers are the same as the one below
		min, max := parts[0].Outline().Bounds()
		min2, max2 := toRemove[0].Outline().Bounds()
		if min.Sub(min2).Size2() == 0 && max.Sub(max2).Size2() == 0 {
			parts = nil
		}
	}
	clippedParts, ok = c.runClipper(clipper.CtDifference, parts, toRemove)
	return clippedParts, ok
""")],
  imports=[G+"data", G+"clip"], pkg="clip",
  demo="""
func path(c ...data.Micrometer) data.Path {
	var p data.Path
	for i := 0; i < len(c); i += 2 {
		p = append(p, data.NewMicroPoint(c[i]*1000, c[i+1]*1000))
	}
	return p
}

func TestSeed(t *testing.T) {
	a := []data.LayerPart{data.NewBasicLayerPart(path(0, 0, 10, 0, 10, 5, 5, 5, 5, 10, 0, 10), nil)}
	b := []data.LayerPart{data.NewBasicLayerPart(path(0, 0, 10, 0, 10, 10, 5, 10, 5, 5, 0, 5), nil)}
	d, ok := clip.NewClipper().Difference(a, b)
	if !ok || len(d) != 1 {
		t.Fatal(ok, d)
	}
	d, ok = clip.NewClipper().Difference(a, a)
	if !ok || len(d) != 0 {
		t.Fatal(ok, d)
	}
}
"""),
dict(id="c11-slivers", property="C11",
  needs="an inset which consists of a big piece and a long narrow one",
  breaks="pieces whose area is smaller than the square of the offset are lost even if they are long",
  edits=[("clip/clip.go", "		insets = append(insets, polyTreeToLayerParts(allNewInsets))\n", """		var pieces []data.LayerPart
		for _, piece := range polyTreeToLayerParts(allNewInsets) {
			if offset > 0 && math.Abs(clipper.Area(clipperPath(piece.Outline()))) < float64(offset*offset)*2 {
				// there is no place for any line
				continue
			}
			pieces = append(pieces, piece)
		}
		insets = append(insets, pieces)
"""), ("clip/clip.go", "import (\n", 'import (\n	"math"\n\n')],
  imports=[G+"data", G+"clip"], pkg="clip",
  demo="""
func path(c ...data.Micrometer) data.Path {
	var p data.Path
	for i := 0; i < len(c); i += 2 {
		p = append(p, data.NewMicroPoint(c[i], c[i+1]))
	}
	return p
}

func TestSeed(t *testing.T) {
	// a bar of 460 um
	in := clip.NewClipper().Inset(data.NewBasicLayerPart(path(0, 0, 5000, 0, 5000, 460, 0, 460), nil), 400, 1, -200)
	if len(in) != 1 || len(in[0]) != 1 {
		t.Fatal(in)
	}
}
"""),
dict(id="c12-hull-in-place", property="C12",
  needs="one perimeter, a single part without support and a skirt",
  breaks="the calculation of the skirt sorts the points of the wall, so that it is printed criss-cross",
  edits=[("clip/clip.go", """	var allPoints data.Path
	for _, part := range parts {
		allPoints = append(allPoints, part.Outline()...)
	}
""", """	var allPoints data.Path
	for i, part := range parts {
		if i == 0 {
			// often there is only one part
			outline := part.Outline()
			allPoints = outline[:len(outline):len(outline)]
			continue
		}
		allPoints = append(allPoints, part.Outline()...)
	}
""")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	l := [][2]int64{{0, 0}, {20000, 0}, {20000, 5000}, {5000, 5000}, {5000, 20000}, {0, 20000}}
	for _, walls := range []int{1, 2} {
		r := slice(prism(0, 2000, l...), func(o *data.Options) {
			o.Print.InsetCount = walls
			o.Print.BrimSkirt.SkirtCount = 2
		})
		if r.err != nil {
			t.Fatal(r.err)
		}
		for _, m := range moves(r.gcode) {
			if m.typ == "WALL-OUTER" && m.length() > 1 && m.prints() && m.x0 != m.x1 && m.y0 != m.y1 {
				t.Fatal(walls, m)
			}
		}
	}
}
"""),
dict(id="c12-slender", property="C12",
  needs="a part with a wide and a long slender region",
  breaks="parts which are slender on average get one wall only, also where there is place for more",
  edits=[("clip/clip.go", "		result = append(result, c.Inset(part, offset, insetCount, initialOffset))\n", """		count := insetCount
		if offset > 0 && count > 1 {
			// slender parts have no place for several insets
			length := 0.0
			outline := part.Outline()
			for i := range outline {
				length += float64(outline[(i+1)%len(outline)].Sub(outline[i]).Size())
			}
			if 2*math.Abs(clipper.Area(clipperPath(outline)))/length < 2*float64(offset) {
				count = 1
			}
		}
		result = append(result, c.Inset(part, offset, count, initialOffset))
"""), ("clip/clip.go", "import (\n", 'import (\n	"math"\n\n')],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	p := [][2]int64{{0, 0}, {2500, 0}, {2500, 1200}, {60000, 1200}, {60000, 1700}, {2500, 1700}, {2500, 2500}, {0, 2500}}
	r := slice(prism(0, 2000, p...), func(o *data.Options) { o.Print.InsetCount = 2 })
	if r.err != nil {
		t.Fatal(r.err)
	}
	for _, m := range moves(r.gcode) {
		if m.typ == "WALL-INNER" && m.prints() {
			return
		}
	}
	t.Fatal("no inner wall")
}
"""),
dict(id="c13-short-connections", property="C13",
  needs="a zigzag filling and a slit between two neighbouring lines",
  breaks="short connections between two lines are printed across the slit",
  edits=[("clip/linear.go", "					isCrossing, ok := cl.IsCrossingPerimeter([]data.LayerPart{part}, connectionLine)\n", """					isCrossing, ok := false, true
					if !p1.Sub(p2).ShorterThanOrEqual(p.lineDistance + 1) {
						// neighbouring lines need no test
						isCrossing, ok = cl.IsCrossingPerimeter([]data.LayerPart{part}, connectionLine)
					}
""")],
  imports=[G+"data", G+"clip"], pkg="clip",
  demo="""
func TestSeed(t *testing.T) {
	min, max := data.NewMicroPoint(0, 0), data.NewMicroPoint(10000, 10000)
	// a slit from the bottom to nearly the top between two lines
	outline := data.Path{data.NewMicroPoint(0, 0), data.NewMicroPoint(3900, 0), data.NewMicroPoint(3900, 9000), data.NewMicroPoint(4100, 9000), data.NewMicroPoint(4100, 0),
		data.NewMicroPoint(10000, 0), data.NewMicroPoint(10000, 10000), data.NewMicroPoint(0, 10000)}
	part := data.NewBasicLayerPart(outline, nil)
	for x := data.Micrometer(0); x < 1000; x += 100 {
		lines, err := clip.NewLinearPattern(400, 1000, min, data.NewMicroPoint(10000+x, 10000), 0, false, true).Fill(1, part)
		if err != nil {
			t.Fatal(err)
		}
		for _, l := range lines {
			for i := 1; i < len(l); i++ {
				a, b := l[i-1], l[i]
				if (a.X() < 3900) != (b.X() < 3900) && a.Y() < 9000 && b.Y() < 9000 {
					t.Fatal(a, b)
				}
			}
		}
	}
	// the same for another place of the slit
	for d := data.Micrometer(0); d < 1000; d += 100 {
		p := append(data.Path{}, outline...)
		for _, i := range []int{1, 2, 3, 4} {
			p[i] = data.NewMicroPoint(p[i].X()+d, p[i].Y())
		}
		lines, err := clip.NewLinearPattern(400, 1000, min, max, 0, false, true).Fill(1, data.NewBasicLayerPart(p, nil))
		if err != nil {
			t.Fatal(err)
		}
		for _, l := range lines {
			for i := 1; i < len(l); i++ {
				a, b := l[i-1], l[i]
				if (a.X() < 3900+d) != (b.X() < 3900+d) && a.Y() < 9000 && b.Y() < 9000 {
					t.Fatal(a, b)
				}
			}
		}
	}
}
"""),
dict(id="c15-overlap-over-100", property="C15",
  needs="an overlap of more than 100 percent",
  breaks="the area inside of the perimeters is not grown any more beyond 100 percent",
  edits=[("modifier/perimeter.go", "	if perimeterOverlap != 0 {\n", "	if perimeterOverlap > 0 {\n")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	get := func(percent int) float64 {
		r := slice(box(0, 0, 0, 20000, 20000, 6000), func(o *data.Options) {
			o.Print.InfillOverlapPercent = percent
			o.Print.InfillPercent = 20
		})
		if r.err != nil {
			t.Fatal(r.err)
		}
		return area(attr(r.layers[15], "infill"))
	}
	if a, b, c := get(50), get(100), get(150); a >= b || b >= c {
		t.Fatal(a, b, c)
	}
}
"""),
dict(id="c16-far-walls", property="C16",
  needs="a wall of the model beside the support, within the gap but hardly overlapping it",
  breaks="the gap is not kept to parts which reach less than the gap into the bounds of the support",
  edits=[("modifier/support.go", "		actualSupport, ok := cl.Difference(result, biggerLayer)\n", """		actualSupport, ok := cl.Difference(result, m.around(result, biggerLayer))
"""), ("modifier/support.go", "func (m supportGeneratorModifier) Modify(", """// around returns only the parts which can touch the support.
func (m supportGeneratorModifier) around(support []data.LayerPart, parts []data.LayerPart) []data.LayerPart {
	gap := m.options.Print.Support.Gap.ToMicrometer()
	min, max := data.NewPartitionedLayer(support).Bounds()

	var near []data.LayerPart
	for _, part := range parts {
		partMin, partMax := part.Outline().Bounds()
		if partMin.X()+gap <= max.X() && partMax.X()-gap >= min.X() && partMin.Y()+gap <= max.Y() && partMax.Y()-gap >= min.Y() {
			near = append(near, part)
		}
	}
	return near
}

func (m supportGeneratorModifier) Modify(""")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	for d := int64(5000); d < 12000; d += 500 {
		// a T and a longer wall at some distance
		m := join(box(0, 0, 0, 4000, 20000, 6000), box(0, 0, 6000, 12000, 20000, 8000), box(12000+d, -20000, 0, 12000+d+8000, 40000, 8000))
		r := slice(m, func(o *data.Options) {
			o.Print.Support.Enabled = true
			o.Print.Support.Gap = data.Millimeter(2)
		})
		if r.err != nil {
			t.Fatal(r.err)
		}
		// the support may not come nearer than the gap
		limit := data.Micrometer(0)
		for _, p := range r.layers[5].LayerParts() {
			min, _ := p.Outline().Bounds()
			if min.X() > limit {
				limit = min.X()
			}
		}
		for _, name := range []string{"support", "supportInterface"} {
			for _, p := range attr(r.layers[5], name) {
				for _, q := range p.Outline() {
					if q.X() > limit-1990 && q.X() < limit+8000 {
						t.Error(d, name, q, limit)
					}
				}
			}
		}
	}
}
"""),
dict(id="c17-brim-without-support", property="C17",
  needs="a brim together with support which protrudes from the brim",
  breaks="with a brim the skirt does not surround the support",
  edits=[("gcode/renderer/skirt.go", """		support, err := modifier.FullSupport(layer)
		if err != nil {
			return err
		}
""", """		var support []data.LayerPart
		if options.Print.BrimSkirt.BrimCount == 0 || perimeters == nil {
			// otherwise the brim is around everything
			support, err = modifier.FullSupport(layer)
		}
		if err != nil {
			return err
		}
""")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	for _, brim := range []int{0, 1} {
		m := join(box(0, 0, 0, 5000, 20000, 4000), box(0, 0, 4000, 30000, 20000, 6000))
		r := slice(m, func(o *data.Options) {
			o.Print.Support.Enabled = true
			o.Print.BrimSkirt.SkirtCount = 1
			o.Print.BrimSkirt.BrimCount = brim
		})
		if r.err != nil {
			t.Fatal(r.err)
		}
		skirt, support := 0.0, 0.0
		for _, m := range moves(r.gcode) {
			if m.layer == 0 && m.prints() && m.typ == "SKIRT" && m.x1 > skirt {
				skirt = m.x1
			}
			if m.layer == 0 && m.prints() && m.typ == "SUPPORT" && m.x1 > support {
				support = m.x1
			}
		}
		if support < 10 || skirt <= support {
			t.Fatal(brim, skirt, support)
		}
	}
}
"""),
dict(id="c20-single-part", property="C20",
  needs="a single concave part without holes",
  breaks="no travel in a layer with one part without holes is retracted, although it may leave a concave part",
  edits=[("gcode/builder.go", """				c := clip.NewClipper()
				var ok bool
				isCrossing, ok = c.IsCrossingPerimeter(currentLayer.LayerParts(), move)
""", """				c := clip.NewClipper()
				ok := true
				if parts := currentLayer.LayerParts(); len(parts) > 1 || len(parts) == 1 && len(parts[0].Holes()) > 0 {
					isCrossing, ok = c.IsCrossingPerimeter(parts, move)
				}
""")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	u := [][2]int64{{0, 0}, {30000, 0}, {30000, 30000}, {20000, 30000}, {20000, 10000}, {10000, 10000}, {10000, 30000}, {0, 30000}}
	r := slice(prism(0, 4000, u...), func(o *data.Options) {
		o.Filament.RetractionLength = 2
		o.Filament.RetractionSpeed = 30
	})
	if r.err != nil {
		t.Fatal(r.err)
	}
	n := 0
	for _, m := range moves(r.gcode) {
		if m.hasE && m.e < 0 {
			n++
		}
	}
	if n == 0 {
		t.Fatal("nothing retracted")
	}
}
"""),
dict(id="c21-close-speeds", property="C21",
  needs="an outer perimeter speed which differs by less than one mm/s from the layer speed",
  breaks="the speed of the outer perimeter is ignored",
  edits=[("gcode/renderer/perimeter.go", "					b.SetExtrudeSpeed(options.Print.OuterPerimeterSpeed)\n", """					if int(options.Print.OuterPerimeterSpeed) != int(options.Print.LayerSpeed) {
						b.SetExtrudeSpeed(options.Print.OuterPerimeterSpeed)
					}
""")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	r := slice(box(0, 0, 0, 20000, 20000, 2000), func(o *data.Options) {
		o.Print.OuterPerimeterSpeed = 20.25
		o.Print.LayerSpeed = 20.75
	})
	if r.err != nil {
		t.Fatal(r.err)
	}
	for _, m := range moves(r.gcode) {
		if m.layer > 1 && m.typ == "WALL-OUTER" && m.prints() && m.f != 1215 {
			t.Fatal(m)
		}
	}
}
"""),
dict(id="c22-two-templates", property="C22",
  needs="a line of the start code which contains a placeholder twice",
  breaks="only the first of several placeholders in a line is replaced",
  edits=[("gcode/renderer/layer.go", "fmt.Sprint(options.Filament.InitialHotEndTemperature), -1)", "fmt.Sprint(options.Filament.InitialHotEndTemperature), 1)")],
  imports=[G+"data", "strings"],
  demo="""
func TestSeed(t *testing.T) {
	r := slice(box(0, 0, 0, 20000, 20000, 2000), func(o *data.Options) {
		o.Printer.StartGCode = data.NewGCodeHunk([]string{"M109 S{print_temperature} ; {print_temperature} degrees", "G28"})
	})
	if r.err != nil {
		t.Fatal(r.err)
	}
	if strings.Contains(r.gcode, "{print") {
		t.Fatal(r.gcode[:400])
	}
}
"""),
dict(id="c23-float32", property="C23",
  needs="a path of more than 10 cm",
  breaks="the distance of a point to a long line is calculated with 24 bits, so that points which matter are dropped",
  edits=[("data/2d.go", "	axSize2 := dotProduct * dotProduct / vecAB.Size2()\n", "	axSize2 := Micrometer(float32(dotProduct) * (float32(dotProduct) / float32(vecAB.Size2())))\n")],
  imports=[G+"data"], pkg="data",
  demo="""
func TestSeed(t *testing.T) {
	for x := data.Micrometer(1000); x < 50000; x += 37 {
		p := data.Path{data.NewMicroPoint(0, 0), data.NewMicroPoint(x, 12), data.NewMicroPoint(50000, 0)}
		if q := data.DouglasPeucker(p, -1); len(q) != 3 {
			t.Fatal(x, q)
		}
	}
}
"""),
dict(id="c25-partial-result", property="C25",
  needs="a slicer which returns an error together with the layers which it has done so far",
  breaks="the error is ignored and the incomplete G-code is written",
  edits=[("goslice.go", """	layers, err := s.Slicer.Slice(optimizedModel)
	if err != nil {
""", """	layers, err := s.Slicer.Slice(optimizedModel)
	if err != nil && len(layers) == 0 {
""")],
  imports=[G+"data", G.rstrip("/"), "errors", "log", "io"],
  demo="""
type partial struct{ s interface {
	Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error)
} }

func (p partial) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
	l, _ := p.s.Slice(m)
	return l[:2], errors.New("out of memory")
}

func TestSeed(t *testing.T) {
	o := data.DefaultOptions()
	o.GoSlice.Logger = log.New(io.Discard, "", 0)
	s := goslice.NewGoSlice(o)
	s.Reader = memReader{box(0, 0, 0, 10000, 10000, 5000)}
	s.Slicer = partial{s.Slicer}
	w := &memWriter{}
	s.Writer = w
	if err := s.Process(); err == nil || w.gcode != "" {
		t.Fatal(err, len(w.gcode))
	}
}
"""),
dict(id="c31-covered-walls", property="C31",
  needs="a part with more than one hole and at least three walls",
  breaks="the innermost wall of such a part is printed after its outer wall",
  edits=[("gcode/renderer/perimeter.go", """			// print the outer perimeter as last perimeter
			if insetNr >= len(part)-1 {
""", """			last := len(part) - 1
			if last >= 2 && len(part[0]) == 1 && len(part[0][0].Holes()) > 1 {
				// begin the outer wall where the holes end
				last--
			}

			// print the outer perimeter as last perimeter
			if insetNr > last {
				insetNr = last + 1
			} else if insetNr == last {
""")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	m := join(box(0, 0, 0, 30000, 20000, 2000), invert(box(5000, 5000, -1000, 10000, 10000, 3000)))
	_ = m
	// a plate with two holes, made of walls only
	var p mesh
	ring := func(x0, y0, x1, y1 int64, in bool) {
		b := box(x0, y0, 0, x1, y1, 2000)
		var w mesh
		for _, f := range b {
			if f[0][2] == f[1][2] && f[1][2] == f[2][2] {
				continue
			}
			w = append(w, f)
		}
		if in {
			w = invert(w)
		}
		p = append(p, w...)
	}
	ring(0, 0, 30000, 20000, false)
	ring(5000, 5000, 10000, 10000, true)
	ring(18000, 5000, 24000, 10000, true)
	r := slice(p, func(o *data.Options) { o.Print.InsetCount = 3 })
	if r.err != nil {
		t.Fatal(r.err)
	}
	last := ""
	for _, m := range moves(r.gcode) {
		if m.layer == 3 && m.prints() {
			if m.typ == "WALL-INNER" && last == "WALL-OUTER" {
				t.Fatal(m)
			}
			last = m.typ
		}
	}
}
"""),
]
