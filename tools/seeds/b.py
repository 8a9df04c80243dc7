G = "github.com/aligator/goslice/"
SEEDS = [
dict(id="c07-vertex-on-layer", property="C07",
  needs="a layer exactly at the height of a vertex, and a facet whose second vertex is the lowest one while its first vertex is on that height",
  breaks="the facet gives no segment, so the contour stays open and is dropped or cut short",
  edits=[("slicer/slicer.go", "case points[1].Z() < z && points[0].Z() >= z && points[2].Z() >= z:", "case points[1].Z() < z && points[0].Z() > z && points[2].Z() >= z:")],
  imports=[],
  demo="""
func TestSeed(t *testing.T) {
	m := box(0, 0, 0, 10000, 10000, 2000)
	for k := 0; k < 3; k++ {
		for i := range m {
			m[i] = tri{m[i][1], m[i][2], m[i][0]}
		}
		r := slice(m, nil)
		if r.err != nil {
			t.Fatal(r.err)
		}
		for i, l := range r.layers {
			if a := area(l.LayerParts()); a < 99.9 || a > 100.1 {
				t.Fatal("layer", i, "has area", a)
			}
		}
	}
}
"""),
dict(id="c07-small-contours", property="C07",
  needs="a contour with a circumference of a few millimeters",
  breaks="small parts and holes are dropped from the layer",
  edits=[("slicer/layer.go", "		length := data.Micrometer(0)\n", "		length := -finishPolygonSnapDistance\n")],
  imports=[],
  demo="""
func TestSeed(t *testing.T) {
	r := slice(join(box(0, 0, 0, 10000, 10000, 2000), box(12000, 0, 0, 12450, 450, 2000)), nil)
	if r.err != nil {
		t.Fatal(r.err)
	}
	for i, l := range r.layers {
		if a := area(l.LayerParts()); a < 100.15 || a > 100.25 {
			t.Fatal("layer", i, "has area", a)
		}
	}
}
"""),
dict(id="c08-join-once", property="C08",
  needs="a contour which is cut into more than two pieces by defects of the mesh",
  breaks="pieces are joined only once, so the contour stays open and is removed",
  edits=[("slicer/layer.go", """			// erase the merged slicePolygon
			l.polygons[best] = nil
			// restart search
			goto RerunConnectPolygons
""", """			// erase the merged slicePolygon
			l.polygons[best] = nil
""")],
  imports=[],
  demo="""
func TestSeed(t *testing.T) {
	m := box(0, 0, 0, 10000, 10000, 2000)
	// two opposite walls do not quite meet the other ones
	for i := range m {
		for j := range m[i] {
			if i >= 4 && (i-4)/2%2 == 0 {
				if m[i][j][0] == 0 {
					m[i][j][0] = 50
				} else {
					m[i][j][0] = 9950
				}
			}
		}
	}
	r := slice(m, nil)
	if r.err != nil {
		t.Fatal(r.err)
	}
	for i, l := range r.layers {
		if a := area(l.LayerParts()); a < 98 || a > 100.1 {
			t.Fatal("layer", i, "has area", a)
		}
	}
}
"""),
dict(id="c09-islands-overwritten", property="C09",
  needs="islands in two different holes of the same layer",
  breaks="only the islands of the last hole become parts",
  edits=[("clip/clip.go", """				for _, c := range child.Childs() {
					polysForNextRound = append(polysForNextRound, c)
				}
""", """				if islands := child.Childs(); len(islands) > 0 {
					polysForNextRound = islands
				}
""")],
  imports=[],
  demo="""
func TestSeed(t *testing.T) {
	r := slice(join(box(0, 0, 0, 50000, 20000, 600), invert(box(2000, 2000, 0, 18000, 18000, 600)), box(5000, 5000, 0, 15000, 15000, 600),
		invert(box(30000, 2000, 0, 46000, 18000, 600)), box(34000, 5000, 0, 44000, 15000, 600)), nil)
	if r.err != nil {
		t.Fatal(r.err)
	}
	for i, l := range r.layers {
		if len(l.LayerParts()) != 3 {
			t.Fatal("layer", i, "has", len(l.LayerParts()), "parts")
		}
	}
}
"""),
dict(id="c10-bbox-typo", property="C10",
  needs="areas whose y range lies beyond the x range of the other one",
  breaks="areas which overlap are considered far apart, so that nothing is removed",
  edits=[("clip/clip.go", """	return c.runClipper(clipper.CtDifference, parts, toRemove)
""", """	if len(parts) == 1 && len(toRemove) > 0 {
		// ignore everything which cannot touch the part
		min, max := parts[0].Outline().Bounds()
		var near []data.LayerPart
		for _, r := range toRemove {
			rMin, rMax := r.Outline().Bounds()
			if rMax.X() < min.X() || rMin.X() > max.X() || rMax.Y() < min.Y() || rMin.Y() > max.X() {
				continue
			}
			near = append(near, r)
		}
		return c.runClipper(clipper.CtDifference, parts, near)
	}
	return c.runClipper(clipper.CtDifference, parts, toRemove[:])
""")],
  imports=[G+"clip", G+"data"],
  demo="""
func rect(x0, y0, x1, y1 data.Micrometer) data.LayerPart {
	return data.NewBasicLayerPart(data.Path{data.NewMicroPoint(x0, y0), data.NewMicroPoint(x1, y0), data.NewMicroPoint(x1, y1), data.NewMicroPoint(x0, y1)}, nil)
}

func TestSeed(t *testing.T) {
	for _, d := range [][2]data.Micrometer{{0, 0}, {0, 50000}, {50000, 0}, {-50000, 3000}, {3000, -50000}} {
		got, ok := clip.NewClipper().Difference([]data.LayerPart{rect(d[0], d[1], d[0]+10000, d[1]+10000)}, []data.LayerPart{rect(d[0]+5000, d[1], d[0]+9000, d[1]+10000)})
		if a := area(got); !ok || a < 59.9 || a > 60.1 {
			t.Fatal(d, "area", a)
		}
	}
}
"""),
dict(id="c11-holes-when-growing", property="C11",
  needs="a part with holes which is grown by a negative offset",
  breaks="holes are closed completely instead of getting smaller",
  edits=[("clip/clip.go", """		co.AddPaths(clipperPaths(part.Holes()), clipper.JtSquare, clipper.EtClosedPolygon)

		co.MiterLimit = 2
		allNewInsets""", """		if currentOffset <= 0 {
			co.AddPaths(clipperPaths(part.Holes()), clipper.JtSquare, clipper.EtClosedPolygon)
		}

		co.MiterLimit = 2
		allNewInsets""")],
  imports=[G+"clip", G+"data"],
  demo="""
func path(ps ...data.Micrometer) data.Path {
	var r data.Path
	for i := 0; i < len(ps); i += 2 {
		r = append(r, data.NewMicroPoint(ps[i], ps[i+1]))
	}
	return r
}

func TestSeed(t *testing.T) {
	part := data.NewBasicLayerPart(path(0, 0, 10000, 0, 10000, 10000, 0, 10000), data.Paths{path(2000, 2000, 2000, 8000, 8000, 8000, 8000, 2000)})
	got := clip.NewClipper().Inset(part, -400, 1, 400)
	if len(got) != 1 || len(got[0]) != 1 || len(got[0][0].Holes()) != 1 {
		t.Fatal("the hole is gone")
	}
}
"""),
dict(id="c11-stop-when-empty", property="C11",
  needs="an area which splits: one piece becomes too thin while others remain for the next insets",
  breaks="if an inset has fewer pieces than the one before, all further insets are missing",
  edits=[("clip/clip.go", """		insets = append(insets, polyTreeToLayerParts(allNewInsets))

		currentOffset += float64(-int(offset))
""", """		insetParts := polyTreeToLayerParts(allNewInsets)
		insets = append(insets, insetParts)
		if insetNr > 0 && len(insetParts) < len(insets[insetNr-1]) {
			// nothing left, the remaining insets stay empty
			for len(insets) < insetCount {
				insets = append(insets, nil)
			}
			break
		}

		currentOffset += float64(-int(offset))
""")],
  imports=[G+"clip", G+"data"],
  demo="""
func path(ps ...data.Micrometer) data.Path {
	var r data.Path
	for i := 0; i < len(ps); i += 2 {
		r = append(r, data.NewMicroPoint(ps[i], ps[i+1]))
	}
	return r
}

func TestSeed(t *testing.T) {
	// two squares of different size which are connected by a narrow bridge
	part := data.NewBasicLayerPart(path(0, 0, 10000, 0, 10000, 4800, 12000, 4800, 12000, 4000, 14000, 4000, 14000, 6000, 12000, 6000, 12000, 5200, 10000, 5200, 10000, 10000, 0, 10000), nil)
	got := clip.NewClipper().Inset(part, 400, 5, -300)
	for i, n := range got {
		if len(n) == 0 {
			t.Fatal("inset", i, "is empty")
		}
	}
}
"""),
dict(id="c12-skip-triangles", property="C12",
  needs="a part or a hole which is a triangle",
  breaks="triangles get no perimeter lines",
  edits=[("gcode/renderer/perimeter.go", """				err := b.AddPolygon(layer, insetParts.Outline(), z, false)
				if err != nil {
					return err
				}
""", """				if len(insetParts.Outline()) > 3 {
					err := b.AddPolygon(layer, insetParts.Outline(), z, false)
					if err != nil {
						return err
					}
				}
""")],
  imports=[],
  demo="""
func TestSeed(t *testing.T) {
	r := slice(prism(0, 600, [2]int64{0, 0}, [2]int64{20000, 0}, [2]int64{0, 20000}), nil)
	if r.err != nil {
		t.Fatal(r.err)
	}
	n := 0
	for _, m := range moves(r.gcode) {
		if m.prints() && m.typ == "WALL-OUTER" {
			n++
		}
	}
	if n != 9 {
		t.Fatal(n, "lines of outer walls instead of 9")
	}
}
"""),
dict(id="c12-holes-of-inner", property="C12",
  needs="a part with several holes",
  breaks="only the first hole of a part gets its inner perimeters",
  edits=[("gcode/renderer/perimeter.go", """				for _, hole := range insetParts.Holes() {
					err := b.AddPolygon(layer, hole, z, false)
					if err != nil {
						return err
					}
				}
""", """				for holeNr, hole := range insetParts.Holes() {
					if insetNr > holeNr+1 {
						continue
					}
					err := b.AddPolygon(layer, hole, z, false)
					if err != nil {
						return err
					}
				}
""")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	r := slice(join(box(0, 0, 0, 30000, 20000, 600), invert(box(8000, 8000, 0, 12000, 12000, 600))), func(o *data.Options) { o.Print.InsetCount = 3 })
	if r.err != nil {
		t.Fatal(r.err)
	}
	n := 0
	for _, m := range moves(r.gcode) {
		if m.prints() && m.typ == "WALL-INNER" && m.x0 == 92 && m.x1 == 92 && m.y0 > 97 && m.y0 < 103 {
			n++
		}
	}
	if n != 3 {
		t.Fatal(n, "lines of inner walls at the left of the hole")
	}
}
"""),
dict(id="c13-negative-modulo", property="C13",
  needs="a rotation which brings the area to negative coordinates",
  breaks="the first line of the pattern starts too late, a stripe at the border stays empty",
  edits=[("clip/linear.go", "	for x := min.X(); x <= max.X(); x += p.lineDistance {", "	for x := (min.X() + p.lineDistance) / p.lineDistance * p.lineDistance; x <= max.X(); x += p.lineDistance {")],
  imports=[G+"clip", G+"data"],
  demo="""
func path(ps ...data.Micrometer) data.Path {
	var r data.Path
	for i := 0; i < len(ps); i += 2 {
		r = append(r, data.NewMicroPoint(ps[i], ps[i+1]))
	}
	return r
}

func TestSeed(t *testing.T) {
	for layer := 0; layer < 2; layer++ {
		p := clip.NewLinearPattern(400, 5000, data.NewMicroPoint(100, 100), data.NewMicroPoint(10300, 10300), 0, true, false)
		got, err := p.Fill(layer, data.NewBasicLayerPart(path(0, 0, 10400, 0, 10400, 10400, 0, 10400), nil))
		if err != nil || len(got) != 3 {
			t.Fatal(layer, len(got), "lines", err)
		}
	}
}
"""),
dict(id="c13-zigzag-distance", property="C13",
  needs="zig-zag filling of an area with a notch, so that the connection of two lines would cross the notch",
  breaks="connection lines are printed outside of the area",
  edits=[("clip/linear.go", """					isCrossing, ok := cl.IsCrossingPerimeter([]data.LayerPart{part}, connectionLine)
""", """					isCrossing, ok := false, true
					if len(part.Holes()) > 0 || !p1.Sub(p2).ShorterThanOrEqual(p.lineDistance) {
						isCrossing, ok = cl.IsCrossingPerimeter([]data.LayerPart{part}, connectionLine)
					}
""")],
  imports=[G+"clip", G+"data"],
  demo="""
func path(ps ...data.Micrometer) data.Path {
	var r data.Path
	for i := 0; i < len(ps); i += 2 {
		r = append(r, data.NewMicroPoint(ps[i], ps[i+1]))
	}
	return r
}

func TestSeed(t *testing.T) {
	for i, part := range []data.Path{
		path(0, 0, 10000, 0, 10000, 10000, 6000, 10000, 6000, 1000, 4000, 1000, 4000, 10000, 0, 10000),
		path(0, 0, 4000, 0, 4000, 9000, 6000, 9000, 6000, 0, 10000, 0, 10000, 10000, 0, 10000),
	} {
		p := clip.NewLinearPattern(400, 5000, data.NewMicroPoint(2500, 0), data.NewMicroPoint(12500, 10000), 0, false, true)
		got, err := p.Fill(0, data.NewBasicLayerPart(part, nil))
		if err != nil {
			t.Fatal(err)
		}
		for _, l := range got {
			x, y := (l[0].X()+l[1].X())/2, (l[0].Y()+l[1].Y())/2
			if x > 4000 && x < 6000 && (i == 0 && y > 1000 || i == 1 && y < 9000) {
				t.Fatal("a line leaves the area")
			}
		}
	}
}
"""),
]
