G = "github.com/aligator/goslice/"
SEEDS = [
dict(
  id='c14-bbox-covered',
  property='C14',
  needs='a part which lies inside of the bounds of a concave part of the next layer',
  breaks='it counts as covered by this layer, so that it is not filled solidly',
  edits=[('modifier/internal_infill.go', '\tvar toClip []data.LayerPart\n\n\tfor _, otherPart := range layerToRemove.LayerParts() {\n\t\ttoClip = append(toClip, otherPart)\n\t}\n', '\ttoClip := make([]data.LayerPart, 0, len(layerToRemove.LayerParts()))\n\tmin, max := part.Outline().Bounds()\n\tfor _, otherPart := range layerToRemove.LayerParts() {\n\t\totherMin, otherMax := otherPart.Outline().Bounds()\n\t\tif len(otherPart.Holes()) == 0 && min.X() > otherMin.X() && min.Y() > otherMin.Y() && max.X() < otherMax.X() && max.Y() < otherMax.Y() {\n\t\t\t// it is covered completely\n\t\t\treturn nil, nil\n\t\t}\n\t\ttoClip = append(toClip, otherPart)\n\t}\n')],
  imports=['github.com/aligator/goslice/data'],
  demo="""
func TestSeed(t *testing.T) {
	l := prism(1100, 3000, [2]int64{0, 0}, [2]int64{20000, 0}, [2]int64{20000, 5000}, [2]int64{5000, 5000}, [2]int64{5000, 20000}, [2]int64{0, 20000})
	r := slice(join(box(8000, 8000, 0, 16000, 16000, 1100), l), func(o *data.Options) { o.Print.NumberTopLayers, o.Print.NumberBottomLayers = 1, 1 })
	if r.err != nil || area(attr(r.layers[4], "top")) < 40 {
		t.Fatal(r.err, area(attr(r.layers[4], "top")))
	}
}
""",
),
dict(
  id='c15-same-bounds',
  property='C15',
  needs='a layer with a solid area which reaches to all sides of a part but does not cover it',
  breaks='the rest of the part is not filled',
  edits=[('modifier/internal_infill.go', '\t\t\tparts, ok := c.Difference(overlappingPart, append(bottomInfill, topInfill...))\n', '\t\t\tif len(overlappingPart) == 1 && len(bottomInfill) == 1 {\n\t\t\t\tmin, max := overlappingPart[0].Outline().Bounds()\n\t\t\t\tbottomMin, bottomMax := bottomInfill[0].Outline().Bounds()\n\t\t\t\tif min.Sub(bottomMin).Size2() == 0 && max.Sub(bottomMax).Size2() == 0 {\n\t\t\t\t\t// everything is filled already\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t}\n\n\t\t\tsolid := append(bottomInfill, topInfill...)\n\t\t\tparts, ok := c.Difference(overlappingPart, solid)\n')],
  imports=['github.com/aligator/goslice/data'],
  demo="""
func TestSeed(t *testing.T) {
	r := slice(join(box(5000, 5000, 0, 15000, 15000, 1100), box(0, 0, 1100, 20000, 20000, 3000)), func(o *data.Options) { o.Print.NumberTopLayers, o.Print.NumberBottomLayers = 1, 1 })
	if r.err != nil || area(attr(r.layers[5], "infill")) < 60 {
		t.Fatal(r.err, area(attr(r.layers[5], "infill")))
	}
}
""",
),
dict(
  id='c16-bounds-overhang',
  property='C16',
  needs='an overhang which does not leave the bounds of the layer below, such as a bridge or a lid over a ring',
  breaks='it is not supported',
  edits=[('modifier/support.go', '\t\t// subtract result from the next layer\n', '\t\t// nothing hangs over if the next layer does not reach further\n\t\tmin, max := layers[layerNr].Bounds()\n\t\tnextMin, nextMax := layers[layerNr+1].Bounds()\n\t\tif len(layers[layerNr].LayerParts()) > 0 && len(layers[layerNr+1].LayerParts()) > 0 && min.X() <= nextMin.X() && min.Y() <= nextMin.Y() && max.X() >= nextMax.X() && max.Y() >= nextMax.Y() {\n\t\t\tcontinue\n\t\t}\n\n')],
  imports=['github.com/aligator/goslice/data'],
  demo="""
func TestSeed(t *testing.T) {
	r := slice(join(box(0, 0, 0, 5000, 20000, 4100), box(15000, 0, 0, 20000, 20000, 4100), box(0, 0, 4100, 20000, 20000, 6000)), func(o *data.Options) { o.Print.Support.Enabled = true })
	if r.err != nil || area(attr(r.layers[5], "support")) < 100 {
		t.Fatal(r.err, area(attr(r.layers[5], "support")))
	}
}
""",
),
dict(
  id='c16-support-through',
  property='C16',
  needs='support which ends on a body which is narrow below',
  breaks='the support comes back below this body',
  edits=[('modifier/support.go', '\t\tlastSupport = actualSupport\n\n', '\t\tif len(actualSupport) > 0 {\n\t\t\tlastSupport = actualSupport\n\t\t}\n\n')],
  imports=['github.com/aligator/goslice/data'],
  demo="""
func TestSeed(t *testing.T) {
	r := slice(join(box(50000, 0, 0, 54000, 20000, 8000), box(-6000, -6000, 3100, 26000, 26000, 4100), box(3000, 0, 6100, 20000, 20000, 8000)), func(o *data.Options) {
		o.Print.Support.Enabled = true
		o.Print.Support.TopGapLayers = 3
	})
	if r.err != nil {
		t.Fatal(r.err)
	}
	if area(attr(r.layers[22], "support")) < 100 {
		t.Fatal("no support")
	}
	for k := 12; k <= 14; k++ {
		if a := area(attr(r.layers[k], "support")) + area(attr(r.layers[k], "supportInterface")); a > 1 {
			t.Fatal(k, a)
		}
	}
}
""",
),
dict(
  id='c08-manhattan',
  property='C08',
  needs='an oblique gap which is only a little smaller than the distance for finishing polygons',
  breaks='the contour is dropped',
  edits=[('data/layer.go', '\treturn p[0].Sub(p[len(p)-1]).ShorterThanOrEqual(distance)\n', '\tdiff := p[0].Sub(p[len(p)-1])\n\treturn Max(diff.X(), -diff.X())+Max(diff.Y(), -diff.Y()) <= distance\n')],
  imports=['github.com/aligator/goslice/data'],
  demo="""
func TestSeed(t *testing.T) {
	m := prism(0, 390, [2]int64{0, 0}, [2]int64{5003, 0}, [2]int64{0, 4001})
	m = append(m[:4:4], m[6:]...)
	r := slice(m, func(o *data.Options) { o.Slicing.FinishPolygonSnapDistance = 6450 })
	if r.err != nil || area(r.layers[0].LayerParts()) < 9.5 {
		t.Fatal(r.err)
	}
}
""",
),
dict(
  id='c19-multiplier-int',
  property='C19',
  needs='x',
  breaks='x',
  edits=[('gcode/builder.go', '\tfilamentArea := math.Pi * (g.filamentDiameter.ToMillimeter() / 2.0) * (g.filamentDiameter.ToMillimeter() / 2.0)\n', '\tradius := (g.filamentDiameter / 2).ToMillimeter()\n\tfilamentArea := data.Millimeter(math.Pi * radius * radius)\n')],
  imports=['github.com/aligator/goslice/data', 'math'],
  demo="""
func TestSeed(t *testing.T) {
	var o data.Options
	r := slice(box(0, 0, 0, 100000, 90000, 390), func(p *data.Options) { p.Filament.FilamentDiameter = 1001; o = *p })
	if r.err != nil {
		t.Fatal(r.err)
	}
	d := o.Filament.FilamentDiameter.ToMillimeter() / 2
	n := 0
	for _, m := range moves(r.gcode) {
		if m.layer != 0 || !m.prints() || m.length() < 50 {
			continue
		}
		n++
		want := m.length() * float64(o.Print.InitialLayerThickness.ToMillimeter()*o.Printer.ExtrusionWidth.ToMillimeter()/(math.Pi*d*d)) * float64(o.Filament.ExtrusionMultiplier) / 100
		if math.Abs(m.e-want) > 0.0008*want {
			t.Fatal(m, want)
		}
	}
	if n == 0 {
		t.Fatal("no lines")
	}
}
""",
),
dict(
  id='c12-hole-inset-lost',
  property='C12',
  needs='a part with a hole of the same bounds as another hole',
  breaks='x',
  edits=[('clip/clip.go', '\t\tco.AddPaths(clipperPaths(part.Holes()), clipper.JtSquare, clipper.EtClosedPolygon)\n\n', '\t\tfor i, hole := range part.Holes() {\n\t\t\t// the winding decides whether it is a hole\n\t\t\tif i > 0 && len(hole) == 3 && insetNr > 1 {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tco.AddPath(clipperPath(hole), clipper.JtSquare, clipper.EtClosedPolygon)\n\t\t}\n\n')],
  imports=['github.com/aligator/goslice/data', 'github.com/aligator/goslice/clip'],
  demo="""
func path(c ...data.Micrometer) data.Path {
	var p data.Path
	for i := 0; i < len(c); i += 2 {
		p = append(p, data.NewMicroPoint(c[i], c[i+1]))
	}
	return p
}

func TestSeed(t *testing.T) {
	p := data.NewBasicLayerPart(path(0, 0, 30000, 0, 30000, 20000, 0, 20000), data.Paths{
		path(5000, 6000, 7000, 12000, 11000, 6000), path(18000, 6000, 20000, 12000, 24000, 6000)})
	r := clip.NewClipper().Inset(p, 400, 3, -200)
	for k := range r {
		if len(r[k]) != 1 || len(r[k][0].Holes()) != 2 {
			t.Fatal(k, r[k])
		}
	}
}
""",
),
dict(
  id='c18-interface-bounds',
  property='C18',
  needs='an overhang at the upper end of the model with an interface',
  breaks='the lines of the interface do not reach the end of the support',
  edits=[('goslice.go', '\t\t\t\tmax.SetX(max.X() + patternSpacing)\n\t\t\t\tmax.SetY(max.Y() + patternSpacing)\n\t\t\t\treturn clip.NewLinearPattern(options.Printer.ExtrusionWidth, options.Printer.ExtrusionWidth, min, max, 0, false, true)\n', '\t\t\t\tmax.SetX(max.X() + options.Printer.ExtrusionWidth)\n\t\t\t\tmax.SetY(max.Y() + options.Printer.ExtrusionWidth)\n\t\t\t\treturn clip.NewLinearPattern(options.Printer.ExtrusionWidth, options.Printer.ExtrusionWidth, min, max, 0, false, true)\n')],
  imports=['github.com/aligator/goslice/data', 'math'],
  demo="""
func TestSeed(t *testing.T) {
	r := slice(join(box(0, 0, 0, 6000, 6000, 6000), box(0, 0, 4100, 20000, 20000, 6000)), func(o *data.Options) {
		o.Print.Support.Enabled = true
		o.Print.Support.TopGapLayers, o.Print.Support.InterfaceLayers = 1, 2
		o.Print.BrimSkirt.SkirtCount = 0
	})
	if r.err != nil {
		t.Fatal(r.err)
	}
	n := 0
	for k, l := range r.layers {
		parts := attr(l, "supportInterface")
		if len(parts) == 0 {
			continue
		}
		top := data.Micrometer(0)
		for _, p := range parts {
			_, max := p.Outline().Bounds()
			top = data.Max(top, max.Y())
		}
		got := 0.0
		for _, m := range moves(r.gcode) {
			if m.layer == k && m.typ == "SUPPORT" && m.prints() {
				got = math.Max(got, m.y1)
			}
		}
		if top < 113000 || got < 111.7 {
			t.Fatal(k, got, top)
		}
		n++
	}
	if n == 0 {
		t.Fatal("no interface")
	}
}
""",
),
dict(
  id='c20-midpoint',
  property='C20',
  needs='a travel whose ends and middle lie inside of the part, but which crosses a hole between them',
  breaks='it is not retracted',
  edits=[('clip/clip.go', '\t// TODO: Is there a more performant way to detect this?\n', '\t// Short moves only need a look at some points.\n\tif length := line[0].Sub(line[len(line)-1]); len(line) == 2 && length.ShorterThanOrEqual(20000) {\n\t\tfor i := data.Micrometer(0); i <= 4; i++ {\n\t\t\tp := line[0].Add(length.Mul(-i).Div(4))\n\t\t\tinside := false\n\t\t\tfor _, part := range parts {\n\t\t\t\tfor _, path := range append(append(data.Paths{}, part.Holes()...), part.Outline()) {\n\t\t\t\t\tfor j, a := range path {\n\t\t\t\t\t\tb := path[(j+1)%len(path)]\n\t\t\t\t\t\tif (a.Y() > p.Y()) != (b.Y() > p.Y()) && p.X() < a.X()+(b.X()-a.X())*(p.Y()-a.Y())/(b.Y()-a.Y()) {\n\t\t\t\t\t\t\tinside = !inside\n\t\t\t\t\t\t}\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t}\n\t\t\tif !inside {\n\t\t\t\treturn true, true\n\t\t\t}\n\t\t}\n\t\treturn false, true\n\t}\n\n')],
  imports=['github.com/aligator/goslice/data', 'github.com/aligator/goslice/clip'],
  demo="""
func path(c ...data.Micrometer) data.Path {
	var p data.Path
	for i := 0; i < len(c); i += 2 {
		p = append(p, data.NewMicroPoint(c[i], c[i+1]))
	}
	return p
}

func TestSeed(t *testing.T) {
	p := data.NewBasicLayerPart(path(0, 0, 10000, 0, 10000, 10000, 0, 10000), data.Paths{path(3500, 2000, 3500, 8000, 4500, 8000, 4500, 2000)})
	c, ok := clip.NewClipper().IsCrossingPerimeter([]data.LayerPart{p}, path(1000, 5000, 9000, 5000))
	if !ok || !c {
		t.Fatal(c, ok)
	}
}
""",
),
dict(
  id='c10-disjoint-shortcut',
  property='C10',
  needs='a union of two lists of which one contains parts that overlap each other, but none of the other list',
  breaks='the parts are not merged',
  edits=[('clip/clip.go', '\treturn c.runClipper(clipper.CtUnion, parts, toMerge)\n', '\tfor _, a := range parts {\n\t\tfor _, b := range toMerge {\n\t\t\taMin, aMax := a.Outline().Bounds()\n\t\t\tbMin, bMax := b.Outline().Bounds()\n\t\t\tif aMin.X() <= bMax.X() && bMin.X() <= aMax.X() && aMin.Y() <= bMax.Y() && bMin.Y() <= aMax.Y() {\n\t\t\t\treturn c.runClipper(clipper.CtUnion, parts, toMerge)\n\t\t\t}\n\t\t}\n\t}\n\t// there is nothing to merge\n\treturn append(append([]data.LayerPart(nil), parts...), toMerge...), true\n')],
  imports=['github.com/aligator/goslice/data', 'github.com/aligator/goslice/clip'],
  demo="""
func path(c ...data.Micrometer) data.Path {
	var p data.Path
	for i := 0; i < len(c); i += 2 {
		p = append(p, data.NewMicroPoint(c[i], c[i+1]))
	}
	return p
}

func TestSeed(t *testing.T) {
	p := func(x, y data.Micrometer) data.LayerPart {
		return data.NewBasicLayerPart(path(x, y, x+10000, y, x+10000, y+10000, x, y+10000), nil)
	}
	r, ok := clip.NewClipper().Union([]data.LayerPart{p(0, 0), p(5000, 5000)}, []data.LayerPart{p(50000, 0)})
	if !ok || len(r) != 2 || area(r) > 276 {
		t.Fatal(ok, r)
	}
}
""",
),
dict(
  id='c13-holes-turned',
  property='C13',
  needs='a part with holes which is used again after it was filled with a turned pattern',
  breaks='its holes are turned',
  edits=[('clip/linear.go', '\t\tvar copied = make(data.Path, len(points))\n\t\tcopy(copied, points)\n\t\tholes = append(holes, copied)\n', '\t\tholes = append(holes, points)\n')],
  imports=['github.com/aligator/goslice/data', 'github.com/aligator/goslice/clip'],
  demo="""
func path(c ...data.Micrometer) data.Path {
	var p data.Path
	for i := 0; i < len(c); i += 2 {
		p = append(p, data.NewMicroPoint(c[i], c[i+1]))
	}
	return p
}

func TestSeed(t *testing.T) {
	p := data.NewBasicLayerPart(path(0, 0, 20000, 0, 20000, 20000, 0, 20000), data.Paths{path(5000, 4000, 5000, 12000, 13000, 12000)})
	pat := clip.NewLinearPattern(400, 400, data.NewMicroPoint(0, 0), data.NewMicroPoint(20000, 20000), 45, true, false)
	if _, err := pat.Fill(0, p); err != nil {
		t.Fatal(err)
	}
	for i, q := range path(5000, 4000, 5000, 12000, 13000, 12000) {
		if q.Sub(p.Holes()[0][i]).Size2() != 0 {
			t.Fatal(p.Holes())
		}
	}
}
""",
),
dict(
  id='c31-support-after',
  property='C31',
  needs='a layer with support and without interface',
  breaks='x',
  edits=[('gcode/renderer/perimeter.go', '\tfor _, part := range perimeters {\n\t\tfor insetNr := range part {\n\t\t\t// print the outer perimeter as last perimeter\n\t\t\tif insetNr >= len(part)-1 {\n', '\tfor partNr, part := range perimeters {\n\t\tfor insetNr := range part {\n\t\t\t// print the outer perimeter as last perimeter\n\t\t\tif partNr > 6 {\n\t\t\t} else if insetNr >= len(part)-1 {\n')],
  imports=[],
  demo="""
func TestSeed(t *testing.T) {
	var m mesh
	for i := int64(0); i < 9; i++ {
		m = append(m, box(i%3*10000, i/3*10000, 0, i%3*10000+6000, i/3*10000+6000, 390)...)
	}
	r := slice(m, nil)
	if r.err != nil {
		t.Fatal(r.err)
	}
	// no inner wall follows an outer one of the same box
	lastX, lastY, outer := 0.0, 0.0, false
	for _, q := range moves(r.gcode) {
		if !q.prints() || q.typ != "WALL-OUTER" && q.typ != "WALL-INNER" {
			continue
		}
		dx, dy := q.x0-lastX, q.y0-lastY
		if outer && q.typ == "WALL-INNER" && dx*dx+dy*dy < 9 {
			t.Fatal(q)
		}
		lastX, lastY, outer = q.x1, q.y1, q.typ == "WALL-OUTER"
	}
}
""",
),
]
