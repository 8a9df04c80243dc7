G = "github.com/aligator/goslice/"
SEEDS = [
dict(id="c14-bottom-stops", property="C14",
  needs="an overhang and more than one bottom layer: the layer directly below covers the part completely, the one below that does not",
  breaks="only the lowest layer above an overhang is filled solidly instead of the configured number of layers",
  edits=[("modifier/infill.go", """						parts, err = partDifference(insetPart, layers[layerNr-1-i])
						if err != nil {
							return err
						}
""", """						if parts, err = partDifference(insetPart, layers[layerNr-1-i]); err != nil {
							return err
						}
						if len(parts) == 0 {
							// completely covered from below
							break
						}
""")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	r := slice(join(box(0, 0, 0, 10000, 10000, 2000), box(0, 0, 2000, 20000, 10000, 4000)), func(o *data.Options) { o.Print.NumberBottomLayers = 3; o.Print.NumberTopLayers = 1 })
	if r.err != nil {
		t.Fatal(r.err)
	}
	for k := 10; k < 13; k++ {
		if a := area(attr(r.layers[k], "bottom")); a < 50 {
			t.Fatal("layer", k, "has a bottom of", a)
		}
	}
}
"""),
dict(id="c14-no-exset", property="C14",
  needs="a bottom or top area which does not fill the whole part, with a full overlap of more than 100 percent",
  breaks="the solid area does not grow into the neighbouring filling",
  edits=[("modifier/perimeter.go", "	if perimeterOverlap != 0 {", "	if perimeterOverlap > 0 {")],
  imports=[G+"data", "math"],
  demo="""
func TestSeed(t *testing.T) {
	r := slice(join(box(0, 0, 0, 10000, 10000, 2000), box(0, 0, 2000, 20000, 10000, 4000)), func(o *data.Options) { o.Print.NumberBottomLayers = 1; o.Print.NumberTopLayers = 1 })
	if r.err != nil {
		t.Fatal(r.err)
	}
	minX := 1e9
	for _, p := range attr(r.layers[10], "bottom") {
		for _, q := range p.Outline() {
			minX = math.Min(minX, float64(q.X()))
		}
	}
	// the overhang begins at 100 mm
	if minX > 99500 {
		t.Fatal("the bottom begins at", minX)
	}
}
"""),
dict(id="c15-thin-part-first", property="C15",
  needs="no solid layers at this height, and a part which is too thin for an inner area before a thick one",
  breaks="the parts after the thin one get no filling",
  edits=[("modifier/internal_infill.go", """			if overlappingPart == nil && bottomInfill == nil && topInfill == nil {
				continue
			}
""", """			if overlappingPart == nil && bottomInfill == nil && topInfill == nil {
				break
			}
""")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	for k := 0; k < 4; k++ {
		m := join(box(0, 0, 0, 12000, 12000, 3000), box(14000, 0, 0, 14700, 12000, 3000))
		// turned by multiples of 90 degree, so that the thin part is the first one in one of the cases
		for n := 0; n < k; n++ {
			for i := range m {
				for j := range m[i] {
					m[i][j] = v3{-m[i][j][1], m[i][j][0], m[i][j][2]}
				}
			}
		}
		r := slice(m, func(o *data.Options) { o.Print.NumberBottomLayers = 0; o.Print.NumberTopLayers = 0 })
		if r.err != nil {
			t.Fatal(r.err)
		}
		if a := area(attr(r.layers[5], "infill")); a < 80 {
			t.Fatal("turned", k, "times: the filling has", a)
		}
	}
}
"""),
dict(id="c16-lowest-support", property="C16",
  needs="an overhang which begins exactly one layer above the top gap",
  breaks="the only layer of support below the overhang is missing",
  edits=[("modifier/support.go", "if layerNr == len(layers)-1 || layerNr < m.options.Print.Support.TopGapLayers {", "if layerNr == len(layers)-1 || layerNr <= m.options.Print.Support.TopGapLayers {")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	for n := int64(2); n < 6; n++ {
		r := slice(join(box(0, 0, 0, 10000, 10000, n*200), box(0, 0, n*200, 30000, 10000, n*200+1000)), func(o *data.Options) {
			o.Print.Support.Enabled = true
			o.Print.Support.TopGapLayers = int(n) - 1
		})
		if r.err != nil {
			t.Fatal(r.err)
		}
		if a := area(attr(r.layers[0], "fullSupport")); a < 100 {
			t.Fatal(n, "layers below the overhang: support of", a)
		}
	}
}
"""),
dict(id="c16-interface-over-brim", property="C16",
  needs="support whose interface reaches down to the first layer, and a brim",
  breaks="the support interface is printed on top of the brim lines",
  edits=[("modifier/support.go", """				interfaceParts, ok = c.Difference(interfaceParts, brimArea)
				actualWithoutInterfaceParts, ok""", """				actualWithoutInterfaceParts, ok""")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	r := slice(join(box(0, 0, 0, 10000, 10000, 800), box(0, 0, 800, 30000, 10000, 2000)), func(o *data.Options) {
		o.Print.Support.Enabled = true
		o.Print.BrimSkirt.BrimCount = 6
		o.Print.Support.TopGapLayers = 1
		o.Print.Support.InterfaceLayers = 5
	})
	if r.err != nil {
		t.Fatal(r.err)
	}
	if a := area(attr(r.layers[0], "supportInterface")); a < 20 {
		t.Fatal("no interface", a)
	}
	for _, p := range attr(r.layers[0], "supportInterface") {
		for _, q := range p.Outline() {
			// the body ends at 95 mm, the brim is 2.4 mm wide
			if q.X() < 97200 && q.Y() > 94300 && q.Y() < 105700 {
				t.Fatal("the interface reaches to", q)
			}
		}
	}
}
"""),
dict(id="c17-skirt-without-interface", property="C17",
  needs="support of which the interface reaches the first layer and stands further out than the model",
  breaks="the skirt runs through the support",
  edits=[("gcode/renderer/skirt.go", "support, err := modifier.FullSupport(layer)", "support, err := modifier.PartsAttribute(layer, \"support\")")],
  imports=[G+"data", "math"],
  demo="""
func TestSeed(t *testing.T) {
	r := slice(join(box(0, 0, 0, 10000, 10000, 800), box(0, 0, 800, 30000, 10000, 2000)), func(o *data.Options) {
		o.Print.Support.Enabled = true
		o.Print.Support.TopGapLayers = 1
		o.Print.Support.InterfaceLayers = 5
	})
	if r.err != nil {
		t.Fatal(r.err)
	}
	skirt, support := 0.0, 0.0
	for _, m := range moves(r.gcode) {
		if m.layer == 0 && m.prints() && m.typ == "SKIRT" {
			skirt = math.Max(skirt, m.x1)
		}
		if m.layer == 0 && m.prints() && m.typ == "SUPPORT" {
			support = math.Max(support, m.x1)
		}
	}
	if support < 105 || skirt < support+2 {
		t.Fatal("support up to", support, "skirt up to", skirt)
	}
}
"""),
dict(id="c18-small-percent", property="C18",
  needs="an infill percentage for which the number of lines in 10 mm is not a whole number",
  breaks="the distance of the filling lines is rounded to a whole number of lines in 10 mm",
  edits=[("goslice.go", "float64(linesPer10mmFor100Percent) * float64(options.Print.InfillPercent) / 100.0", "math.Max(1, math.Floor(float64(linesPer10mmFor100Percent)*float64(options.Print.InfillPercent)/100.0))"),
    ("goslice.go", "import (\n	\"time\"\n", "import (\n	\"math\"\n	\"time\"\n")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	r := slice(box(0, 0, 0, 60000, 60000, 3000), func(o *data.Options) { o.Print.InfillPercent = 15; o.Print.InfillRotationDegree = 0; o.Print.NumberBottomLayers = 1; o.Print.NumberTopLayers = 1 })
	if r.err != nil {
		t.Fatal(r.err)
	}
	n := 0
	for _, m := range moves(r.gcode) {
		if m.layer == 5 && m.prints() && m.sub == "INTERNAL-FILL" {
			n++
		}
	}
	// 25 lines in 10 mm for 100 percent, so 15 percent are 3.75 lines in 10 mm
	if n < 21 || n > 24 {
		t.Fatal(n, "lines")
	}
}
"""),
dict(id="c18-interface-spacing", property="C18",
  needs="support with an interface and an extrusion width which differs from the pattern spacing of the support",
  breaks="the interface is filled with the wide spacing of the support when zig-zag is used for the infill",
  edits=[("goslice.go", """				return clip.NewLinearPattern(options.Printer.ExtrusionWidth, options.Printer.ExtrusionWidth, min, max, 0, false, true)
""", """				spacing := options.Printer.ExtrusionWidth
				if options.Print.InfillZigZag {
					spacing = patternSpacing
				}
				return clip.NewLinearPattern(options.Printer.ExtrusionWidth, spacing, min, max, 0, false, true)
""")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	n := [2]int{}
	for k := range n {
		r := slice(join(box(0, 0, 0, 10000, 10000, 3000), box(0, 0, 3000, 30000, 10000, 4000)), func(o *data.Options) {
			o.Print.Support.Enabled = true
			o.Print.InfillZigZag = k == 1
		})
		if r.err != nil {
			t.Fatal(r.err)
		}
		for _, m := range moves(r.gcode) {
			if m.prints() && m.typ == "SUPPORT" {
				n[k]++
			}
		}
	}
	if n[0] != n[1] {
		t.Fatal("lines of the support without and with zig-zag infill:", n)
	}
}
"""),
dict(id="c19-empty-second-layer", property="C19",
  needs="a model which has nothing at the height of the second layer",
  breaks="all layers above are extruded with the thickness of the first layer",
  edits=[("gcode/renderer/layer.go", "	} else if layerNr == 1 {", "	} else if layerNr == 1 && len(layer.LayerParts()) > 0 {")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	r := slice(join(box(0, 0, 0, 10000, 10000, 300), box(0, 0, 500, 10000, 10000, 1000)), func(o *data.Options) { o.Print.InitialLayerThickness = 300; o.Print.LayerThickness = 100 })
	if r.err != nil {
		t.Fatal(r.err)
	}
	e := map[int]float64{}
	for _, m := range moves(r.gcode) {
		if m.prints() && m.typ == "WALL-OUTER" {
			e[m.layer] += m.e
		}
	}
	if len(e) < 4 || e[0]/e[5] < 2.5 {
		t.Fatal(e)
	}
}
"""),
dict(id="c20-hop-from-here", property="C20",
  needs="z hop, and a retracted travel which is the first one in a new layer",
  breaks="the nozzle is lifted relative to the layer below, so that it travels too low",
  edits=[("gcode/builder.go", "zMove = z + g.zHopOnRetract.ToMicrometer()", "zMove = g.currentPosition.Z() + g.zHopOnRetract.ToMicrometer()")],
  imports=[G+"data", "math"],
  demo="""
func TestSeed(t *testing.T) {
	r := slice(join(box(0, 0, 0, 10000, 10000, 3000), box(20000, 0, 0, 30000, 10000, 3000)), func(o *data.Options) { o.Filament.RetractionZHop = 0.3 })
	if r.err != nil {
		t.Fatal(r.err)
	}
	n := 0
	for _, m := range moves(r.gcode) {
		z := 0.2 + 0.2*float64(m.layer)
		if !m.prints() && m.length() > 10 && m.x0 != 0 && m.y0 != 0 {
			n++
			// a travel is lifted or not
			if math.Abs(m.z1-z) > 0.001 && math.Abs(m.z1-z-0.3) > 0.001 {
				t.Fatal("layer", m.layer, "travel at", m.z1)
			}
		}
	}
	if n < 10 {
		t.Fatal(n)
	}
}
"""),
dict(id="c20-short-travels", property="C20",
  needs="a short travel between two parts with a narrow gap",
  breaks="short travels which leave the part are not retracted",
  edits=[("gcode/builder.go", """				isCrossing, ok = c.IsCrossingPerimeter(currentLayer.LayerParts(), move)

""", """				if ok = move[1].Sub(move[0]).ShorterThanOrEqual(1000); !ok {
					isCrossing, ok = c.IsCrossingPerimeter(currentLayer.LayerParts(), move)
				}

""")],
  imports=[G+"gcode", G+"data"],
  demo="""
func rect(x0, y0, x1, y1 data.Micrometer) data.Path {
	return data.Path{data.NewMicroPoint(x0, y0), data.NewMicroPoint(x1, y0), data.NewMicroPoint(x1, y1), data.NewMicroPoint(x0, y1)}
}

func TestSeed(t *testing.T) {
	o := data.DefaultOptions()
	b := gcode.NewGCodeBuilder(&o)
	b.SetRetractionSpeed(30)
	b.SetRetractionAmount(2)
	b.SetExtrusion(200, 400)
	l := data.NewPartitionedLayer([]data.LayerPart{data.NewBasicLayerPart(rect(0, 0, 5000, 5000), nil), data.NewBasicLayerPart(rect(5300, 0, 9000, 5000), nil)})
	if err := b.AddPolygon(l, data.Path{data.NewMicroPoint(200, 200), data.NewMicroPoint(4800, 200)}, 200, true); err != nil {
		t.Fatal(err)
	}
	if err := b.AddPolygon(l, data.Path{data.NewMicroPoint(5500, 200), data.NewMicroPoint(8800, 200)}, 200, true); err != nil {
		t.Fatal(err)
	}
	n := 0
	for _, m := range moves(";LAYER:0\\n" + b.String()) {
		if m.e < 0 {
			n++
		}
	}
	if n != 1 {
		t.Fatal(n, "retractions\\n", b.String())
	}
}
"""),
dict(id="c21-second-part-speed", property="C21",
  needs="a layer with several parts and different speeds for inner and outer perimeters",
  breaks="the inner perimeters of all parts but the first are printed with the speed of the outer perimeter",
  edits=[("gcode/renderer/perimeter.go", """					b.AddComment("TYPE:WALL-INNER")
					b.SetExtrudeSpeed(options.Print.LayerSpeed)
""", """					b.AddComment("TYPE:WALL-INNER")
""")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	r := slice(join(box(0, 0, 0, 10000, 10000, 1000), box(20000, 0, 0, 30000, 10000, 1000)), func(o *data.Options) { o.Print.LayerSpeed = 70; o.Print.OuterPerimeterSpeed = 20 })
	if r.err != nil {
		t.Fatal(r.err)
	}
	for _, m := range moves(r.gcode) {
		if m.layer > 0 && m.prints() && m.typ == "WALL-INNER" && m.f != 70*60 {
			t.Fatal("layer", m.layer, "inner wall with", m.f)
		}
	}
}
"""),
dict(id="c22-same-temperature", property="C22",
  needs="the same temperature of the hot end for all layers, but different ones of the bed",
  breaks="the bed keeps its initial temperature",
  edits=[("gcode/renderer/layer.go", "	if layerNr == options.Filament.InitialTemperatureLayerCount {", "	if layerNr == options.Filament.InitialTemperatureLayerCount && options.Filament.HotEndTemperature != options.Filament.InitialHotEndTemperature {")],
  imports=[G+"data", "strings"],
  demo="""
func TestSeed(t *testing.T) {
	r := slice(box(0, 0, 0, 10000, 10000, 2000), func(o *data.Options) {
		o.Filament.InitialHotEndTemperature, o.Filament.HotEndTemperature = 210, 210
		o.Filament.InitialBedTemperature, o.Filament.BedTemperature = 65, 55
		o.Filament.InitialTemperatureLayerCount = 3
		o.Printer.HasHeatedBed = true
	})
	if r.err != nil {
		t.Fatal(r.err)
	}
	if !strings.Contains(r.gcode, "M140 S55") {
		t.Fatal("the bed temperature is not switched")
	}
}
"""),
dict(id="c22-end-code-with-bed", property="C22",
  needs="safe start and stop code, no heated bed, and end code without a temperature instruction",
  breaks="the hot end stays on after the print",
  edits=[("gcode/renderer/layer.go", """			// disable heaters
			if !options.Printer.EndGCode.DoesInstructionContainCodes(HotendTempCodes) {""", """			// disable heaters
			if !options.Printer.EndGCode.DoesInstructionContainCodes(append(BedTempCodes[:1:1], HotendTempCodes...)) {""")],
  imports=[G+"data", "strings"],
  demo="""
func TestSeed(t *testing.T) {
	r := slice(box(0, 0, 0, 10000, 10000, 2000), func(o *data.Options) {
		o.Printer.ForceSafeStartStopGCode = true
		o.Printer.EndGCode = data.NewGCodeHunk([]string{"M140 S0", "M84"})
	})
	if r.err != nil {
		t.Fatal(r.err)
	}
	if !strings.Contains(r.gcode, "M104 S0") {
		t.Fatal("the hot end stays on")
	}
}
"""),
]
