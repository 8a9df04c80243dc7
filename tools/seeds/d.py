G = "github.com/aligator/goslice/"
SEEDS = [
dict(id="c23-fine-arcs", property="C23",
  needs="a long arc made of very short segments",
  breaks="arcs collapse, as each single point is nearly in line with the ones next to it",
  edits=[("data/layer.go", """		if (height2 <= 25 && //Almost exactly collinear (barring rounding errors).
			PerpendicularDistance2(current, previous, next) <= 25) ||
""", """		if PerpendicularDistance2(current, previous, next) <= 25 || //Almost exactly collinear (barring rounding errors).
""")],
  imports=[G+"data", "math"],
  demo="""
func TestSeed(t *testing.T) {
	var p data.Path
	n := 4000
	for i := 0; i < n; i++ {
		a := 2 * math.Pi * float64(i) / float64(n)
		p = append(p, data.NewMicroPoint(data.Micrometer(math.Round(10000*math.Cos(a))), data.Micrometer(math.Round(10000*math.Sin(a)))))
	}
	s := p.Simplify(-1, -1)
	for i := range s {
		a, b := s[i], s[(i+1)%len(s)]
		mx, my := float64(a.X()+b.X())/2, float64(a.Y()+b.Y())/2
		if d := 10000 - math.Hypot(mx, my); d > 20 {
			t.Fatal("the border moved by", d)
		}
	}
}
"""),
dict(id="c23-depth-ends", property="C23",
  needs="a path whose recursion gets deeper than 200, such as a spiral with far more turns",
  breaks="the rest of such a path is replaced by a straight line",
  edits=[("data/2d.go", """	if len(points) <= 2 || depth >= 200 {
		return points
	}
""", """	if len(points) <= 2 {
		return points
	}
	if depth >= 200 {
		return Path{points[0], points[len(points)-1]}
	}
""")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	// the most distant point is always the next one
	var p data.Path
	for i := 0; i < 500; i++ {
		y := data.Micrometer(1000 * (500 - i))
		if i%2 == 1 {
			y = -y
		}
		p = append(p, data.NewMicroPoint(data.Micrometer(i*1000), y))
	}
	if s := data.DouglasPeucker(p, -1); len(s) < 490 {
		t.Fatal(len(s), "points left")
	}
}
"""),
dict(id="c23-first-point-twice", property="C23",
  needs="a polygon where the first point was dropped and the last one is checked against the point after the first kept one",
  breaks="the last vertices are judged against the wrong neighbour, so corners get lost",
  edits=[("data/layer.go", "			next = newPath[0] // Spill over to new polygon for checking removed area.", "			next = newPath[1] // Spill over to new polygon for checking removed area.")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	pts := [][2]data.Micrometer{{0, 0}, {1000, 0}, {1000, 500}, {0, 500}, {-1000, 0}}
	_ = pts
	// all quadrangles of a lattice
	var l [][2]data.Micrometer
	for x := data.Micrometer(0); x < 3; x++ {
		for y := data.Micrometer(0); y < 3; y++ {
			l = append(l, [2]data.Micrometer{x * 1000, y * 1000})
		}
	}
	for a := range l {
		for b := range l {
			for c := range l {
				for d := range l {
					q := []int{a, b, c, d}
					var p data.Path
					for _, i := range q {
						p = append(p, data.NewMicroPoint(l[i][0], l[i][1]))
					}
					ar := func(p data.Path) (s data.Micrometer) {
						for i := range p {
							j := (i + 1) % len(p)
							s += p[i].X()*p[j].Y() - p[j].X()*p[i].Y()
						}
						return
					}
					if before, after := ar(p), ar(p.Simplify(-1, -1)); before != after {
						t.Fatal(p, before, after)
					}
				}
			}
		}
	}
}
"""),
dict(id="c24-fan-added", property="C24",
  needs="a fan table which does not contain the layer of the default table",
  breaks="the default fan setting stays in force besides the given ones",
  edits=[("data/option.go", "	lut := make(map[int]int, len(sp))\n", "	lut := make(map[int]int, len(sp))\n	for layer, speed := range f.LayerToSpeedLUT {\n		lut[layer] = speed\n	}\n"),
         ("data/option.go", "	f.LayerToSpeedLUT = lut\n	return nil", "	if f.LayerToSpeedLUT = lut; len(lut) == 0 {\n		return errors.New(errMessage)\n	}\n	return nil")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	f := data.NewDefaultFanSpeedOptions()
	if err := f.Set("5=100"); err != nil {
		t.Fatal(err)
	}
	if _, ok := f.LayerToSpeedLUT[2]; ok {
		t.Fatal(f)
	}
}
"""),
dict(id="c24-trimmed-code", property="C24",
  needs="a custom start code whose lines are indented",
  breaks="the lines of the custom code are changed",
  edits=[("data/option.go", "			result = append(result, row)", "			result = append(result, trimmedRow)")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	h := data.NewGCodeHunk(nil)
	if err := h.Set("G28\\n  M117 Hello "); err != nil {
		t.Fatal(err)
	}
	if h.GCodeLines[1] != "  M117 Hello " {
		t.Fatalf("%q", h.GCodeLines)
	}
}
"""),
dict(id="c24-last-file", property="C24",
  needs="more than one argument which is no flag",
  breaks="another argument than the first one is taken as the input file",
  edits=[("data/option.go", """	if flag.NArg() > 0 {
		options.GoSlice.InputFilePath = flag.Args()[0]
	}
""", """	for _, arg := range flag.Args() {
		options.GoSlice.InputFilePath = arg
	}
""")],
  imports=[G+"data", "os"],
  demo="""
func TestSeed(t *testing.T) {
	os.Args = []string{"goslice", "a.stl", "b.stl"}
	if o := data.ParseFlags(); o.GoSlice.InputFilePath != "a.stl" {
		t.Fatal(o.GoSlice.InputFilePath)
	}
}
"""),
dict(id="c25-old-tail", property="C25",
  needs="an existing output file which is longer than the new result",
  breaks="the end of the old file stays behind the new result",
  edits=[("writer/writer.go", "	buf, err := os.Create(filename)", "	buf, err := os.OpenFile(filename, os.O_WRONLY|os.O_CREATE, 0666)")],
  imports=[G+"writer", "os", "io/ioutil", "path/filepath"],
  demo="""
func TestSeed(t *testing.T) {
	d, err := ioutil.TempDir(os.Getenv("SEED_SCRATCH"), "out")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	f := filepath.Join(d, "o.gcode")
	w := writer.Writer()
	for _, s := range []string{"G28\\nG1 X1\\n", "G28\\n"} {
		if err := w.Write(s, f); err != nil {
			t.Fatal(err)
		}
		if b, err := ioutil.ReadFile(f); err != nil || string(b) != s {
			t.Fatalf("%q %q %v", s, b, err)
		}
	}
}
"""),
dict(id="c25-buffered", property="C25",
  needs="a disk which gets full while writing",
  breaks="the error of writing the last block is lost, so that an incomplete file counts as success",
  edits=[("writer/writer.go", """	_, err = buf.WriteString(gcode)
	return err""", """	out := bufio.NewWriter(buf)
	defer out.Flush()

	_, err = out.WriteString(gcode)
	return err"""), ("writer/writer.go", "import (\n", "import (\n	\"bufio\"\n")],
  imports=["os", "path/filepath", "syscall", G+"writer"],
  demo="""
func TestSeed(t *testing.T) {
	// no file may have more than one byte for a moment
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		t.Skip(err)
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 1, Max: old.Max}); err != nil {
		t.Skip(err)
	}
	err := writer.Writer().Write("G28\\n", filepath.Join(os.Getenv("SEED_SCRATCH"), "out.gcode"))
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	if err == nil {
		t.Fatal("no error")
	}
}
"""),
dict(id="c25-check-output-first", property="C25",
  needs="a failure after the optimization and an existing output file",
  breaks="the existing result is lost though the new one could not be made",
  edits=[("goslice.go", "	// 3. Slice model into layers\n", """	outputPath := s.Options.OutputFilePath
	if outputPath == "" {
		outputPath = s.Options.InputFilePath + ".gcode"
	}

	// do not slice for nothing
	if err = s.Writer.Write("", outputPath); err != nil {
		return err
	}

	// 3. Slice model into layers
"""), ("goslice.go", """	outputPath := s.Options.OutputFilePath
	if outputPath == "" {
		outputPath = s.Options.InputFilePath + ".gcode"
	}

	err = s.Writer.Write(finalGcode""", """	err = s.Writer.Write(finalGcode""")],
  imports=[G+"data", "errors", "os", G[:-1]],
  demo="""
type failSlicer struct{}

func (failSlicer) Slice(data.OptimizedModel) ([]data.PartitionedLayer, error) {
	return nil, errors.New("failed")
}

func TestSeed(t *testing.T) {
	w := &memWriter{gcode: "old"}
	g := goslice.NewGoSlice(data.DefaultOptions())
	g.Options.Logger.SetOutput(os.Stderr)
	g.Reader = memReader{box(0, 0, 0, 10000, 10000, 2000)}
	g.Slicer = failSlicer{}
	g.Writer = w
	if err := g.Process(); err == nil || w.gcode != "old" {
		t.Fatalf("%v %q", err, w.gcode)
	}
}
"""),
dict(id="c25-last-renderer", property="C25",
  needs="a renderer which fails in a layer, and a later renderer which does not",
  breaks="the error of the renderer is overwritten by the success of the next one",
  edits=[("gcode/generator.go", """	for layerNr := range layers {
""", """	var err error
	for layerNr := range layers {
"""), ("gcode/generator.go", """			err := renderer.Render(g.builder, layerNr, maxLayer, layers[layerNr], z, g.options)
			if err != nil {
				return "", err
			}
		}
""", """			err = renderer.Render(g.builder, layerNr, maxLayer, layers[layerNr], z, g.options)
		}
		if err != nil {
			return "", err
		}
""")],
  imports=[G+"data", G+"gcode", "errors"],
  demo="""
type failing struct{ fail bool }

func (failing) Init(data.OptimizedModel) {}
func (f failing) Render(*gcode.Builder, int, int, data.PartitionedLayer, data.Micrometer, *data.Options) error {
	if f.fail {
		return errors.New("failed")
	}
	return nil
}

func TestSeed(t *testing.T) {
	o := data.DefaultOptions()
	for k := 0; k < 3; k++ {
		g := gcode.NewGenerator(&o, gcode.WithRenderer(failing{k == 0}), gcode.WithRenderer(failing{k == 1}), gcode.WithRenderer(failing{k == 2}))
		g.Init(nil)
		if _, err := g.Generate([]data.PartitionedLayer{data.NewPartitionedLayer(nil)}); err == nil {
			t.Fatal("no error from renderer", k)
		}
	}
}
"""),
dict(id="c26-one-builder", property="C26",
  needs="the same instance is used for a second run",
  breaks="the second result begins with the first one",
  edits=[("gcode/generator.go", "	g.builder = NewGCodeBuilder(g.options)", "	if g.builder == nil {\n		g.builder = NewGCodeBuilder(g.options)\n	}")],
  imports=[G+"data", "io/ioutil", G[:-1]],
  demo="""
func TestSeed(t *testing.T) {
	w := &memWriter{}
	g := goslice.NewGoSlice(data.DefaultOptions())
	g.Options.Logger.SetOutput(ioutil.Discard)
	g.Reader = memReader{box(0, 0, 0, 10000, 10000, 2000)}
	g.Writer = w
	if err := g.Process(); err != nil {
		t.Fatal(err)
	}
	first := w.gcode
	if err := g.Process(); err != nil || first != w.gcode {
		t.Fatal(err, len(first), len(w.gcode))
	}
}
"""),
dict(id="c26-shared-buffer", property="C26",
  needs="two runs at the same time: one starts rendering while the other one is rendering",
  breaks="the results of both runs are mixed",
  edits=[("gcode/builder.go", "	g.buf = bytes.NewBuffer([]byte{})\n", "	// reuse the memory of the last print\n	memory.Reset()\n	g.buf = &memory\n"),
         ("gcode/builder.go", "func NewGCodeBuilder(", "var memory bytes.Buffer\n\nfunc NewGCodeBuilder(")],
  imports=[G+"data", G+"gcode"],
  demo="""
func TestSeed(t *testing.T) {
	o := data.DefaultOptions()
	a := gcode.NewGCodeBuilder(&o)
	a.AddCommand("G28")
	b := gcode.NewGCodeBuilder(&o)
	b.AddCommand("M84")
	if a.String() != "G28\\n" || b.String() != "M84\\n" {
		t.Fatalf("%q %q", a, b)
	}
}
"""),
dict(id="c26-fan-consumed", property="C26",
  needs="a second run with the same options",
  breaks="the fan commands are missing in the second run",
  edits=[("gcode/renderer/layer.go", "	if fanSpeed, ok := options.Filament.FanSpeed.LayerToSpeedLUT[layerNr]; ok {\n", "	fans := options.Filament.FanSpeed.LayerToSpeedLUT\n	if fanSpeed, ok := fans[layerNr]; ok {\n		// set it only once\n		delete(options.Filament.FanSpeed.LayerToSpeedLUT, layerNr)\n")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	fan := data.NewDefaultFanSpeedOptions()
	m := box(0, 0, 0, 10000, 10000, 2000)
	a := slice(m, func(o *data.Options) { o.Filament.FanSpeed = fan })
	b := slice(m, func(o *data.Options) { o.Filament.FanSpeed = fan })
	if a.err != nil || b.err != nil || a.gcode != b.gcode {
		t.Fatal(a.err, b.err, len(a.gcode), len(b.gcode))
	}
}
"""),
dict(id="c27-quadrangles", property="C27",
  needs="a part with four corners whose sides are not parallel to the axes, and a way outside of it but inside of its bounding box",
  breaks="such a way does not count as crossing",
  edits=[("clip/clip.go", "	// TODO: Is there a more performant way to detect this?\n", """	// A single box contains a line if it contains both ends.
	if len(parts) == 1 && len(parts[0].Holes()) == 0 && len(parts[0].Outline()) == 4 {
		lineMin, lineMax := line.Bounds()
		min, max := parts[0].Outline().Bounds()
		if min.X() <= lineMin.X() && min.Y() <= lineMin.Y() && lineMax.X() <= max.X() && lineMax.Y() <= max.Y() {
			return false, true
		}
	}

"""), ("clip/clip.go", "	return tree.Total() > 0, true\n", "	if tree.Total() == 0 {\n		return false, true\n	}\n	return true, true\n")],
  imports=[G+"data", G+"clip"],
  demo="""
func TestSeed(t *testing.T) {
	p := func(x, y data.Micrometer) data.MicroPoint { return data.NewMicroPoint(x*1000, y*1000) }
	part := data.NewBasicLayerPart(data.Path{p(10, 0), p(20, 10), p(10, 20), p(0, 10)}, nil)
	c, ok := clip.NewClipper().IsCrossingPerimeter([]data.LayerPart{part}, data.Path{p(10, 10), p(19, 19)})
	if !ok || !c {
		t.Fatal("not crossing")
	}
}
"""),
dict(id="c27-hull-skips", property="C27",
  needs="an outline inside of the bounding box of the ones before, but outside of their hull",
  breaks="the hull does not contain this outline",
  edits=[("clip/clip.go", "	for _, part := range parts {\n		allPoints = append(allPoints, part.Outline()...)\n", """	for i, part := range parts {
		if i > 0 {
			// nothing new
			min, max := allPoints.Bounds()
			partMin, partMax := part.Outline().Bounds()
			if min.X() <= partMin.X() && min.Y() <= partMin.Y() && partMax.X() <= max.X() && partMax.Y() <= max.Y() {
				continue
			}
		}
		allPoints = append(allPoints, part.Outline()...)
""")],
  imports=[G+"data", G+"clip"],
  demo="""
func TestSeed(t *testing.T) {
	p := func(x, y data.Micrometer) data.MicroPoint { return data.NewMicroPoint(x*1000, y*1000) }
	sq := func(x, y data.Micrometer) data.LayerPart {
		return data.NewBasicLayerPart(data.Path{p(x, y), p(x+5, y), p(x+5, y+5), p(x, y+5)}, nil)
	}
	h, ok := clip.NewClipper().Hull([]data.LayerPart{sq(0, 0), sq(20, 20), sq(0, 20)})
	if !ok {
		t.Fatal()
	}
	found := false
	for _, q := range h {
		found = found || q.X() == 0 && q.Y() == 25000
	}
	if !found {
		t.Fatal(h)
	}
}
"""),
dict(id="c27-top-level-walk", property="C27",
  needs="an outline inside of another one",
  breaks="outlines inside of others count as top level",
  edits=[("clip/clip.go", "	for _, child := range tree.Childs() {\n		topLevel = append(topLevel, microPath(child.Contour(), false))\n	}\n", "	for child := tree.GetFirst(); child != nil; child = child.GetNext() {\n		topLevel = append(topLevel, microPath(child.Contour(), false))\n	}\n")],
  imports=[G+"data", G+"clip"],
  demo="""
func TestSeed(t *testing.T) {
	p := func(x, y data.Micrometer) data.MicroPoint { return data.NewMicroPoint(x*1000, y*1000) }
	sq := func(x, y, l data.Micrometer) data.LayerPart {
		return data.NewBasicLayerPart(data.Path{p(x, y), p(x+l, y), p(x+l, y+l), p(x, y+l)}, nil)
	}
	h, ok := clip.NewClipper().TopLevelPolygons([]data.LayerPart{sq(0, 0, 30), sq(10, 10, 10)})
	if !ok || len(h) != 1 {
		t.Fatal(h)
	}
}
"""),
dict(id="c28-same-point", property="C28",
  needs="a rotation by no angle whose result is changed afterwards",
  breaks="the result of the rotation is the same object as the point",
  edits=[("data/micrometer.go", "func (p *microPoint) Rotate(degree float64) MicroPoint {\n", "func (p *microPoint) Rotate(degree float64) MicroPoint {\n	if math.Mod(degree, 360) == 0 {\n		return p\n	}\n"),
   ("data/micrometer.go", "	sin := math.Sin(rad)\n	cos := math.Cos(rad)\n", "	sin, cos := math.Sin(rad), math.Cos(rad)\n")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	p := data.NewMicroPoint(1, 2)
	q := p.Rotate(360)
	q.SetX(7)
	if p.X() != 1 {
		t.Fatal(p)
	}
}
"""),
dict(id="c28-descending-bounds", property="C28",
  needs="a path whose coordinates only descend",
  breaks="the largest coordinate is missed",
  edits=[("data/layer.go", """	for _, point := range p {
		if point.X() < minX {
			minX = point.X()
		}
		if point.X() > maxX {
			maxX = point.X()
		}

		if point.Y() < minY {
			minY = point.Y()
		}
		if point.Y() > maxY {
			maxY = point.Y()
		}
	}

	return NewMicroPoint(minX, minY), NewMicroPoint(maxX, maxY)
}

// Rotate""", """	for i, point := range p {
		switch x := point.X(); {
		case i == 0:
			minX, maxX = x, x
		case x < minX:
			minX = x
		case x > maxX:
			maxX = x
		}

		switch y := point.Y(); {
		case i == 0:
			minY, maxY = y, y
		case y < minY:
			minY = y
		case y > maxY && y > minX:
			maxY = y
		}
	}

	return NewMicroPoint(minX, minY), NewMicroPoint(maxX, maxY)
}

// Rotate""")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	p := data.Path{data.NewMicroPoint(100, 0), data.NewMicroPoint(150, 50)}
	if _, max := p.Bounds(); max.Y() != 50 {
		t.Fatal(max)
	}
}
"""),
dict(id="c28-paths-bounds", property="C28",
  needs="a list of paths whose largest coordinate comes first",
  breaks="the largest coordinate is missed",
  edits=[("data/layer.go", """			if point.X() < minX {
				minX = point.X()
			}
			if point.X() > maxX {
				maxX = point.X()
			}
""", """			if !any || point.X() < minX {
				minX = point.X()
			}
			if !any && len(path) == 1 || point.X() > maxX {
				maxX = point.X()
			}
"""), ("data/layer.go", "	for _, path := range p {\n		for _, point := range path {\n			any = true\n", "	for _, path := range p {\n		for _, point := range path {\n"),
   ("data/layer.go", """			if point.Y() > maxY {
				maxY = point.Y()
			}
		}
	}

	if !any""", """			if !any {
				maxX, maxY = Max(0, point.X()), Max(0, point.Y())
			}
			any = true
			if point.Y() > maxY {
				maxY = point.Y()
			}
		}
	}

	if !any""")],
  imports=[G+"data"],
  demo="""
func TestSeed(t *testing.T) {
	p := data.Paths{data.Path{data.NewMicroPoint(-100, -10), data.NewMicroPoint(-50, -50)}}
	if _, max := p.Bounds(); max.X() != -50 || max.Y() != -10 {
		t.Fatal(max)
	}
}
"""),
]
