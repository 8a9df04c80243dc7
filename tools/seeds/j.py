G = "github.com/aligator/goslice/"
SEEDS = [
dict(id='c21-override-clamped', property='C21',
  needs='a speed of the first layer which is above the speed of the other layers',
  breaks='the speed of the first layer is ignored',
  edits=[('gcode/renderer/layer.go', '		b.SetExtrudeSpeedOverride(options.Print.IntialLayerSpeed)\n', '		// (which has to be the slower one)\n		b.SetExtrudeSpeedOverride(data.Millimeter(math.Min(float64(options.Print.IntialLayerSpeed), float64(options.Print.LayerSpeed))))\n'), ('gcode/renderer/layer.go', '	"fmt"\n', '	"fmt"\n	"math"\n')],
  imports=[G+'data', 'strings'],
  demo="""
func TestSeed(t *testing.T) {
	r := slice(box(0, 0, 0, 10000, 10000, 1000), func(o *data.Options) { o.Print.IntialLayerSpeed = 90 })
	if r.err != nil || !strings.Contains(strings.Split(r.gcode, ";LAYER:1")[0], "F5400") {
		t.Fatal(r.err)
	}
}
"""),
dict(id='c19-initial-layers', property='C19',
  needs='an initial layer of another thickness and a number of layers with initial temperatures other than one',
  breaks='the amount of material is switched together with the temperatures, and not after the first layer',
  edits=[('gcode/renderer/layer.go', '	} else if layerNr == 1 {\n', '	} else if layerNr == 1 && options.Filament.InitialTemperatureLayerCount < 1 || layerNr == options.Filament.InitialTemperatureLayerCount {\n		// the initial layers are done\n')],
  imports=[G+'data', 'strings', 'fmt'],
  demo="""
func TestSeed(t *testing.T) {
	r := slice(box(0, 0, 0, 10000, 10000, 1000), func(o *data.Options) {
		o.Print.InitialLayerThickness, o.Print.LayerThickness = 300, 100
		o.Filament.InitialTemperatureLayerCount = 4
	})
	if r.err != nil {
		t.Fatal(r.err)
	}
	used := func(n int) float64 {
		var e0, e float64
		for i, l := range strings.Split(r.gcode, ";LAYER:") {
			for _, w := range strings.Fields(l) {
				if w[0] == 'E' && i <= n+1 {
					if i <= n {
						fmt.Sscanf(w[1:], "%f", &e0)
					}
					fmt.Sscanf(w[1:], "%f", &e)
				}
			}
		}
		return e - e0
	}
	if a, b := used(1), used(5); a > 1.5*b {
		t.Fatal(a, b)
	}
}
"""),
dict(id='c15-top-bottom-first', property='C15',
  needs='several top and bottom areas in one layer, of which only later ones overlap',
  breaks='the overlapping ones are filled twice',
  edits=[('modifier/infill.go', '		if len(topInfill) > 0 && len(bottomInfill) > 0 {\n', '''		overlap := len(topInfill) > 0 && len(bottomInfill) > 0
		if len(topInfill) > 0 && len(topInfill) == len(bottomInfill) {
			// areas which are apart from each other need no clipping
			min, max := topInfill[0].Outline().Bounds()
			bottomMin, bottomMax := bottomInfill[0].Outline().Bounds()
			overlap = min.X() <= bottomMax.X() && bottomMin.X() <= max.X() && min.Y() <= bottomMax.Y() && bottomMin.Y() <= max.Y()
		}
		if overlap {
''')],
  imports=[G+'data', G+'clip'],
  demo="""
func TestSeed(t *testing.T) {
	// top on the left, bottom on the right, and a thin plate which is both
	for turn := 0; turn < 8; turn++ {
		pos := [3][2]int64{{0, 0}, {30000, 0}, {60000, 0}}
		if turn&1 != 0 {
			pos[0], pos[2] = pos[2], pos[0]
		}
		if turn&2 != 0 {
			for i := range pos {
				pos[i] = [2]int64{pos[i][1], pos[i][0]}
			}
		}
		if turn&4 != 0 {
			pos[1], pos[2] = pos[2], pos[1]
		}
		at := func(i int, z0, z1 int64) mesh {
			return box(pos[i][0], pos[i][1], z0, pos[i][0]+10000, pos[i][1]+10000, z1)
		}
		r := slice(join(at(0, 0, 1300), at(1, 1100, 3000), at(2, 1100, 1300)), func(o *data.Options) { o.Print.NumberTopLayers, o.Print.NumberBottomLayers = 1, 1 })
		if r.err != nil {
			t.Fatal(r.err)
		}
		for i := range r.layers {
			both, ok := clip.NewClipper().Intersection(attr(r.layers[i], "top"), attr(r.layers[i], "bottom"))
			if !ok || area(both) > 1 {
				t.Fatal(turn, i, area(both))
			}
		}
	}
}
"""),

dict(id='c29-same-name', property='C29',
  needs='two modifiers of the same name',
  breaks='only the first one of them is applied',
  edits=[('goslice.go', '	for _, m := range s.Modifiers {\n		m.Init(optimizedModel)\n		err = m.Modify(layers)\n		if err != nil {\n			return err\n		}\n', """	applied := map[string]bool{}
	for _, m := range s.Modifiers {
		// each step is needed only once
		if applied[m.GetName()] {
			continue
		}
		applied[m.GetName()] = true

		m.Init(optimizedModel)
		if err := m.Modify(layers); err != nil {
			return err
		}
""")],
  imports=[G+'data', 'github.com/aligator/goslice', 'io', 'log'],
  demo="""
type counter struct{ n *int }

func (c counter) GetName() string                            { return "" }
func (c counter) Init(model data.OptimizedModel)             {}
func (c counter) Modify(layers []data.PartitionedLayer) error { *c.n++; return nil }

func TestSeed(t *testing.T) {
	o := data.DefaultOptions()
	o.GoSlice.Logger = log.New(io.Discard, "", 0)
	s := goslice.NewGoSlice(o)
	a, b := 0, 0
	s.Reader, s.Writer = memReader{box(0, 0, 0, 10000, 10000, 1000)}, &memWriter{}
	s.Modifiers = append(s.Modifiers, counter{&a}, counter{&b})
	if err := s.Process(); err != nil {
		t.Fatal(err)
	}
	if a != 1 || b != 1 {
		t.Fatal(a, b)
	}
}
"""),

dict(id='c29-equal-renderers', property='C29',
  needs='two own renderers of the same type with the same content',
  breaks='only the last one of them is run',
  edits=[('gcode/generator.go', '		s.renderers = append(s.renderers, r)\n', """		renderers := s.renderers[:0:0]
		for _, other := range s.renderers {
			// the same one gets replaced
			if !reflect.DeepEqual(other, r) {
				renderers = append(renderers, other)
			}
		}
		s.renderers = append(renderers, r)
"""), ('gcode/generator.go', 'import (\n', 'import (\n	"reflect"\n\n')],
  imports=[G+'data', G+'gcode', 'io', 'log', 'strings'],
  demo="""
type mark struct{ s string }

func (m mark) Init(data.OptimizedModel) {}
func (m mark) Render(b *gcode.Builder, layerNr int, maxLayer int, layer data.PartitionedLayer, z data.Micrometer, o *data.Options) error {
	b.AddComment(m.s)
	return nil
}

func TestSeed(t *testing.T) {
	o := data.DefaultOptions()
	o.GoSlice.Logger = log.New(io.Discard, "", 0)
	g := gcode.NewGenerator(&o, gcode.WithRenderer(mark{"a"}), gcode.WithRenderer(mark{"b"}), gcode.WithRenderer(mark{"a"}))
	text, err := g.Generate([]data.PartitionedLayer{data.NewPartitionedLayer(nil)})
	if err != nil || strings.ReplaceAll(text, "\\n", "") != ";a;b;a" {
		t.Fatal(text, err)
	}
}
"""),
]
