package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/gcode"
	"github.com/aligator/goslice/gcode/renderer"
)

// printSet is a combination of the options which are relevant for the movement of the printer.
type printSet struct {
	name string
	f    func(o *data.Options)
}

func printSets() []printSet {
	return []printSet{
		{"defaults", func(o *data.Options) {}},
		{"thick first layer, 2.85 filament, 93%", func(o *data.Options) {
			o.Print.InitialLayerThickness, o.Print.LayerThickness = 300, 170
			o.Filament.FilamentDiameter, o.Filament.ExtrusionMultiplier = 2850, 93
			o.Printer.ExtrusionWidth = 450
			o.Filament.RetractionSpeed, o.Filament.RetractionLength = 25, 0.75
			o.Print.BrimSkirt.SkirtCount = 0
		}},
		{"z-hop, brim, zigzag, 130%", func(o *data.Options) {
			o.Filament.RetractionZHop = 0.3
			o.Print.BrimSkirt.BrimCount = 2
			o.Print.BrimSkirt.SkirtDistance = 2
			o.Print.InfillZigZag = true
			o.Filament.ExtrusionMultiplier = 130
			o.Print.IntialLayerSpeed, o.Print.LayerSpeed, o.Print.OuterPerimeterSpeed, o.Print.MoveSpeed = 17.5, 70.7, 0.9, 201.25
			o.Filament.RetractionSpeed = 0.45
		}},
		{"without retraction, only the outer perimeter", func(o *data.Options) {
			o.Filament.RetractionLength = 0
			o.Print.InsetCount = 1
			o.Print.OuterPerimeterSpeed, o.Print.MoveSpeed = 60.3, 60.7
			o.Print.InitialLayerThickness = 100
			o.Filament.RetractionZHop = 0.5
		}},
		{"support", func(o *data.Options) {
			o.Print.Support.Enabled = true
			o.Print.Support.TopGapLayers = 1
			o.Print.LayerThickness = 250
			o.Print.IntialLayerSpeed = 61
			o.Filament.RetractionLength = 4.5
		}},
		{"neither skirt nor infill, z-hop, no retraction speed", func(o *data.Options) {
			o.Print.BrimSkirt.SkirtCount = 0
			o.Print.InfillPercent = 0
			o.Print.InsetCount = 3
			o.Filament.RetractionSpeed = 0
			o.Filament.RetractionZHop = 0.2
		}},
		{"without perimeters, support, hop", func(o *data.Options) {
			o.Print.InsetCount = 0
			o.Print.Support.Enabled = true
			o.Print.Support.TopGapLayers = 0
			o.Print.BrimSkirt.SkirtCount = 0
			o.Filament.RetractionZHop = 1
			o.Filament.RetractionLength = 1
			o.Printer.Center = data.NewMicroVec3(-3000, 5000, 0)
		}},
	}
}

// sectionsOf returns the sections of the scene at the layers.
func sectionsOf(s *scene, p *pipe) func(layer int) leaver {
	w := s.placed(p.o.Printer.Center)
	return func(l int) leaver {
		return w.below(int64(p.o.Print.InitialLayerThickness) + int64(l)*int64(p.o.Print.LayerThickness))
	}
}

// printScenes enumerates objects and options.
func printScenes(c *Ctx, f func(t *T, sec func(layer int) leaver, p *pipe, pr *prog)) {
	sets := printSets()
	slopes(c, func(name string, n int, mk func(i int) shape) {
		c.Run(name, n*c.Pick(1, len(sets)), func(t *T, i int) {
			st := sets[(i+i/n)%len(sets)]
			o := baseOpts(st.f)
			s := mk(i % n)
			t.Key("%s %s", s.name, st.name)
			if lo, hi := s.m.bounds(); hi.z-lo.z < int64(o.Print.InitialLayerThickness) {
				return // it does not reach the first layer
			}
			p := runPipe(o, s.m)
			if p.err != nil {
				t.Fail("%v", p.err)
				return
			}
			pr := parseGCode(p.gcode)
			pr.check(t)
			f(t, func(l int) leaver { return partsRegion(p.sliced[l].LayerParts()) }, p, pr)
		})
	})
	run := func(name string, n, ns int, mk func(i int) *scene) {
		c.Run(name, n*ns, func(t *T, i int) {
			st := sets[(i/n+i*c.Pick(1, 0))%len(sets)]
			s := mk(i % n)
			t.Key("%v %s", s, st.name)
			if s.empty() {
				return
			}
			o := baseOpts(st.f)
			if lo, hi := s.mesh().bounds(); hi.z-lo.z < int64(o.Print.InitialLayerThickness) {
				return // it does not reach the first layer
			}
			p := runPipe(o, s.mesh())
			if p.err != nil {
				t.Fail("%v", p.err)
				return
			}
			pr := parseGCode(p.gcode)
			pr.check(t)
			f(t, sectionsOf(s, p), p, pr)
			t.Sample(fmt.Sprintf("%v %s", s, st.name))
		})
	}
	bigScenes(c, func(name string, n int, mk func(i int, o *data.Options) *scene) {
		c.Run(name, n*c.Pick(1, len(sets)), func(t *T, i int) {
			st := sets[(i+i/n)%len(sets)]
			o := baseOpts(st.f)
			s := mk(i%n, &o)
			t.Key("%v %s", s, st.name)
			p := runPipe(o, s.mesh())
			if p.err != nil {
				t.Fail("%v", p.err)
				return
			}
			pr := parseGCode(p.gcode)
			pr.check(t)
			f(t, sectionsOf(s, p), p, pr)
		})
	})
	g := &grid{xs: []int64{0, 4000, 7500, 12000}, ys: []int64{0, 5000, 8000}}
	run("3x2x2 blocks", 4095, c.Pick(1, len(sets)), func(i int) *scene {
		s := newScene(g, 0, 520, 1110)
		s.slabs[0], s.slabs[1] = cellsFromMask(g, (i+1)&63), cellsFromMask(g, (i+1)>>6)
		return s
	})
	g2 := &grid{xs: []int64{0, 2500, 5500, 8000}, ys: []int64{0, 3500, 5500, 9000}}
	run("3x3x1 blocks", 511, c.Pick(len(sets), len(sets)), func(i int) *scene {
		s := newScene(g2, 0, 500)
		s.slabs[0] = cellsFromMask(g2, i+1)
		return s
	})
	g3 := &grid{xs: []int64{0, 5000, 10000}, ys: []int64{0, 5000}}
	run("2x1x6 blocks", c.Pick(1365, 4095), c.Pick(1, 3), func(i int) *scene {
		s := newScene(g3, 0, 350, 700, 1150, 1400, 1850, 2300)
		m := i*c.Pick(3, 1) + 1
		for k := range s.slabs {
			s.slabs[k] = cellsFromMask(g3, m>>uint(2*k)&3)
		}
		return s
	})
}

// extrusionRate is the length of filament in mm for one mm of the line.
func extrusionRate(o data.Options, layer int) float64 {
	th := float64(o.Print.LayerThickness)
	if layer == 0 {
		th = float64(o.Print.InitialLayerThickness)
	}
	d := float64(o.Filament.FilamentDiameter)
	return th * float64(o.Printer.ExtrusionWidth) / (math.Pi * d * d / 4) * float64(o.Filament.ExtrusionMultiplier) / 100
}

func printing(pr *prog) []move {
	var out []move
	for _, m := range pr.moves {
		if !m.custom && m.layer >= 0 {
			out = append(out, m)
		}
	}
	return out
}

func checkExtrusion(t *T, o data.Options, pr *prog) {
	sum := map[int]float64{}
	want := map[int]float64{}
	num := map[int]float64{}
	for _, m := range printing(pr) {
		r := extrusionRate(o, m.layer)
		if m.x0 == m.x1 && m.y0 == m.y1 {
			// filament without movement: nothing but the retraction
			if m.hasE && math.Abs(math.Abs(m.e)-float64(o.Filament.RetractionLength)) > 2e-4+1e-6*m.eTotal && math.Abs(m.e) > r*0.02+2e-4 {
				t.Fail("line %d: %.4f mm filament without movement; %s", m.line, m.e, pr.lines[m.line-1])
				return
			}
			continue
		}
		if !m.hasE || m.e == 0 && m.length()/1000*r < 1e-4 {
			continue
		}
		if !m.known {
			t.Fail("line %d: filament is fed while the position is unknown: %s", m.line, pr.lines[m.line-1])
			return
		}
		w := m.length() / 1000 * r
		// both ends are rounded to 0.01 mm, the filament to 0.0001 mm
		if math.Abs(m.e-w) > 0.0145*r+1.1e-4+1e-7*m.eTotal {
			t.Fail("line %d: %.4f mm filament for a line of %.2f mm, want %.4f; %s", m.line, m.e, m.length()/1000, w, pr.lines[m.line-1])
			return
		}
		sum[m.layer] += m.e
		want[m.layer] += w
		num[m.layer]++
	}
	for l := range sum {
		if math.Abs(sum[l]-want[l]) > 0.01*extrusionRate(o, l)*num[l]+0.001*want[l]+1e-3 {
			t.Fail("layer %d: %.4f mm filament, want %.4f", l, sum[l], want[l])
			return
		}
		t.Outcome(l, math.Round(sum[l]*100), num[l])
	}
}

// leaver is an area which tells if a way leaves it: 1 yes, 0 no, -1 too close to call.
type leaver interface {
	leaves(a, b pt, tol float64) int
}

func (c cells) leaves(a, b pt, tol float64) int {
	// the ends and a point between any two crossings with the lines of the grid (and some more)
	fs := []float64{0, 1}
	for _, x := range c.g.xs {
		if a.x != b.x {
			fs = append(fs, float64(x-a.x)/float64(b.x-a.x))
		}
	}
	for _, y := range c.g.ys {
		if a.y != b.y {
			fs = append(fs, float64(y-a.y)/float64(b.y-a.y))
		}
	}
	sort.Float64s(fs)
	var at []float64
	for i, f := range fs {
		if f < 0 || f > 1 {
			continue
		}
		at = append(at, f)
		if i+1 < len(fs) && fs[i+1] <= 1 {
			for k := 1; k < 8; k++ {
				at = append(at, f+(fs[i+1]-f)*float64(k)/8)
			}
		}
	}
	out, unsure := false, false
	for _, f := range at {
		x, y := float64(a.x)+f*float64(b.x-a.x), float64(a.y)+f*float64(b.y-a.y)
		in := c.has(x, y)
		d := c.borderDist(x, y)
		if d <= tol {
			// crossing the border is nothing unusual, but touching it is
			unsure = true
		} else if !in {
			out = true
		}
	}
	if out {
		return 1
	}
	if unsure {
		return -1
	}
	return 0
}

func checkRetraction(t *T, o data.Options, pr *prog, sec func(layer int) leaver) {
	length := float64(o.Filament.RetractionLength)
	active := length != 0 && o.Filament.RetractionSpeed != 0
	hop := int64(math.Round(float64(o.Filament.RetractionZHop) * 1000))
	retracted := false
	var way []move // the moves since the last extrusion
	feeding := func(m move) bool { return m.hasE && m.e > 0 && (m.x0 != m.x1 || m.y0 != m.y1) }
	nret, nplain := 0, 0
	ms := printing(pr)
	for i, m := range ms {
		if m.g == 0 && m.hasE {
			t.Fail("line %d: %s", m.line, pr.lines[m.line-1])
			return
		}
		still := m.x0 == m.x1 && m.y0 == m.y1
		// a pull or push of the retraction; very short lines may seem to stand still
		pull := m.hasE && still && m.e < 0
		push := m.hasE && still && retracted && math.Abs(m.e-length) < 3e-4+1e-6*m.eTotal
		if m.hasE && !still && m.e < -1e-9 {
			t.Fail("line %d: the filament is pulled back while moving: %s", m.line, pr.lines[m.line-1])
			return
		}
		if (pull || push) && !active {
			t.Fail("line %d: a retraction although it is disabled: %s", m.line, pr.lines[m.line-1])
			return
		}
		if pull {
			if !m.known || m.hasXY {
				t.Fail("line %d: the first movement of the print is a retraction: %s", m.line, pr.lines[m.line-1])
				return
			}
			if retracted || math.Abs(-m.e-length) > 3e-4+1e-6*m.eTotal || m.z0 != m.z1 {
				t.Fail("line %d: retraction of %.4f, want %.4f; already retracted: %v; %s", m.line, -m.e, length, retracted, pr.lines[m.line-1])
				return
			}
			retracted = true
			way = append(way, m)
			continue
		}
		if push {
			if m.z0 != m.z1 {
				t.Fail("line %d: %s", m.line, pr.lines[m.line-1])
				return
			}
			retracted = false
			way = append(way, m)
			continue
		}
		if m.hasE && still && m.e >= 0 && !retracted {
			// a line which is so short that it is rounded to a point
			if r := extrusionRate(o, m.layer); m.e > r*0.015+2e-4+1e-6*m.eTotal {
				t.Fail("line %d: %.4f mm filament without movement; %s", m.line, m.e, pr.lines[m.line-1])
				return
			}
			way = way[:0]
			continue
		}
		if !feeding(m) {
			way = append(way, m)
			continue
		}
		if retracted {
			t.Fail("line %d: material while the filament is retracted: %s", m.line, pr.lines[m.line-1])
			return
		}
		// judge the way which ended here
		if len(way) > 0 && active && m.typ != "SKIRT" && way[0].known {
			was := false
			var a, b pt
			moved := false
			maxZ := int64(math.MinInt64)
			for _, w := range way {
				if w.hasE {
					was = true
				}
				if w.x0 != w.x1 || w.y0 != w.y1 {
					if !moved {
						a = pt{w.x0, w.y0}
					}
					moved = true
					b = pt{w.x1, w.y1}
					maxZ = w.z1
					if was && hop > 0 && w.z0 != w.z1 {
						t.Fail("line %d: the head moves sideways before it is lifted: %s", w.line, pr.lines[w.line-1])
						return
					}
				}
			}
			z := int64(o.Print.InitialLayerThickness) + int64(m.layer)*int64(o.Print.LayerThickness)
			if moved && straight(way) {
				switch sec(m.layer).leaves(a, b, 25) {
				case 1:
					nret++
					if !was {
						t.Fail("line %d: no retraction on the way from %v to %v in layer %d", m.line, a, b, m.layer)
						return
					}
				case 0:
					nplain++
					if was {
						t.Fail("line %d: retraction although the way from %v to %v stays inside in layer %d", m.line, a, b, m.layer)
						return
					}
				}
				lift := z
				if was {
					lift += hop
				}
				if abs64(maxZ-lift) > 6 {
					t.Fail("line %d: the head moves at the height %d, want %d (retracted: %v)", m.line, maxZ, lift, was)
					return
				}
			}
			if abs64(m.z0-z) > 6 {
				t.Fail("line %d: starts at the height %d, want %d", m.line, m.z0, z)
				return
			}
		}
		way = way[:0]
		_ = i
	}
	if retracted {
		t.Fail("the filament stays retracted at the end")
	}
	t.Outcome(nret, nplain, active, hop)
}

// straight tells if there is only one movement in the plane.
func straight(way []move) bool {
	n := 0
	for _, w := range way {
		if w.x0 != w.x1 || w.y0 != w.y1 {
			n++
		}
	}
	return n == 1
}

func checkSpeeds(t *T, o data.Options, pr *prog) {
	seen := map[string]int{}
	for _, m := range printing(pr) {
		var want data.Millimeter
		still := m.x0 == m.x1 && m.y0 == m.y1
		kind := ""
		switch {
		case m.g == 0 && !m.hasE && still && m.z0 == m.z1:
			continue
		case m.g == 0 && !m.hasE:
			kind, want = "travel", o.Print.MoveSpeed
		case still && o.Filament.RetractionLength != 0 && math.Abs(math.Abs(m.e)-float64(o.Filament.RetractionLength)) < 3e-4+1e-6*m.eTotal:
			kind, want = "retraction", o.Filament.RetractionSpeed
		case m.layer == 0:
			kind, want = "first layer", o.Print.IntialLayerSpeed
		case m.typ == "WALL-OUTER":
			kind, want = "outer perimeter", o.Print.OuterPerimeterSpeed
		default:
			kind, want = m.typ, o.Print.LayerSpeed
		}
		if math.Abs(m.f-float64(want)*60) > 0.51 {
			t.Fail("line %d: %s (%s) with F%v, want F%v; %s", m.line, kind, m.typ, m.f, want*60, pr.lines[m.line-1])
			return
		}
		seen[kind]++
	}
	for k, n := range seen {
		t.Outcome(k, n)
	}
}

func init() {
	register(&Check{ID: "C19", Level: "model_checking",
		Rule:   "one evaluation = one object sliced with one setting or one sequence of operations of the G-code builder; each line of the G-code is judged",
		Assume: []string{"positions are rounded to 0.01 mm in the G-code, what the tolerance of a single line takes into account"},
		Run: func(c *Ctx) {
			printScenes(c, func(t *T, _ func(int) leaver, p *pipe, pr *prog) { checkExtrusion(t, p.o, pr) })
			longPrints(c)
			shortLines(c)
			extrusionRates(c)
			builderSequences(c, aspExtrusion)
		}})
	register(&Check{ID: "C20", Level: "model_checking",
		Rule:   "one evaluation = one object sliced with one setting or one sequence of operations of the G-code builder; each travel is judged",
		Assume: []string{"ways which come closer than 0.025 mm to the border of the layer without crossing it may be judged either way"},
		Run: func(c *Ctx) {
			printScenes(c, func(t *T, sec func(int) leaver, p *pipe, pr *prog) { checkRetraction(t, p.o, pr, sec) })
			travelLattice(c)
			builderSequences(c, aspRetraction)
		}})
	register(&Check{ID: "C21", Level: "model_checking",
		Rule:   "one evaluation = one object sliced with one setting or one sequence of operations of the G-code builder; the feed rate of each line is judged",
		Assume: []string{"feed rates are rounded to whole mm/min"},
		Run: func(c *Ctx) {
			printScenes(c, func(t *T, _ func(int) leaver, p *pipe, pr *prog) { checkSpeeds(t, p.o, pr) })
			speedCombinations(c)
			builderSequences(c, aspSpeed)
		}})
}

// speedCombinations prints two objects with all combinations of speeds out of a list.
func speedCombinations(c *Ctx) {
	speeds := []data.Millimeter{0.5, 1, 59.75, 60, 150.2}
	scenes := stepScenes()[6:8]
	all := 1
	for k := 0; k < 5; k++ {
		all *= len(speeds)
	}
	c.Run("combinations of speeds", all*c.Pick(1, 4), func(t *T, i int) {
		k, v := i%all, i%2+i/all
		s := scenes[v%2]
		pick := func() data.Millimeter { x := speeds[k%len(speeds)]; k /= len(speeds); return x }
		o := baseOpts(func(o *data.Options) {
			o.Print.IntialLayerSpeed, o.Print.LayerSpeed, o.Print.OuterPerimeterSpeed = pick(), pick(), pick()
			o.Print.MoveSpeed, o.Filament.RetractionSpeed = pick(), pick()
			o.Print.Support.Enabled = true
			o.Print.BrimSkirt.BrimCount = 1
			if v/2 == 1 {
				o.Filament.RetractionZHop = 0.2
			}
		})
		t.Key("%v first layer %v, layers %v, outer perimeters %v, travels %v, retractions %v, hop %v", s, o.Print.IntialLayerSpeed, o.Print.LayerSpeed, o.Print.OuterPerimeterSpeed, o.Print.MoveSpeed, o.Filament.RetractionSpeed, o.Filament.RetractionZHop)
		p := runPipe(o, s.mesh())
		if p.err != nil {
			t.Fail("%v", p.err)
			return
		}
		pr := parseGCode(p.gcode)
		pr.check(t)
		checkSpeeds(t, o, pr)
	})
}

// longPrints feeds a lot of filament and looks if small amounts still count.
func longPrints(c *Ctx) {
	type set struct {
		n, mult, d int
		seg        int64
	}
	sets := []set{{1200, 100, 1750, 200}, {3000, 1000, 1750, 500}, {200, 100, 2850, 1000}, {c.Pick(4000, 40000), 500, 1000, 150}}
	c.Run("long prints", len(sets), func(t *T, i int) {
		st := sets[i]
		t.Key("%+v", st)
		o := baseOpts(func(o *data.Options) {
			o.Filament.ExtrusionMultiplier = st.mult
			o.Filament.FilamentDiameter = data.Micrometer(st.d)
		})
		b := gcode.NewGCodeBuilder(&o)
		b.SetExtrusion(o.Print.LayerThickness, o.Printer.ExtrusionWidth)
		b.SetExtrudeSpeed(50)
		b.SetMoveSpeed(50)
		r := extrusionRate(o, 1)
		// a long distance
		var far data.Path
		for k := 0; k < 200; k++ {
			far = append(far, ring{{int64(k%2) * 1000000, int64(k) * 1000}}.path()...)
		}
		for k := 0; k < st.n/10; k++ {
			if err := b.AddPolygon(nil, far, 200, true); err != nil {
				t.Fail("%v", err)
			}
		}
		// and small steps which have no corner that could be left out
		var near data.Path
		for k := 0; k < 200; k++ {
			near = append(near, ring{{int64(k) * st.seg, int64(k%2) * st.seg}}.path()...)
		}
		for k := 0; k < 10; k++ {
			if err := b.AddPolygon(nil, near, 200, true); err != nil {
				t.Fail("%v", err)
			}
		}
		pr := parseGCode(b.String())
		pr.check(t)
		sum, want := 0.0, 0.0
		for _, m := range pr.moves {
			if !m.hasE {
				continue
			}
			w := m.length() / 1000 * r
			if math.Abs(m.e-w) > 0.015*r+2e-4+2e-7*w {
				t.Fail("line %d: %.4f mm filament for %.3f mm after %.1f m, want %.4f", m.line, m.e, m.length()/1000, m.eTotal/1000, w)
				return
			}
			sum += m.e
			want += w
		}
		if math.Abs(sum-want) > 1e-5*want {
			t.Fail("together %.3f mm filament, want %.3f", sum, want)
		}
		t.Outcome(math.Round(sum))
	})
}

// shortLines prints very many short lines: nothing may be lost or added by rounding each of them.
func shortLines(c *Ctx) {
	widths := []int64{400, 350}
	mults := []int{100, 87}
	steps := []int64{}
	for k := int64(9); k <= 130; k += int64(c.Pick(3, 1)) {
		steps = append(steps, k)
	}
	c.Run("many short lines", len(steps)*len(widths)*len(mults)*3, func(t *T, i int) {
		step, ew, mult, mode := steps[i/3/4], widths[i/3%2], mults[i/6%2], i%3
		t.Key("step %d width %d multiplier %d mode %d", step, ew, mult, mode)
		o := baseOpts(func(o *data.Options) {
			o.Filament.ExtrusionMultiplier = mult
			o.Printer.ExtrusionWidth = data.Micrometer(ew)
		})
		b := gcode.NewGCodeBuilder(&o)
		b.SetExtrusion(o.Print.LayerThickness, o.Printer.ExtrusionWidth)
		b.SetExtrudeSpeed(50)
		b.SetMoveSpeed(50)
		r := extrusionRate(o, 1)
		want := 0.0
		const n = 3000
		for k := int64(0); k < n; k++ {
			x := k * step
			var q ring
			open := true
			switch mode {
			case 0: // separate lines
				q = ring{{x, 0}, {x + step, 0}}
			case 1: // lines with a corner which is too big to be smoothed
				q = ring{{x, 0}, {x + step, 12}, {x + 2*step, 0}}
			case 2: // small triangles
				q = ring{{x, 0}, {x + step, 0}, {x, step + 12}}
				open = false
			}
			if err := b.AddPolygon(nil, q.path(), 200, open); err != nil {
				t.Fail("%v", err)
				return
			}
			for j := range q {
				if a, b := q[j], q[(j+1)%len(q)]; j+1 < len(q) || !open {
					want += math.Hypot(float64(a.x-b.x), float64(a.y-b.y)) / 1000 * r
				}
			}
		}
		pr := parseGCode(b.String())
		pr.check(t)
		got := 0.0
		for _, m := range pr.moves {
			if m.hasE {
				got = m.eTotal
			}
		}
		if math.Abs(got-want) > 2e-4+1e-4*want {
			t.Fail("together %.4f mm filament, want %.4f", got, want)
		}
		t.Outcome(math.Round(want * 1000))
	})
}

// ---- all sequences of operations of the builder against a reference ----

type aspect int

const (
	aspExtrusion aspect = iota
	aspRetraction
	aspSpeed
)

// effect is one movement of the printer.
type effect struct {
	x, y, z int64
	first   bool
	e       float64
	f       float64
}

type machine struct {
	x, y, z             int64
	known               bool
	rate                float64
	move, extrude, over float64
	rspeed              float64
	rlen                float64
	hop                 int64
	total               float64
	lastNote            string
	out                 []effect
}

func (m *machine) state() string {
	return fmt.Sprint(m.x, m.y, m.z, m.known, m.rate, m.move, m.extrude, m.over, m.rspeed, m.rlen, m.hop, math.Round(m.total*1e4))
}

func (m *machine) to(x, y, z int64, e float64, f float64) {
	if m.known && x == m.x && y == m.y && z == m.z && e == 0 {
		return
	}
	m.out = append(m.out, effect{x, y, z, !m.known, e, f})
	m.x, m.y, m.z, m.known = x, y, z, true
	m.total += e
}

func (m *machine) espeed() float64 {
	if m.over > 0 {
		return m.over
	}
	return m.extrude
}

// polygon prints a path; w is the layer (nil = none).
func (m *machine) polygon(w *cells, r ring, z int64, open bool) {
	if len(r) == 0 {
		return
	}
	leave := false
	if w != nil && m.known && m.rspeed != 0 && m.rlen != 0 {
		leave = w.leaves(pt{m.x, m.y}, r[0], 1) == 1
	}
	zt := z
	if leave {
		m.to(m.x, m.y, m.z, -m.rlen, m.rspeed)
		zt += m.hop
		if m.hop > 0 {
			m.to(m.x, m.y, zt, 0, m.move)
		}
	}
	m.to(r[0].x, r[0].y, zt, 0, m.move)
	if leave {
		m.to(r[0].x, r[0].y, z, 0, m.move)
		m.to(m.x, m.y, m.z, m.rlen, m.rspeed)
	}
	n := len(r)
	if open {
		n--
	}
	for i := 0; i < n; i++ {
		a, b := r[i], r[(i+1)%len(r)]
		l := math.Hypot(float64(b.x-a.x), float64(b.y-a.y)) / 1000
		f := m.espeed()
		if m.rate == 0 {
			f = m.move
		}
		m.to(b.x, b.y, z, l*m.rate, f)
	}
}

type builderOp struct {
	name string
	real func(b *gcode.Builder) error
	ref  func(m *machine)
}

func builderOps(asp aspect, deep bool) []builderOp {
	g := &grid{xs: []int64{0, 10000, 20000, 30000}, ys: []int64{0, 10000, 20000, 30000}}
	frame := cellsFromMask(g, 511-16)
	layer := data.NewPartitionedLayer(frame.parts())
	poly := func(name string, inLayer bool, r ring, z int64, open bool) builderOp {
		return builderOp{name, func(b *gcode.Builder) error {
			var l data.PartitionedLayer
			if inLayer {
				l = layer
			}
			return b.AddPolygon(l, r.path(), data.Micrometer(z), open)
		}, func(m *machine) {
			var w *cells
			if inLayer {
				w = &frame
			}
			m.polygon(w, r, z, open)
		}}
	}
	set := func(name string, f func(b *gcode.Builder), h func(m *machine)) builderOp {
		return builderOp{name, func(b *gcode.Builder) error { f(b); return nil }, h}
	}
	left := ring{{2000, 3000}, {4000, 3000}, {4000, 7000}}
	right := ring{{22000, 14000}, {27000, 18000}}
	top := ring{{3000, 22000}, {5000, 28000}, {7000, 22000}, {8000, 29000}}
	point := ring{{5000, 15000}}
	rate := func(th, w int) func(m *machine) {
		return func(m *machine) { m.rate = float64(th) * float64(w) / (math.Pi * 1750 * 1750 / 4) * 0.9 }
	}
	ops := []builderOp{
		poly("closed left", true, left, 200, false),
		poly("open right", true, right, 200, true),
		poly("open top without layer", false, top, 400, true),
		set("extrusion 200x400", func(b *gcode.Builder) { b.SetExtrusion(200, 400) }, rate(200, 400)),
		set("move to the corner", func(b *gcode.Builder) { b.AddMove(data.NewMicroVec3(29000, 1000, 400), 0) }, func(m *machine) { m.to(29000, 1000, 400, 0, m.move) }),
		set("move with filament", func(b *gcode.Builder) { b.AddMove(data.NewMicroVec3(1000, 1000, 200), 1.25) }, func(m *machine) { m.to(1000, 1000, 200, 1.25, m.espeed()) }),
	}
	switch asp {
	case aspExtrusion:
		ops = append(ops,
			set("extrusion 350x450", func(b *gcode.Builder) { b.SetExtrusion(350, 450) }, rate(350, 450)),
			poly("closed top", true, top, 600, false),
			poly("point", true, point, 200, false),
			poly("nothing", true, nil, 200, false),
			set("retraction on", func(b *gcode.Builder) { b.SetRetractionSpeed(30); b.SetRetractionAmount(2) }, func(m *machine) { m.rspeed, m.rlen = 30, 2 }),
			set("comment", func(b *gcode.Builder) { b.AddComment("x%v", 1); b.AddCommand("M106 S%d", 3) }, func(m *machine) {}),
		)
	case aspRetraction:
		ops = append(ops,
			set("retraction on", func(b *gcode.Builder) { b.SetRetractionSpeed(30); b.SetRetractionAmount(2) }, func(m *machine) { m.rspeed, m.rlen = 30, 2 }),
			set("retraction length 0", func(b *gcode.Builder) { b.SetRetractionAmount(0) }, func(m *machine) { m.rlen = 0 }),
			set("retraction speed 0", func(b *gcode.Builder) { b.SetRetractionSpeed(0) }, func(m *machine) { m.rspeed = 0 }),
			set("hop", func(b *gcode.Builder) { b.SetRetractionZHop(0.5) }, func(m *machine) { m.hop = 500 }),
			set("no hop", func(b *gcode.Builder) { b.SetRetractionZHop(0) }, func(m *machine) { m.hop = 0 }),
			poly("open top", true, top, 600, true),
			poly("point", true, point, 200, false),
		)
	case aspSpeed:
		ops = append(ops,
			set("move speed 150", func(b *gcode.Builder) { b.SetMoveSpeed(150) }, func(m *machine) { m.move = 150 }),
			set("extrude speed 60", func(b *gcode.Builder) { b.SetExtrudeSpeed(60) }, func(m *machine) { m.extrude = 60 }),
			set("extrude speed 60.5", func(b *gcode.Builder) { b.SetExtrudeSpeed(60.5) }, func(m *machine) { m.extrude = 60.5 }),
			set("override 0.3", func(b *gcode.Builder) { b.SetExtrudeSpeedOverride(0.3) }, func(m *machine) { m.over = 0.3 }),
			set("no override", func(b *gcode.Builder) { b.DisableExtrudeSpeedOverride() }, func(m *machine) { m.over = 0 }),
			set("retraction 0.9", func(b *gcode.Builder) { b.SetRetractionSpeed(0.9); b.SetRetractionAmount(2) }, func(m *machine) { m.rspeed, m.rlen = 0.9, 2 }),
		)
	}
	return ops
}

func builderSequences(c *Ctx, asp aspect) {
	ops := builderOps(asp, c.Thorough())
	depth := c.Pick(5, 6)
	var mu sync.Mutex
	allStates, allTrans := map[string]bool{}, map[string]bool{}
	n := 1
	for i := 0; i < depth; i++ {
		n *= len(ops)
	}
	// one case per prefix of depth-2 operations, so that the states can be counted together
	tail := len(ops) * len(ops)
	c.Run(fmt.Sprintf("sequences of %d builder operations", depth), n/tail, func(t *T, i int) {
		states, trans := map[string]bool{}, map[string]bool{}
		var prefix []int
		for k, v := 0, i; k < depth-2; k++ {
			prefix = append(prefix, v%len(ops))
			v /= len(ops)
		}
		t.Key("prefix %v", prefix)
		for j := 0; j < tail; j++ {
			seq := append(append([]int{}, prefix...), j/len(ops), j%len(ops))
			o := baseOpts(func(o *data.Options) { o.Filament.ExtrusionMultiplier = 90 })
			b := gcode.NewGCodeBuilder(&o)
			m := &machine{}
			var names []string
			for _, k := range seq {
				names = append(names, ops[k].name)
				before := m.state()
				if err := ops[k].real(b); err != nil {
					t.Fail("%s: %v", strings.Join(names, ", "), err)
					return
				}
				if len(ops[k].name) > 0 {
					ops[k].ref(m)
				}
				states[m.state()] = true
				trans[before+"/"+ops[k].name] = true
			}
			if msg := compareEffects(b.String(), m.out, asp); msg != "" {
				t.Fail("%s: %s; G-code: %q", strings.Join(names, ", "), msg, b.String())
				return
			}
			t.Outcome(m.state())
		}
		mu.Lock()
		ns, nt := len(allStates), len(allTrans)
		for k := range states {
			allStates[k] = true
		}
		for k := range trans {
			allTrans[k] = true
		}
		t.States(len(allStates)-ns, len(allTrans)-nt)
		mu.Unlock()
		t.Traces(tail)
	})
}

// compareEffects compares G-code with the expected movements in one aspect.
func compareEffects(g string, want []effect, asp aspect) string {
	pr := parseGCode(g)
	if len(pr.errs) > 0 {
		return fmt.Sprint(pr.errs)
	}
	var got []move
	for _, m := range pr.moves {
		if m.x0 == m.x1 && m.y0 == m.y1 && m.z0 == m.z1 && m.e == 0 && m.known {
			continue
		}
		got = append(got, m)
	}
	if len(got) != len(want) {
		return fmt.Sprintf("%d moves, want %d: %v", len(got), len(want), want)
	}
	for i, w := range want {
		m := got[i]
		if m.x1 != w.x || m.y1 != w.y || m.z1 != w.z {
			return fmt.Sprintf("move %d ends at %d %d %d, want %+v", i, m.x1, m.y1, m.z1, w)
		}
		switch asp {
		case aspExtrusion:
			if math.Abs(m.e-w.e) > 1.1e-4 {
				return fmt.Sprintf("move %d feeds %.4f, want %.4f", i, m.e, w.e)
			}
		case aspRetraction:
			if (m.e < 0) != (w.e < 0) || (m.e > 0) != (w.e > 0) || (w.e < 0 && math.Abs(m.e-w.e) > 1.1e-4) {
				return fmt.Sprintf("move %d feeds %.4f, want %.4f", i, m.e, w.e)
			}
		case aspSpeed:
			if math.Abs(m.f-w.f*60) > 0.51 {
				return fmt.Sprintf("move %d has F%v, want F%v", i, m.f, w.f*60)
			}
		}
	}
	return ""
}

// travelLattice prints two points after each other in all small layers.
func travelLattice(c *Ctx) {
	g := &grid{xs: []int64{10000, 13000, 17000, 20000}, ys: []int64{5000, 9000, 12000, 16000}}
	px := []int64{8000, 10600, 12300, 14000, 15900, 18800, 21000}
	py := []int64{4000, 5700, 8300, 9700, 11100, 13500, 17000}
	np := len(px) * len(py)
	c.Run("all ways in layers of 3x3 cells", 512, func(t *T, i int) {
		w := cellsFromMask(g, i)
		t.Key("%v", w)
		layer := data.NewPartitionedLayer(w.parts())
		o := baseOpts()
		step := c.Pick(5, 1)
		for a := 0; a < np; a++ {
			for b := (a + i) % step; b < np; b += step {
				p, q := pt{px[a%len(px)], py[a/len(px)]}, pt{px[b%len(px)], py[b/len(px)]}
				want := w.leaves(p, q, 1)
				if want < 0 || p == q {
					continue
				}
				gb := gcode.NewGCodeBuilder(&o)
				gb.SetMoveSpeed(100)
				gb.SetRetractionSpeed(30)
				gb.SetRetractionAmount(2)
				gb.AddMove(data.NewMicroVec3(data.Micrometer(p.x), data.Micrometer(p.y), 200), 0)
				if err := gb.AddPolygon(layer, ring{q}.path(), 200, true); err != nil {
					t.Fail("%v", err)
					return
				}
				got := strings.Contains(gb.String(), "E-2")
				if got != (want == 1) {
					t.Fail("from %v to %v: retraction=%v, want %v; cells %v", p, q, got, want == 1, w)
					return
				}
			}
		}
		t.Outcome(w.String())
	})
}

// meterLine draws a line of one meter in each layer.
type meterLine struct{}

func (meterLine) Init(data.OptimizedModel) {}

func (meterLine) Render(b *gcode.Builder, layerNr, _ int, layer data.PartitionedLayer, z data.Micrometer, _ *data.Options) error {
	y := int64(layerNr) * 1000
	return b.AddPolygon(layer, ring{{0, y}, {1000000, y}}.path(), z, true)
}

// extrusionRates looks for the amount of filament with a lattice of all options it depends on.
func extrusionRates(c *Ctx) {
	first := []int64{100, 201, 255, 333, 505}
	others := []int64{50, 99, 200, 255, 301}
	widths := []int64{399, 400, 403, 553, 1001}
	diameters := []int64{999, 1000, 1749, 1750, 1751, 1755, 2850, 2853}
	mults := []int{1, 7, 33, 50, 97, 99, 100, 101, 104, 150, 333}
	if c.Thorough() {
		for d := int64(1700); d < 1800; d += 3 {
			diameters = append(diameters, d)
		}
		for m := 2; m < 140; m += 5 {
			mults = append(mults, m)
		}
	}
	c.Run("extrusion rates", len(first)*len(others)*len(widths)*len(diameters)*len(mults), func(t *T, i int) {
		pick := func(n int) int { k := i % n; i /= n; return k }
		var o data.Options
		o = baseOpts(func(o *data.Options) {
			o.Print.InitialLayerThickness = data.Micrometer(first[pick(len(first))])
			o.Print.LayerThickness = data.Micrometer(others[pick(len(others))])
			o.Printer.ExtrusionWidth = data.Micrometer(widths[pick(len(widths))])
			o.Filament.FilamentDiameter = data.Micrometer(diameters[pick(len(diameters))])
			o.Filament.ExtrusionMultiplier = mults[pick(len(mults))]
		})
		t.Key("first %d, others %d, width %d, diameter %d, multiplier %d", o.Print.InitialLayerThickness, o.Print.LayerThickness, o.Printer.ExtrusionWidth, o.Filament.FilamentDiameter, o.Filament.ExtrusionMultiplier)
		layers := make([]data.PartitionedLayer, 4)
		for k := range layers {
			layers[k] = data.NewPartitionedLayer(nil)
		}
		text, err := gcode.NewGenerator(&o, gcode.WithRenderer(renderer.PreLayer{}), gcode.WithRenderer(meterLine{})).Generate(layers)
		if err != nil {
			t.Fail("%v", err)
			return
		}
		pr := parseGCode(text)
		pr.check(t)
		n := 0
		for _, m := range printing(pr) {
			if m.x0 == m.x1 || !m.hasE || m.e <= 0 {
				continue
			}
			want := 1000 * extrusionRate(o, n)
			if math.Abs(m.e-want) > 2e-4+1e-6*want+1e-7*m.eTotal {
				t.Fail("layer %d: %.4f mm filament for one meter, want %.4f", n, m.e, want)
				return
			}
			t.Outcome(math.Round(want * 1e4))
			n++
		}
		if n != len(layers) {
			t.Fail("%d lines", n)
		}
	})
}
