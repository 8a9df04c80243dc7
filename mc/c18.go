package main

import (
	"fmt"
	"math"

	"github.com/aligator/goslice/data"
)

// seg is one extruding move.
type seg struct {
	line       int
	a, b       pt
	layer, num int
}

// hatch says how the areas of an attribute have to be filled.
type hatch struct {
	name    string // of the attribute
	degree  int
	turning bool // by 90 degree from layer to layer
	dist    float64
	zig     bool
	reach   [4]float64 // area in which the lines are demanded
}

// checkHatch compares the lines (all layers) with the areas of the layers.
func checkHatch(t *T, h hatch, segs map[int][]seg, areas []region, ew float64, sign float64) bool {
	phase := map[int]float64{} // by direction
	for layer := range areas {
		g := areas[layer]
		dir := 0
		deg := float64(h.degree)
		if h.turning && layer%2 == 0 {
			dir = 1
			deg += 90
		}
		a := deg * sign * math.Pi / 180
		nx, ny := math.Cos(a), math.Sin(a)
		dx, dy := -ny, nx
		lines := map[int][]span{}
		for _, s := range segs[layer] {
			for f := 0.0; f <= 1; f += 0.125 {
				x, y := float64(s.a.x)+f*float64(s.b.x-s.a.x), float64(s.a.y)+f*float64(s.b.y-s.a.y)
				if !g.has(x, y) && g.dist(x, y) > 14 {
					t.Fail("line %d: %s at (%.0f,%.0f) is outside of the area to fill by %.0f; areas %v", s.line, h.name, x, y, g.dist(x, y), g)
					return false
				}
			}
			u0, u1 := float64(s.a.x)*nx+float64(s.a.y)*ny, float64(s.b.x)*nx+float64(s.b.y)*ny
			v0, v1 := float64(s.a.x)*dx+float64(s.a.y)*dy, float64(s.b.x)*dx+float64(s.b.y)*dy
			if math.Abs(u0-u1) > 22 {
				if !h.zig {
					t.Fail("line %d: %s from %v to %v is not parallel to the direction %v", s.line, h.name, s.a, s.b, deg)
					return false
				}
				if math.Hypot(u0-u1, v0-v1) > ew+2*h.dist+30 {
					t.Fail("line %d: the connection of %s from %v to %v is too long", s.line, h.name, s.a, s.b)
					return false
				}
				continue
			}
			u := (u0 + u1) / 2
			if math.Hypot(u0-u1, v0-v1) < 60 {
				continue // too short to tell anything
			}
			if _, ok := phase[dir]; !ok {
				phase[dir] = u
			}
			q := (u - phase[dir]) / h.dist
			n := math.Round(q)
			if math.Abs(q-n)*h.dist > 24 {
				if h.zig && math.Hypot(u0-u1, v0-v1) <= ew+2*h.dist+30 {
					continue // a short connection
				}
				t.Fail("line %d: %s at %.0f, others at %.0f with the distance %.0f; direction %v", s.line, h.name, u, phase[dir], h.dist, deg)
				return false
			}
			lines[int(n)] = append(lines[int(n)], span{u: u, a: math.Min(v0, v1), b: math.Max(v0, v1)})
		}
		// everything inside has to be filled
		var u0, u1, v0, v1 = math.Inf(1), math.Inf(-1), math.Inf(1), math.Inf(-1)
		for _, r := range g {
			for _, p := range r {
				u, v := float64(p.x)*nx+float64(p.y)*ny, float64(p.x)*dx+float64(p.y)*dy
				u0, u1, v0, v1 = math.Min(u0, u), math.Max(u1, u), math.Min(v0, v), math.Max(v1, v)
			}
		}
		ph, ok := phase[dir]
		if !ok {
			for u := u0; u < u1; u += 100 {
				for v := v0; v < v1; v += 100 {
					x, y := u*nx+v*dx, u*ny+v*dy
					if x > h.reach[0] && x < h.reach[1] && y > h.reach[2] && y < h.reach[3] && g.has(x, y) && g.dist(x, y) > h.dist+ew {
						t.Fail("layer %d: %s is not filled at all; areas %v", layer, h.name, g)
						return false
					}
				}
			}
			continue
		}
		margin := 40.0
		if h.zig {
			margin += ew / 2
		}
		for n := int(math.Ceil((u0 - ph) / h.dist)); ph+float64(n)*h.dist < u1; n++ {
			u := ph + float64(n)*h.dist
			for v := v0 + 50; v < v1; v += 333 {
				x, y := u*nx+v*dx, u*ny+v*dy
				if x < h.reach[0] || x > h.reach[1] || y < h.reach[2] || y > h.reach[3] || !g.has(x, y) || g.dist(x, y) < margin {
					continue
				}
				if h.zig && (!g.has(x+ew*dx, y+ew*dy) || !g.has(x-ew*dx, y-ew*dy)) {
					continue
				}
				hit := false
				for _, l := range lines[n] {
					hit = hit || (l.a-20 <= v && l.b+20 >= v)
				}
				if !hit {
					t.Fail("layer %d: there is no line of %s at (%.0f,%.0f), %.0f inside of the area; distance %.0f direction %v; areas %v", layer, h.name, x, y, g.dist(x, y), h.dist, deg, g)
					return false
				}
			}
		}
	}
	return true
}

type fillSet struct {
	percent, degree int
	zig             bool
	ew              int
	insets          int
	support         bool
	spacing         float64
}

func (s fillSet) opts() data.Options {
	return baseOpts(func(o *data.Options) {
		o.Print.InfillPercent = s.percent
		o.Print.InfillRotationDegree = s.degree
		o.Print.InfillZigZag = s.zig
		o.Printer.ExtrusionWidth = data.Micrometer(s.ew)
		o.Print.InsetCount = s.insets
		o.Print.Support.Enabled = s.support
		o.Print.Support.PatternSpacing = data.Millimeter(s.spacing)
		o.Print.Support.TopGapLayers = 1
		o.Print.NumberTopLayers = 1
		o.Print.NumberBottomLayers = 2
		o.Print.BrimSkirt.BrimCount = s.insets % 2
	})
}

var fillTypes = map[string]string{"BOTTOM-FILL": "bottom", "TOP-FILL": "top", "INTERNAL-FILL": "infill"}

// checkFillings judges the filling lines of the whole program.
func checkFillings(t *T, p *pipe, st fillSet, bounds [4]float64) {
	pr := parseGCode(p.gcode)
	pr.check(t)
	o := p.o
	segs := map[string]map[int][]seg{}
	for _, m := range pr.moves {
		if m.custom || m.layer < 0 || !m.extrudes() {
			continue
		}
		n := m.typ
		switch n {
		case "SKIRT", "WALL-OUTER", "WALL-INNER", "SUPPORT":
		default:
			n = fillTypes[m.typ]
			if n == "" {
				t.Fail("line %d: material of the unknown type %q", m.line, m.typ)
				return
			}
		}
		if segs[n] == nil {
			segs[n] = map[int][]seg{}
		}
		segs[n][m.layer] = append(segs[n][m.layer], seg{m.line, pt{m.x0, m.y0}, pt{m.x1, m.y1}, m.layer, len(segs[n][m.layer])})
	}
	areas := func(name string) []region {
		var out []region
		for _, l := range p.layers {
			out = append(out, partsRegion(attr(t, l, name)))
		}
		return out
	}
	ew := float64(o.Printer.ExtrusionWidth)
	inf := math.Inf(1)
	all := [4]float64{-inf, inf, -inf, inf}
	// support lines and interface lines have the same type: split them by the area
	sup := map[string]map[int][]seg{"support": {}, "supportInterface": {}}
	as, ai := areas("support"), areas("supportInterface")
	for l, ss := range segs["SUPPORT"] {
		for _, s := range ss {
			worst := func(g region) float64 {
				w := 0.0
				for f := 0.0; f <= 1; f += 0.125 {
					x, y := float64(s.a.x)+f*float64(s.b.x-s.a.x), float64(s.a.y)+f*float64(s.b.y-s.a.y)
					if !g.has(x, y) {
						w = math.Max(w, g.dist(x, y))
					}
				}
				return w
			}
			a, b := worst(as[l]), worst(ai[l])
			if a <= 14 && b <= 14 {
				// on the border of both
				if s.a.x == s.b.x {
					b = -1
				} else {
					a = -1
				}
			}
			if a < b {
				sup["support"][l] = append(sup["support"][l], s)
			} else {
				sup["supportInterface"][l] = append(sup["supportInterface"][l], s)
			}
		}
	}
	if !o.Print.Support.Enabled && len(segs["SUPPORT"]) > 0 {
		t.Fail("support although it is disabled: %v", segs["SUPPORT"])
		return
	}
	ps := float64(o.Print.Support.PatternSpacing * 1000)
	ps -= ew // the lines end at the bounds
	reach := [4]float64{bounds[0] - ps, bounds[1] + ps, bounds[2] - ps, bounds[3] + ps}
	ps += ew
	try := func(sign float64) []string {
		sub := &T{c: t.c, quiet: true, section: t.section}
		solid := []hatch{
			{"bottom", o.Print.InfillRotationDegree, true, ew, false, all},
			{"top", o.Print.InfillRotationDegree, true, ew, false, all},
		}
		for _, h := range solid {
			checkHatch(sub, h, segs[h.name], areas(h.name), ew, sign)
		}
		if o.Print.InfillPercent > 0 {
			d := math.Floor(10000 / (math.Floor(10000/ew) * float64(o.Print.InfillPercent) / 100))
			checkHatch(sub, hatch{"infill", o.Print.InfillRotationDegree, true, d, o.Print.InfillZigZag, all}, segs["infill"], areas("infill"), ew, sign)
		} else if len(segs["infill"]) > 0 {
			sub.Fail("infill although the percentage is 0")
		}
		checkHatch(sub, hatch{"support", 90, false, ps, true, reach}, sup["support"], as, ew, sign)
		checkHatch(sub, hatch{"supportInterface", 0, false, ew, true, reach}, sup["supportInterface"], ai, ew, sign)
		return sub.msgs
	}
	if m := try(1); m != nil {
		if m2 := try(-1); m2 != nil {
			if len(m2) < len(m) {
				m = m2
			}
			t.Fail("%v", m)
			return
		}
	}
	n := 0
	for k, s := range segs {
		for l := range s {
			n += len(s[l])
		}
		t.Outcome(k, len(s), n)
	}
}

func init() {
	register(&Check{ID: "C18", Level: "exploration",
		Rule:   "one evaluation = one object sliced to G-code, the lines of each kind of filling compared with the area of its kind in each layer; distinct = object and setting",
		Assume: []string{"the areas themselves are judged by C14, C15 and C16", "positions with a tolerance of 24 um (rounding to 0.01 mm and of the rotation)"},
		Run: func(c *Ctx) {
			sets := []fillSet{
				{20, 45, false, 400, 2, false, 2.5}, {10, 0, true, 400, 1, true, 2}, {100, 30, false, 500, 2, true, 2.5},
				{25, -60, true, 400, 1, true, 1.2}, {0, 45, false, 400, 2, true, 2.5}, {50, 90, false, 250, 3, true, 3}, {20, 135, true, 500, 0, true, 1},
			}
			one := func(t *T, s *scene, st fillSet, o data.Options) {
				p := runPipe(o, s.mesh())
				if p.err != nil {
					t.Fail("%v", p.err)
					return
				}
				lo, hi := s.mesh().bounds()
				w, d := float64(hi.x-lo.x)/2, float64(hi.y-lo.y)/2
				cx, cy := float64(o.Printer.Center.X()), float64(o.Printer.Center.Y())
				checkFillings(t, p, st, [4]float64{cx - w, cx + w, cy - d, cy + d})
			}
			run := func(name string, n, ns int, mk func(i int) *scene) {
				c.Run(name, n*ns, func(t *T, i int) {
					st := sets[(i/n+i*c.Pick(1, 0))%len(sets)]
					s := mk(i % n)
					t.Key("%v %+v", s, st)
					if s.empty() {
						return
					}
					o := st.opts()
					one(t, s, st, o)
					t.Outcome(s.String(), fmt.Sprint(st))
					t.Sample(s.String())
				})
			}
			bigScenes(c, func(name string, n int, mk func(i int, o *data.Options) *scene) {
				c.Run(name, n*c.Pick(1, len(sets)), func(t *T, i int) {
					st := sets[(i+i/n)%len(sets)]
					o := st.opts()
					s := mk(i%n, &o)
					t.Key("%v %+v", s, st)
					one(t, s, st, o)
				})
			})
			slopes(c, func(name string, n int, mk func(i int) shape) {
				c.Run(name, n*c.Pick(1, len(sets)), func(t *T, i int) {
					s, st := mk(i%n), sets[(i+i/n)%len(sets)]
					o := st.opts()
					t.Key("%s %+v", s.name, st)
					p := runPipe(o, s.m)
					if p.err != nil {
						t.Fail("%v", p.err)
						return
					}
					lo, hi := fromVec(p.om.Min()), fromVec(p.om.Max())
					checkFillings(t, p, st, [4]float64{float64(lo.x), float64(hi.x), float64(lo.y), float64(hi.y)})
				})
			})
			ne, embrace := embraced(c)
			run("parts embraced by others", ne, c.Pick(1, len(sets)), embrace)
			// all percentages
			plain := sceneOnGrid(&grid{xs: []int64{0, 7000, 9000, 16000}, ys: []int64{0, 6000, 8000}}, []int64{0, 900, 1500}, "###/###", "#.#/##.")
			ews := []int{400, 300, 450}
			c.Run("all percentages", 150*2*len(ews), func(t *T, i int) {
				st := fillSet{i%150 + 1, 45, i/150%2 == 1, ews[i/300], 2, false, 2.5}
				t.Key("%v %+v", plain, st)
				o := st.opts()
				o.Print.NumberBottomLayers = 1
				one(t, plain, st, o)
			})
			g := &grid{xs: []int64{0, 5000, 9000, 15000}, ys: []int64{0, 6000, 10000}}
			run("3x2x2 blocks", 4095, c.Pick(1, len(sets)), func(i int) *scene {
				s := newScene(g, 0, 700, 1450)
				s.slabs[0], s.slabs[1] = cellsFromMask(g, (i+1)&63), cellsFromMask(g, (i+1)>>6)
				return s
			})
			g2 := &grid{xs: []int64{0, 2500, 5500, 8000}, ys: []int64{0, 3500, 5500, 9000}}
			run("3x3x1 blocks", 511, c.Pick(3, len(sets)), func(i int) *scene {
				s := newScene(g2, 0, 900)
				s.slabs[0] = cellsFromMask(g2, i+1)
				return s
			})
			run("2x2x3 blocks", c.Pick(819, 4095), c.Pick(1, 3), func(i int) *scene {
				return polycube(2, 2, 3, c.Pick(5, 1)*i+1, 5000, []int64{0, 650, 1350, 1800}, 0)
			})
		}})
}
