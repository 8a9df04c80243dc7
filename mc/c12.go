package main

import (
	"fmt"
	"math"

	"github.com/aligator/goslice/clip"
	"github.com/aligator/goslice/data"
)

// track is a sequence of extruding moves without a break.
type track struct {
	line, layer int
	typ         string
	pts         []pt
}

func (k track) closed() bool { return len(k.pts) > 2 && k.pts[0] == k.pts[len(k.pts)-1] }

func (k track) ring() ring { return ring(k.pts[:len(k.pts)-1]) }

// tracks collects the material of the program line by line.
func (p *prog) tracks() []track {
	var out []track
	open := false
	for _, m := range p.moves {
		if m.custom || m.layer < 0 {
			continue
		}
		// (the way or the material of very short moves cannot be seen in the text)
		short := m.g == 1 && m.hasXY && m.hasE && m.e > -1e-9 && m.e < 0.002 && abs64(m.x1-m.x0) <= 20 && abs64(m.y1-m.y0) <= 20
		if !m.extrudes() && !short {
			if m.x0 != m.x1 || m.y0 != m.y1 || m.hasE {
				open = false
			}
			continue
		}
		n := len(out) - 1
		if open && n >= 0 && out[n].typ == m.typ && out[n].layer == m.layer && out[n].pts[len(out[n].pts)-1] == (pt{m.x0, m.y0}) {
			out[n].pts = append(out[n].pts, pt{m.x1, m.y1})
			continue
		}
		out = append(out, track{m.line, m.layer, m.typ, []pt{{m.x0, m.y0}, {m.x1, m.y1}}})
		open = true
	}
	return out
}

func ringsRegion(r []ring) []data.LayerPart {
	var out []data.LayerPart
	for _, x := range r {
		out = append(out, data.NewBasicLayerPart(x.path(), nil))
	}
	return out
}

// checkWalls checks the perimeters of one layer which has the given section.
func checkWalls(t *T, ks []track, w cells, ew int64, count int) {
	byInset := make([][]ring, count)
	tol := 16.0
	for _, k := range ks {
		outer := k.typ == "WALL-OUTER"
		if !outer && k.typ != "WALL-INNER" {
			continue
		}
		if !k.closed() {
			t.Fail("line %d: the perimeter is not closed: %v", k.line, k.pts)
			return
		}
		// which inset is it?
		d := math.Inf(1)
		for i := range k.pts[1:] {
			a, b := k.pts[i], k.pts[i+1]
			for _, f := range []float64{0, 0.5} {
				x, y := float64(a.x)+f*float64(b.x-a.x), float64(a.y)+f*float64(b.y-a.y)
				e, _ := w.dists(false, x, y)
				d = math.Min(d, e)
			}
		}
		q := d/float64(ew) - 0.5
		inset := int(math.Round(q))
		if math.Abs(q-float64(inset))*float64(ew) > tol || inset < 0 || inset >= count {
			t.Fail("line %d: a perimeter (%s) runs %.0f beside the border with a line width of %d and %d insets", k.line, k.typ, d, ew, count)
			return
		}
		if outer != (inset == 0) {
			t.Fail("line %d: perimeter number %d is printed as %s", k.line, inset, k.typ)
			return
		}
		byInset[inset] = append(byInset[inset], k.ring())
	}
	for k := range byInset {
		if !offsetCheck(t, fmt.Sprintf("perimeter %d", k), ringsRegion(byInset[k]), w, -(ew/2 + int64(k)*ew), tol) {
			return
		}
	}
}

func layerTracks(pr *prog) map[int][]track {
	m := map[int][]track{}
	for _, k := range pr.tracks() {
		m[k.layer] = append(m[k.layer], k)
	}
	return m
}

func init() {
	register(&Check{ID: "C12", Level: "exploration",
		Rule:   "one evaluation = one object sliced to G-code and the perimeters of each layer compared with its section; distinct = section and options",
		Assume: []string{"distances with a tolerance of 16 um (rounding to 0.01 mm and smoothing); at corners the line may lie anywhere between the rounded and the pointed offset"},
		Run: func(c *Ctx) {
			type set struct {
				ew    data.Micrometer
				count int
			}
			sets := []set{{400, 2}, {400, 1}, {401, 3}, {350, 4}, {600, 2}}
			grids := []*grid{uniGrid(3, 3, 3000), {xs: []int64{0, 900, 2400, 60400}, ys: []int64{0, 1300, 1900, 9000}}}
			c.Run("3x3x1 blocks", 511*len(sets)*len(grids), func(t *T, i int) {
				st := sets[i/511%len(sets)]
				g := grids[i/511/len(sets)]
				s := newScene(g, 0, 500)
				s.slabs[0] = cellsFromMask(g, i%511+1)
				o := baseOpts(func(o *data.Options) {
					o.Printer.ExtrusionWidth = st.ew
					o.Print.InsetCount = st.count
					o.Print.BrimSkirt.SkirtCount = i & 1
				})
				t.Key("%v width %d insets %d", s, st.ew, st.count)
				wallCheck(t, s, o)
			})
			c.Run("2x2x3 blocks", c.Pick(1365, 4095), func(t *T, i int) {
				s := polycube(2, 2, 3, c.Pick(3, 1)*i+1, 3000, []int64{0, 300, 500, 900}, 0)
				o := baseOpts(func(o *data.Options) {
					o.Print.InsetCount = 1 + i%3
					o.Print.LayerThickness = 130
					o.Print.Support.Enabled = i&1 == 1
				})
				t.Key("%v insets %d", s, o.Print.InsetCount)
				wallCheck(t, s, o)
			})
			bigScenes(c, func(name string, n int, mk func(i int, o *data.Options) *scene) {
				c.Run(name, n, func(t *T, i int) {
					st := sets[i%len(sets)]
					o := baseOpts(func(o *data.Options) {
						o.Printer.ExtrusionWidth = st.ew
						o.Print.InsetCount = st.count
						o.Print.InfillPercent = 10
					})
					s := mk(i, &o)
					t.Key("%v width %d insets %d", s, st.ew, st.count)
					wallCheck(t, s, o)
				})
			})
			slantWalls(c)
			mixedWalls(c)
			polyWalls(c)
			if c.Thorough() {
				c.Run("4x4x1 blocks", 1<<16-1, func(t *T, i int) {
					s := polycube(4, 4, 1, i+1, 2000, []int64{0, 200}, 0)
					t.Key("%v", s)
					wallCheck(t, s, baseOpts(func(o *data.Options) { o.Print.InsetCount = 3; o.Print.InfillPercent = 0 }))
				})
			}
		}})
}

func wallCheck(t *T, s *scene, o data.Options) {
	w := s.placed(o.Printer.Center)
	p := runPipe(o, s.mesh())
	if p.err != nil {
		t.Fail("%v", p.err)
		return
	}
	pr := parseGCode(p.gcode)
	pr.check(t)
	ks := layerTracks(pr)
	for k := range p.layers {
		z := int64(o.Print.InitialLayerThickness) + int64(k)*int64(o.Print.LayerThickness)
		checkWalls(t, ks[k], w.below(z), int64(o.Printer.ExtrusionWidth), o.Print.InsetCount)
		if t.Failed() {
			t.Fail("in layer %d", k)
			return
		}
		t.Outcome(w.below(z).String(), o.Printer.ExtrusionWidth, o.Print.InsetCount)
	}
	t.Sample(s.String())
}

// ---- C13 ----

// span is a part of the line at u. ca and cb tell how far its ends move if the line moves.
type span struct{ u, a, b, ca, cb float64 }

// scan returns the intervals in which the line at u (perpendicular to n) lies inside of the region.
// ok is false if the line runs too close to a corner to be judged.
func (g region) scan(u float64, nx, ny float64, tol float64) (out []span, ok bool) {
	var vs [][2]float64
	dx, dy := -ny, nx
	for _, r := range g {
		for i := range r {
			a, b := r[i], r[(i+1)%len(r)]
			ua, ub := float64(a.x)*nx+float64(a.y)*ny-u, float64(b.x)*nx+float64(b.y)*ny-u
			if math.Abs(ua) <= tol {
				return nil, false
			}
			if (ua > 0) != (ub > 0) {
				f := ua / (ua - ub)
				x, y := float64(a.x)+f*float64(b.x-a.x), float64(a.y)+f*float64(b.y-a.y)
				dv := float64(b.x-a.x)*dx + float64(b.y-a.y)*dy
				vs = append(vs, [2]float64{x*dx + y*dy, math.Abs(dv / (ub - ua))})
			}
		}
	}
	for i := range vs {
		for j := i + 1; j < len(vs); j++ {
			if vs[j][0] < vs[i][0] {
				vs[i], vs[j] = vs[j], vs[i]
			}
		}
	}
	for i := 0; i+1 < len(vs); i += 2 {
		out = append(out, span{u, vs[i][0], vs[i+1][0], vs[i][1], vs[i+1][1]})
	}
	return out, true
}

type patternCase struct {
	width, dist int64
	degree      int
	rect, zig   bool
}

// fillLines splits the result of a pattern into lines and connections and checks their direction.
// The direction may be turned clockwise or counter clockwise; sign selects it.
func checkFill(t *T, paths data.Paths, part data.LayerPart, pc patternCase, layer int, sign float64, phase *float64, lo, hi pt) bool {
	deg := float64(pc.degree)
	if pc.rect && layer%2 == 0 {
		deg += 90
	}
	a := deg * sign * math.Pi / 180
	nx, ny := math.Cos(a), math.Sin(a) // perpendicular to the lines
	dx, dy := -ny, nx
	rot := pc.degree%90 != 0
	tolU := 1.0
	if rot {
		tolU = 3
	}
	g := partsRegion([]data.LayerPart{part})
	lines := map[int64][]span{}
	var first float64
	have := false
	prevEnd := pt{}
	pendingConn := false
	for k, p := range paths {
		if len(p) != 2 {
			t.Fail("path %d has %d points", k, len(p))
			return false
		}
		r := toRing(p)
		u0, u1 := float64(r[0].x)*nx+float64(r[0].y)*ny, float64(r[1].x)*nx+float64(r[1].y)*ny
		v0, v1 := float64(r[0].x)*dx+float64(r[0].y)*dy, float64(r[1].x)*dx+float64(r[1].y)*dy
		isConn := math.Abs(u0-u1) > tolU+1
		if pendingConn {
			if isConn {
				t.Fail("path %d: two connections after each other", k)
				return false
			}
			if abs64(prevEnd.x-r[0].x) > 2 || abs64(prevEnd.y-r[0].y) > 2 {
				t.Fail("path %d starts at %v, the connection ends at %v", k, r[0], prevEnd)
				return false
			}
			pendingConn = false
		}
		if isConn {
			if !pc.zig {
				t.Fail("path %d is not parallel: %v (u %.1f %.1f)", k, r, u0, u1)
				return false
			}
			l := math.Hypot(u0-u1, v0-v1)
			if l > float64(pc.width+2*pc.dist)+4 {
				t.Fail("path %d: a connection of %.0f", k, l)
				return false
			}
			if k == 0 || abs64(prevEnd.x-r[0].x) > 2 || abs64(prevEnd.y-r[0].y) > 2 {
				t.Fail("path %d: the connection starts at %v, the line before ends at %v", k, r[0], prevEnd)
				return false
			}
			for f := 0.0; f <= 1; f += 1.0 / 32 {
				x, y := float64(r[0].x)+f*float64(r[1].x-r[0].x), float64(r[0].y)+f*float64(r[1].y-r[0].y)
				if !g.has(x, y) && g.dist(x, y) > 5 {
					t.Fail("path %d: the connection %v leaves the part", k, r)
					return false
				}
			}
			pendingConn = true
			prevEnd = r[1]
			continue
		}
		prevEnd = r[1]
		u := (u0 + u1) / 2
		if !have && *phase == math.MaxFloat64 {
			*phase = u
		}
		if !have {
			first = *phase
			have = true
		}
		q := (u - first) / float64(pc.dist)
		n := math.Round(q)
		if math.Abs(q-n)*float64(pc.dist) > tolU {
			t.Fail("path %d: line at %.1f, others at %.1f, distance %d", k, u, first, pc.dist)
			return false
		}
		lines[int64(n)] = append(lines[int64(n)], span{u: u, a: math.Min(v0, v1), b: math.Max(v0, v1)})
	}
	if pendingConn {
		t.Fail("the last path is a connection")
		return false
	}
	if *phase == math.MaxFloat64 {
		return true
	}
	// every scan line of the pattern has to be printed exactly where it is inside
	var um, uM = math.Inf(1), math.Inf(-1)
	for _, r := range g {
		for _, p := range r {
			u := float64(p.x)*nx + float64(p.y)*ny
			um, uM = math.Min(um, u), math.Max(uM, u)
		}
	}
	steep := 4.0
	if rot {
		steep = 6
	}
	for n := math.Floor((um - *phase) / float64(pc.dist)); n <= math.Ceil((uM-*phase)/float64(pc.dist)); n++ {
		u := *phase + n*float64(pc.dist)
		want, ok := g.scan(u, nx, ny, 6)
		got := lines[int64(n)]
		delete(lines, int64(n))
		if !ok {
			continue
		}
		used := make([]bool, len(got))
		for _, s := range want {
			steepA, steepB := steep+2.5*s.ca, steep+2.5*s.cb
			if s.b-s.a < steepA+steepB {
				for i, l := range got {
					if l.a > s.a-steepA-1 && l.b < s.b+steepB+1 {
						used[i] = true
					}
				}
				continue
			}
			hit := 0
			for i, l := range got {
				if l.b < s.a+1 || l.a > s.b-1 {
					continue
				}
				used[i] = true
				hit++
				short := 0.0
				if pc.zig {
					if s.b-s.a <= float64(pc.width)+steepA+steepB {
						// too short to be shortened in a sensible way
						if l.a < s.a-steepA || l.b > s.b+steepB {
							t.Fail("line %.0f..%.0f at %.0f leaves the part (%.0f..%.0f)", l.a, l.b, u, s.a, s.b)
							return false
						}
						continue
					}
					short = float64(pc.width / 2)
				}
				if math.Abs(l.a-short-s.a) > steepA || math.Abs(l.b+short-s.b) > steepB {
					t.Fail("line %.0f..%.0f at %.0f, the part reaches from %.0f to %.0f", l.a, l.b, u, s.a, s.b)
					return false
				}
			}
			if hit != 1 {
				t.Fail("%d lines at %.0f from %.0f to %.0f", hit, u, s.a, s.b)
				return false
			}
		}
		for i, l := range got {
			if !used[i] && l.b-l.a > 2*steep+8 {
				t.Fail("the line %.0f..%.0f at %.0f lies outside of the part", l.a, l.b, u)
				return false
			}
		}
	}
	for n, l := range lines {
		t.Fail("line number %d lies outside of the part: %v", n, l)
		return false
	}
	return true
}

func init() {
	register(&Check{ID: "C13", Level: "exploration",
		Rule:   "one evaluation = one area filled by a pattern for two layers; distinct = area and pattern",
		Assume: []string{"scan lines closer than 6 um to a corner of the area are not judged", "the sense of the rotation is not fixed, but has to be the same for all areas and layers"},
		Run: func(c *Ctx) {
			pats := []patternCase{
				{400, 400, 0, false, false}, {400, 400, 45, true, false}, {400, 1000, 90, false, true}, {401, 403, 0, true, true},
				{400, 2000, 30, true, false}, {350, 1751, -60, true, true}, {400, 700, 135, true, false}, {500, 500, 400, false, false}, {400, 2500, 45, true, true},
			}
			grids := []*grid{
				{xs: []int64{100000, 102513, 105021, 107507}, ys: []int64{50000, 52011, 54509, 57023}},
				{xs: []int64{-3003, -2405, 101, 20105}, ys: []int64{-9001, -7, 493, 3507}},
			}
			fillParts := func(t *T, parts []data.LayerPart, lo, hi pt, pc patternCase) {
				pat := clip.NewLinearPattern(data.Micrometer(pc.width), data.Micrometer(pc.dist), ring{lo}.path()[0], ring{hi}.path()[0], pc.degree, pc.rect, pc.zig)
				full := []data.LayerPart{part(ring{lo, {hi.x, lo.y}, hi, {lo.x, hi.y}})}
				try := func(sign float64) []string {
					sub := &T{c: t.c, quiet: true, section: t.section}
					for layer := 0; layer < 3; layer++ {
						phase := math.MaxFloat64
						for k, p := range append(full, parts...) {
							before := showParts([]data.LayerPart{p})
							r, err := pat.Fill(layer, p)
							if err != nil {
								sub.Fail("%v", err)
							} else if !checkFill(sub, r, p, pc, layer, sign, &phase, lo, hi) {
								sub.Fail("layer %d part %d %s: %v", layer, k, before, r)
							}
							if k == 0 && len(r) < 2 {
								sub.Fail("layer %d: only %d lines in the whole area", layer, len(r))
							}
							if showParts([]data.LayerPart{p}) != before {
								sub.Fail("the part was changed")
							}
							if sub.Failed() {
								return sub.msgs
							}
						}
					}
					return nil
				}
				if m := try(1); m != nil {
					if m2 := try(-1); m2 != nil {
						t.Fail("%v", m)
						t.Fail("with the other sense of rotation: %v", m2)
						return
					}
					t.Outcome("-")
				}
				t.Outcome(showParts(parts), pc)
			}
			fill := func(t *T, w cells, pc patternCase) {
				g := w.g
				m := int64(0) // room for at least some lines
				if g.xs[g.nx()]-g.xs[0] < 4*pc.dist || g.ys[g.ny()]-g.ys[0] < 4*pc.dist {
					m = 2 * pc.dist
				}
				fillParts(t, w.parts(), pt{g.xs[0] - m, g.ys[0] - m}, pt{g.xs[g.nx()] + m, g.ys[g.ny()] + m}, pc)
			}
			ps, sh := polygons3(9, false), polygons3(9, true)
			c.Run("all polygons", len(ps)*2*len(pats), func(t *T, i int) {
				r, pc := ps[i%len(ps)], pats[i/len(ps)/2]
				if i/len(ps)%2 == 1 {
					r = sh[i%len(ps)]
				}
				t.Key("%v %+v", r, pc)
				fillParts(t, []data.LayerPart{part(r)}, pt{-100, -2100}, pt{14000, 8100}, pc)
			})
			eachRound(c, "round areas", len(pats), func(t *T, r ring, v int) {
				lo, hi := r.bounds()
				fillParts(t, []data.LayerPart{part(r)}, pt{lo.x - 5000, lo.y - 5000}, pt{hi.x + 5000, hi.y + 5000}, pats[v])
			})
			eachMixed(c, "areas with holes of all shapes", 12, 1, len(pats), func(t *T, x mixed, i, v int) {
				fillParts(t, x.parts(), pt{-14000, -14500}, pt{15000, 14000}, pats[v])
			})
			c.Run("areas of 3x3 cells", 512*len(pats)*len(grids), func(t *T, i int) {
				pc := pats[i/512%len(pats)]
				w := cellsFromMask(grids[i/512/len(pats)], i%512)
				t.Key("%v %+v", w, pc)
				fill(t, w, pc)
			})
			// all angles, quarter turns in particular, over several turns in both directions
			var degs []int
			for d := -720; d <= 720; d += 15 {
				degs = append(degs, d)
			}
			for d := 0; d <= 360; d++ {
				if d%15 != 0 && (c.Thorough() || d%15 == 1 || d%90 == 89 || d%90 == 44 || d%15 == 8) {
					degs = append(degs, d, -d)
				}
			}
			shapes := []int{511, 0x1ef, 0xb7, 0x49}
			c.Run("all angles", len(degs)*4*len(shapes)*len(grids), func(t *T, i int) {
				pc := patternCase{[]int64{400, 353}[i%2], []int64{700, 1201}[i%2], degs[i/4/len(shapes)/len(grids)], i&1 != 0, i&2 != 0}
				w := cellsFromMask(grids[i/4/len(shapes)%len(grids)], shapes[i/4%len(shapes)])
				t.Key("%v %+v", w, pc)
				fill(t, w, pc)
			})
			bigAreas(c, func(name string, n int, mk func(i int) cells) {
				c.Run(name, n*c.Pick(3, len(pats)), func(t *T, i int) {
					pc := pats[(i/n*4+i)%len(pats)]
					w := mk(i % n)
					g := &grid{}
					for k, x := range w.g.xs {
						g.xs = append(g.xs, x+int64(k*k)*7%13)
					}
					for k, y := range w.g.ys {
						g.ys = append(g.ys, y+int64(k*k)*5%11)
					}
					w.g = g
					t.Key("%d %v %+v", i%n, w, pc)
					fill(t, w, pc)
				})
			})
			if c.Thorough() {
				g4 := &grid{xs: []int64{0, 2003, 3505, 4999, 9001}, ys: []int64{0, 3003, 5501, 7007, 8009}}
				c.Run("areas of 4x4 cells", 1<<16*2, func(t *T, i int) {
					pc := pats[[]int{1, 5}[i>>16]]
					w := cellsFromMask(g4, i&(1<<16-1))
					t.Key("%v %+v", w, pc)
					fill(t, w, pc)
				})
			}
		}})
}
