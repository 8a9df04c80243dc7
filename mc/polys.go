package main

import (
	"fmt"
	"math"
	"sync"

	"github.com/aligator/goslice/clip"
	"github.com/aligator/goslice/data"
)

// ---- areas bounded by arbitrary simple polygons ----

var polyCache sync.Map

// polygons3 returns all simple polygons over a 3x3 lattice with at most n corners; the lattice is sheared, so that
// most edges have unusual directions if shear is set.
func polygons3(n int, shear bool) []ring {
	return polygonsOf(3, 3, n, shear)
}

func polygonsOf(nx, ny, n int, shear bool) []ring {
	k := fmt.Sprint(nx, ny, n, shear)
	if r, ok := polyCache.Load(k); ok {
		return r.([]ring)
	}
	ps := latticePolygons(nx, ny, 5003, 4001, n)
	if shear {
		for _, r := range ps {
			for i, p := range r {
				r[i] = pt{p.x + p.y/3, p.y - p.x/5}
			}
		}
	}
	polyCache.Store(k, ps)
	return ps
}

// sameArea compares parts with the area given by has, whose border runs along (some of) the lines of border.
func sameArea(t *T, what string, parts []data.LayerPart, has func(x, y float64) bool, border region, tol float64) bool {
	g := partsRegion(parts)
	for _, r := range g {
		for i := range r {
			a, b := r[i], r[(i+1)%len(r)]
			for _, f := range []float64{0, 0.25, 0.5, 0.75} {
				x, y := float64(a.x)+f*float64(b.x-a.x), float64(a.y)+f*float64(b.y-a.y)
				if d := border.dist(x, y); d > tol {
					t.Fail("%s: the border of the result at (%.0f,%.0f) is %.0f off; parts %s", what, x, y, d, showParts(parts))
					return false
				}
			}
		}
	}
	probe := func(x, y float64) bool {
		if border.dist(x, y) < tol*1.2 {
			return true
		}
		if want := has(x, y); g.has(x, y) != want {
			t.Fail("%s: the point (%.0f,%.0f) is inside=%v, want %v; parts %s", what, x, y, !want, want, showParts(parts))
			return false
		}
		return true
	}
	lo, hi := pt{math.MaxInt32, math.MaxInt32}, pt{math.MinInt32, math.MinInt32}
	for _, r := range border {
		for i := range r {
			a, b := r[i], r[(i+1)%len(r)]
			lo, hi = pt{min(lo.x, a.x), min(lo.y, a.y)}, pt{max(hi.x, a.x), max(hi.y, a.y)}
			l := math.Hypot(float64(b.x-a.x), float64(b.y-a.y))
			if l == 0 {
				continue
			}
			nx, ny := -float64(b.y-a.y)/l*tol*2, float64(b.x-a.x)/l*tol*2
			for _, f := range []float64{0.05, 0.2, 0.4, 0.6, 0.8, 0.95} {
				x, y := float64(a.x)+f*float64(b.x-a.x), float64(a.y)+f*float64(b.y-a.y)
				if !probe(x+nx, y+ny) || !probe(x-nx, y-ny) {
					return false
				}
			}
		}
	}
	for i := 0; i < 8; i++ {
		for j := 0; j < 8; j++ {
			if !probe(float64(lo.x)-500+(float64(hi.x-lo.x)+1000)*float64(i)/7, float64(lo.y)-500+(float64(hi.y-lo.y)+1000)*float64(j)/7) {
				return false
			}
		}
	}
	return true
}

// wellFormed checks the orientation of outlines and holes, and that holes lie in their outlines.
func wellFormed(t *T, what string, parts []data.LayerPart) bool {
	for k, p := range parts {
		o := toRing(p.Outline())
		if o.area2() <= 0 {
			t.Fail("%s: the outline of part %d is not counter clockwise: %v", what, k, o)
			return false
		}
		for _, h := range p.Holes() {
			r := toRing(h)
			if r.area2() >= 0 {
				t.Fail("%s: a hole of part %d is not clockwise: %v", what, k, r)
				return false
			}
			if x, y := r.innerPoint(); !o.has(x, y) {
				t.Fail("%s: a hole of part %d is not inside of its outline: %v %v", what, k, r, o)
				return false
			}
		}
	}
	return true
}

func part(outline ring, holes ...ring) data.LayerPart {
	var h data.Paths
	for _, r := range holes {
		h = append(h, r.path())
	}
	return data.NewBasicLayerPart(outline.path(), h)
}

// polyWays explores ways through single polygons with and without a hole (C27).
func polyWays(c *Ctx) {
	ps := polygons3(9, false)
	sh := polygons3(9, true)
	c.Run("ways through polygons", len(ps)*4, func(t *T, i int) {
		r := ps[i%len(ps)]
		if i/len(ps)%2 == 1 {
			r = sh[i%len(ps)]
		}
		parts := []data.LayerPart{part(r)}
		if i/len(ps)/2 == 1 {
			x, y := r.innerPoint()
			h := ring{{int64(x) - 100, int64(y) - 60}, {int64(x) + 90, int64(y) - 20}, {int64(x) + 20, int64(y) + 110}}
			for _, p := range h {
				if !r.has(float64(p.x), float64(p.y)) || (region{r}).dist(float64(p.x), float64(p.y)) < 30 {
					return
				}
			}
			parts = []data.LayerPart{part(r, h.reversed())}
		}
		t.Key("%s", showParts(parts))
		g := partsRegion(parts)
		var pts []pt
		for x := int64(-700); x < 13500; x += int64(c.Pick(2411, 1207)) {
			for y := int64(-1700); y < 9500; y += int64(c.Pick(1973, 987)) {
				pts = append(pts, pt{x, y})
			}
		}
		cl := clip.NewClipper()
		before := showParts(parts)
		n := 0
		for _, p := range pts {
			for _, q := range pts {
				if p == q {
					continue
				}
				want := g.leaves(p, q, 2)
				if want < 0 {
					continue
				}
				if got, ok := cl.IsCrossingPerimeter(parts, ring{p, q}.path()); !ok || got != (want == 1) {
					t.Fail("from %v to %v: crossing=%v (%v), want %v", p, q, got, ok, want == 1)
					return
				}
				n++
			}
		}
		if showParts(parts) != before {
			t.Fail("the parts have been changed")
		}
		t.States(n, n)
		t.Outcome(i)
	})
}

// polyPairs combines pairs of polygons (C10).
func polyPairs(c *Ctx) {
	ps := polygons3(c.Pick(5, 9), false)
	check := func(t *T, a, b ring) {
		cl := clip.NewClipper()
		border := region{a, b}
		for k, f := range []func(a, b []data.LayerPart) ([]data.LayerPart, bool){cl.Union, cl.Intersection, cl.Difference} {
			what := []string{"union", "intersection", "difference"}[k]
			r, ok := f([]data.LayerPart{part(a)}, []data.LayerPart{part(b)})
			if !ok {
				t.Fail("%s failed", what)
				return
			}
			has := func(x, y float64) bool {
				ia, ib := a.has(x, y), b.has(x, y)
				return [3]bool{ia || ib, ia && ib, ia && !ib}[k]
			}
			if !sameArea(t, what, r, has, border, 4) || !wellFormed(t, what, r) {
				return
			}
			t.Outcome(len(r), math.Round(partsArea(r)/1000))
		}
	}
	c.Run("pairs of polygons", len(ps)*len(ps)*2, func(t *T, i int) {
		a, b := ps[i%len(ps)], ps[i/len(ps)%len(ps)]
		if i >= len(ps)*len(ps) {
			b = b.shifted(1234, -777)
		}
		t.Key("%v and %v", a, b)
		check(t, a, b)
	})
	eachRound(c, "round areas and others", 3, func(t *T, r ring, v int) {
		lo, hi := r.bounds()
		b := ring{{lo.x / 3, lo.y - 500}, {hi.x / 2, lo.y - 700}, {hi.x / 3, hi.y + 300}, {lo.x / 4, hi.y + 900}}
		switch v {
		case 1:
			b = r.shifted((hi.x-lo.x)/3, (hi.y-lo.y)/4)
		case 2:
			b = r.scaled(7, 10)
		}
		if check(t, r, b); !t.Failed() {
			check(t, b, r)
		}
	})
}

// polyInsets checks the offsets of all polygons (C11).
func polyInsets(c *Ctx) {
	ps, sh := polygons3(9, false), polygons3(9, true)
	sets := [][3]int64{{400, -200, 3}, {-400, 400, 3}, {1000, -100, 2}, {-1001, 300, 3}}
	check := func(t *T, r ring, s [3]int64, x0, y0, dx, dy float64) {
		in := part(r)
		res := clip.NewClipper().Inset(in, data.Micrometer(s[0]), int(s[2]), data.Micrometer(s[1]))
		if len(res) != int(s[2]) {
			t.Fail("%d insets", len(res))
			return
		}
		if !samePath(toRing(in.Outline()), r) {
			t.Fail("the part was changed to %v", in.Outline())
		}
		border := region{r}
		for k := range res {
			d := float64(s[1] - int64(k)*s[0])
			if !wellFormed(t, fmt.Sprintf("offset %.0f", d), res[k]) {
				return
			}
			g := partsRegion(res[k])
			for _, r := range g {
				for j := range r {
					p := r[j]
					if e := border.dist(float64(p.x), float64(p.y)); e < math.Abs(d)-4 || e > math.Abs(d)*math.Sqrt2+4 {
						t.Fail("offset %.0f: the corner %v is %.0f away from the border", d, p, e)
						return
					}
				}
			}
			for x := -4; x < 22; x++ {
				for y := -6; y < 22; y++ {
					px, py := x0+float64(x)*dx+13, y0+float64(y)*dy+7
					dep := border.dist(px, py)
					if !r.has(px, py) {
						dep = -dep
					}
					must, mustNot := dep > -d+4, dep < -d-4
					if d > 0 {
						mustNot = dep < -d*math.Sqrt2-4
					} else {
						must = dep > -d*math.Sqrt2+4
					}
					if in := g.has(px, py); (must && !in) || (mustNot && in) {
						t.Fail("offset %.0f: the point (%.0f,%.0f) is inside=%v, depth %.0f; parts %s", d, px, py, in, dep, showParts(res[k]))
						return
					}
				}
			}
			t.Outcome(math.Round(partsArea(res[k])))
		}
	}
	c.Run("insets of polygons", len(ps)*len(sets)*2, func(t *T, i int) {
		r := ps[i%len(ps)]
		s := sets[i/len(ps)%len(sets)]
		if i/len(ps)/len(sets) == 1 {
			r = sh[i%len(ps)]
		}
		t.Key("%v offset %d initial %d count %d", r, s[0], s[1], s[2])
		check(t, r, s, 0, 0, 701, 603)
	})
	eachRound(c, "insets of round areas", len(sets), func(t *T, r ring, v int) {
		lo, hi := r.bounds()
		check(t, r, sets[v], float64(lo.x), float64(lo.y), float64(hi.x-lo.x)/18, float64(hi.y-lo.y)/16)
	})
}

// polyContours partitions pairs of contours, which may cross each other (C09).
func polyContours(c *Ctx) {
	ps := polygons3(c.Pick(5, 9), false)
	check := func(t *T, i int, a, b ring, tol float64) {
		rings := []ring{a, b}
		if i%3 == 1 {
			rings = []ring{a.reversed(), b.rotated(1)}
		} else if i%3 == 2 {
			rings = []ring{b, a.reversed().rotated(2)}
		}
		r, ok := generateParts(t, rings)
		if !ok {
			return
		}
		has := func(x, y float64) bool { return a.has(x, y) != b.has(x, y) }
		if !sameArea(t, "parts", r, has, region{a, b}, tol) || !wellFormed(t, "parts", r) {
			return
		}
		// no place is in two parts
		area := 0.0
		for _, p := range r {
			area += partsArea([]data.LayerPart{p})
		}
		t.Outcome(len(r), math.Round(area/1000))
	}
	c.Run("pairs of polygons", len(ps)*len(ps)*2, func(t *T, i int) {
		a, b := ps[i%len(ps)], ps[i/len(ps)%len(ps)]
		if i >= len(ps)*len(ps) {
			b = b.scaled(2, 3).shifted(321, 123)
		} else {
			b = b.shifted(1234, -777)
		}
		t.Key("%v and %v", a, b)
		check(t, i, a, b, 6)
	})
	eachRound(c, "round contours", 6, func(t *T, r ring, v int) {
		lo, hi := r.bounds()
		b := r.scaled(3, 5)
		if v >= 3 {
			b = r.shifted(hi.x-lo.x+1000, 0)
		}
		check(t, v, r, b, 12)
	})
}

// triangulate cuts a simple counter clockwise polygon into triangles.
func triangulate(r ring) (out [][3]int) {
	idx := make([]int, len(r))
	for i := range idx {
		idx[i] = i
	}
	cross := func(a, b, c pt) int64 { return (b.x-a.x)*(c.y-a.y) - (b.y-a.y)*(c.x-a.x) }
	for len(idx) > 3 {
		found := false
		for i := range idx {
			n := len(idx)
			ia, ib, ic := idx[(i+n-1)%n], idx[i], idx[(i+1)%n]
			a, b, d := r[ia], r[ib], r[ic]
			if cross(a, b, d) <= 0 {
				continue
			}
			clear := true
			for _, k := range idx {
				if k == ia || k == ib || k == ic {
					continue
				}
				if cross(a, b, r[k]) >= 0 && cross(b, d, r[k]) >= 0 && cross(d, a, r[k]) >= 0 {
					clear = false
					break
				}
			}
			if clear {
				out = append(out, [3]int{ia, ib, ic})
				idx = append(append([]int{}, idx[:i]...), idx[i+1:]...)
				found = true
				break
			}
		}
		if !found {
			panic(fmt.Sprint("no ear in ", r))
		}
	}
	return append(out, [3]int{idx[0], idx[1], idx[2]})
}

// extrude is the closed surface of a prism over any simple polygon (counter clockwise). Its top is moved by shift.
func extrude(r ring, shift pt, z0, z1 int64) (m mesh) {
	at := func(i int, top bool) v3 {
		p := r[i%len(r)]
		if top {
			return v3{p.x + shift.x, p.y + shift.y, z1}
		}
		return v3{p.x, p.y, z0}
	}
	for i := range r {
		m = append(m, tri{at(i, false), at(i+1, false), at(i+1, true)}, tri{at(i, false), at(i+1, true), at(i, true)})
	}
	for _, f := range triangulate(r) {
		m = append(m, tri{at(f[0], true), at(f[1], true), at(f[2], true)}, tri{at(f[0], false), at(f[2], false), at(f[1], false)})
	}
	return
}

// polyPrisms compares the layers of straight and oblique prisms with their sections (C07).
func polyPrisms(c *Ctx) {
	ps := polygonsOf(4, 3, c.Pick(7, 12), false)
	sh := polygons3(9, true)
	all := append(append([]ring{}, ps...), sh...)
	shifts := []pt{{0, 0}, {1300, -700}}
	c.Run("straight and oblique prisms", len(all)*len(shifts), func(t *T, i int) {
		r, s := all[i%len(all)], shifts[i/len(all)]
		t.Key("%v top moved by %v", r, s)
		o := baseOpts(func(o *data.Options) { o.Print.InitialLayerThickness = 200; o.Print.LayerThickness = 300 })
		m := extrude(r, s, 0, 1000).rotate(i % 3)
		ls, om, err := slice(&o, m)
		if err != nil {
			t.Fail("%v", err)
			return
		}
		ml, _ := m.bounds()
		d := fromVec(om.Min()).sub(ml)
		if len(ls) != 3 {
			t.Fail("%d layers", len(ls))
		}
		for k, l := range ls {
			z := 200 + int64(k)*300
			w := r.shifted(d.x+s.x*z/1000, d.y+s.y*z/1000)
			if !sameArea(t, fmt.Sprintf("layer at %d", z), l.LayerParts(), w.has, region{w}, 12) || !wellFormed(t, fmt.Sprintf("layer at %d", z), l.LayerParts()) {
				return
			}
			t.Outcome(w)
		}
	})
}

// roundShapes compares the layers of prisms, cones and turned shapes with many facets with their sections (C07).
func roundShapes(c *Ctx) {
	type profile struct{ z, scale []int64 }
	profiles := []profile{
		{[]int64{0, 1000}, []int64{1000, 1000}},
		{[]int64{0, 1000, 1000, 1500}, []int64{1000, 1000, 600, 600}}, // a step
		{[]int64{0, 1000, 2000, 3000}, []int64{400, 1000, 900, 300}},
		{[]int64{0, 2000}, []int64{1000, 0}},
		{[]int64{0, 6000}, []int64{1000, 0}},
		{[]int64{0, 200, 9000}, []int64{10, 10, 1000}},
	}
	// (the second one has layers exactly at the heights of the edges)
	thick := []struct{ first, others int64 }{{170, 300}, {200, 200}}
	eachRound(c, "round shapes", len(profiles)*len(thick), func(t *T, r ring, v int) {
		p := profiles[v%len(profiles)]
		th := thick[v/len(profiles)]
		// (points nearer than the distance below which they are joined together, are out of the question)
		for i := range r {
			for k := 1; k <= 2; k++ {
				a, b := r[i], r[(i+k)%len(r)]
				for _, s := range p.scale {
					if s > 0 && math.Hypot(float64(b.x-a.x), float64(b.y-a.y))*float64(s)/1000 < 31 {
						return
					}
				}
			}
		}
		o := baseOpts(func(o *data.Options) {
			o.Print.InitialLayerThickness, o.Print.LayerThickness = data.Micrometer(th.first), data.Micrometer(th.others)
		})
		m := turned(r, p.z, p.scale)
		ls, om, err := slice(&o, m)
		if err != nil {
			t.Fail("%v", err)
			return
		}
		ml, _ := m.bounds()
		d := fromVec(om.Min()).sub(ml)
		if want := int((p.z[len(p.z)-1]-th.first)/th.others) + 1; len(ls) != want {
			t.Fail("%d layers, want %d", len(ls), want)
			return
		}
		for k, l := range ls {
			z := th.first + int64(k)*th.others
			i := 0
			for p.z[i+1] < z {
				i++
			}
			f := float64(z-p.z[i]) / float64(p.z[i+1]-p.z[i])
			f = (float64(p.scale[i]) + f*float64(p.scale[i+1]-p.scale[i])) / 1000
			var w ring
			for _, q := range r {
				w = append(w, pt{d.x + int64(math.Round(float64(q.x)*f)), d.y + int64(math.Round(float64(q.y)*f))})
			}
			if lo, hi := w.bounds(); hi.x-lo.x < 700 || hi.y-lo.y < 700 {
				continue // (too small to be more than rounding)
			}
			if !sameArea(t, fmt.Sprintf("layer at %d", z), l.LayerParts(), w.has, region{w}, 15) || !wellFormed(t, fmt.Sprintf("layer at %d", z), l.LayerParts()) {
				return
			}
			if len(l.LayerParts()) != 1 {
				t.Fail("layer at %d: %d parts", z, len(l.LayerParts()))
				return
			}
			t.Outcome(w)
		}
	})
}

// polyWalls compares the perimeters of prisms over all polygons with the distance from the border (C12).
func polyWalls(c *Ctx) {
	ps := polygons3(9, false)
	sh := polygons3(9, true)
	sets := []struct {
		ew    data.Micrometer
		count int
	}{{400, 2}, {350, 4}, {601, 3}}
	check := func(t *T, r ring, m mesh, ew data.Micrometer, count int, tol float64) {
		o := baseOpts(func(o *data.Options) { o.Printer.ExtrusionWidth = ew; o.Print.InsetCount = count })
		p := runPipe(o, m)
		if p.err != nil {
			t.Fail("%v", p.err)
			return
		}
		pr := parseGCode(p.gcode)
		pr.check(t)
		ml, _ := m.bounds()
		d := fromVec(p.om.Min()).sub(ml)
		w := r.shifted(d.x, d.y)
		for k, ks := range layerTracks(pr) {
			checkPolyWalls(t, ks, region{w}, int64(ew), count, tol)
			if t.Failed() {
				t.Fail("in layer %d", k)
				return
			}
		}
		t.Outcome(w)
	}
	c.Run("prisms over all polygons", len(ps)*2*len(sets), func(t *T, i int) {
		r, st := ps[i%len(ps)], sets[i/len(ps)/2]
		if i/len(ps)%2 == 1 {
			r = sh[i%len(ps)]
		}
		t.Key("%v width %d insets %d", r, st.ew, st.count)
		check(t, r, extrude(r, pt{}, 0, 200), st.ew, st.count, 16)
	})
	slopes(c, func(name string, n int, mk func(i int) shape) {
		c.Run(name, n*c.Pick(1, len(sets)), func(t *T, i int) {
			s, st := mk(i%n), sets[(i+i/n)%len(sets)]
			t.Key("%s width %d insets %d", s.name, st.ew, st.count)
			o := baseOpts(func(o *data.Options) {
				o.Printer.ExtrusionWidth = data.Micrometer(st.ew)
				o.Print.InsetCount = st.count
				o.Print.InfillPercent = 0
				o.Print.NumberTopLayers, o.Print.NumberBottomLayers = 0, 0
			})
			p := runPipe(o, s.m)
			if p.err != nil {
				t.Fail("%v", p.err)
				return
			}
			pr := parseGCode(p.gcode)
			pr.check(t)
			ks := layerTracks(pr)
			for k, l := range p.sliced {
				w := partsRegion(l.LayerParts())
				checkPolyWalls(t, ks[k], w, int64(st.ew), st.count, 24)
				if t.Failed() {
					t.Fail("in layer %d", k)
					return
				}
				t.Outcome(len(w), len(ks[k]))
			}
		})
	})
	eachRound(c, "round prisms", len(sets), func(t *T, r ring, v int) {
		check(t, r, turned(r, []int64{0, 400}, []int64{1000, 1000}), sets[v].ew, sets[v].count, 24)
	})
}

func checkPolyWalls(t *T, ks []track, w region, ew int64, count int, tol float64) {
	border := w
	if len(w) == 0 {
		return
	}
	byInset := make([][]ring, count)
	for _, k := range ks {
		outer := k.typ == "WALL-OUTER"
		if !outer && k.typ != "WALL-INNER" {
			continue
		}
		if !k.closed() {
			t.Fail("line %d: the perimeter is not closed: %v", k.line, k.pts)
			return
		}
		d := math.Inf(1)
		for i := range k.pts[1:] {
			a, b := k.pts[i], k.pts[i+1]
			for _, f := range []float64{0, 0.25, 0.5, 0.75} {
				x, y := float64(a.x)+f*float64(b.x-a.x), float64(a.y)+f*float64(b.y-a.y)
				e := border.dist(x, y)
				if !w.has(x, y) {
					e = -e
				}
				d = math.Min(d, e)
			}
		}
		q := d/float64(ew) - 0.5
		inset := int(math.Round(q))
		if math.Abs(q-float64(inset))*float64(ew) > tol || inset < 0 || inset >= count {
			t.Fail("line %d: a perimeter (%s) runs %.0f beside the border with a line width of %d and %d insets: %v", k.line, k.typ, d, ew, count, k.pts)
			return
		}
		if outer != (inset == 0) {
			t.Fail("line %d: perimeter number %d is printed as %s", k.line, inset, k.typ)
			return
		}
		byInset[inset] = append(byInset[inset], k.ring())
	}
	lo, hi := w[0].bounds()
	for _, r := range w {
		a, b := r.bounds()
		lo, hi = pt{min(lo.x, a.x), min(lo.y, a.y)}, pt{max(hi.x, b.x), max(hi.y, b.y)}
	}
	for n, rings := range byInset {
		d := float64(ew)/2 + float64(n)*float64(ew)
		g := partsRegion(ringsRegion(rings))
		for x := lo.x - 150; x < hi.x+400; x += 397 {
			for y := lo.y - 150; y < hi.y+400; y += 331 {
				e := border.dist(float64(x), float64(y))
				if !w.has(float64(x), float64(y)) {
					e = -e
				}
				must, mustNot := e > d*math.Sqrt2+tol, e < d-tol
				if in := g.has(float64(x), float64(y)); (must && !in) || (mustNot && in) {
					t.Fail("perimeter %d: the point (%d,%d) is inside=%v, %.0f from the border; %v", n, x, y, in, e, rings)
					return
				}
			}
		}
	}
}
