package main

import (
	"fmt"
	"math"

	"github.com/aligator/goslice/clip"
	"github.com/aligator/goslice/data"
)

// ---- areas of any shape with several holes of any shape, and islands in the holes ----

// mixedShapes fit into a box of 8 x 8 mm around 0,0 (counter clockwise).
var mixedShapes = []ring{
	nil,
	{{-3503, -2001}, {3307, -3102}, {811, 3405}},
	{{-3111, 3004}, {-2222, -3006}, {3333, -517}},
	{{-3000, -3000}, {3000, -3000}, {3000, 3000}, {-3000, 3000}},
	{{-3500, 211}, {-97, -3502}, {3404, 308}, {105, 3391}},
	{{-3400, -3100}, {3300, -3300}, {3100, 1107}, {617, 913}, {403, 3302}, {-3205, 3104}}, // L
	{{-3410, -1010}, {3390, -1807}, {3611, 907}, {-3309, 1404}},                           // flat
	{{-3003, -3307}, {3103, -3209}, {3509, 3004}, {0, -407}, {-3402, 3203}},               // V
	{{-1207, -3404}, {1308, -3309}, {3405, -1201}, {3302, 1403}, {1106, 3502}, {-1404, 3307}, {-3501, 1202}, {-3308, -1306}},
	{{-200, -3504}, {311, -3401}, {402, 3305}, {-305, 3403}}, // narrow
}

// mixed is an area: an outline with holes, in which islands may lie.
type mixed struct {
	name           string
	outer          ring
	holes, islands []ring // all of them counter clockwise
}

func (x mixed) region() region {
	g := region{x.outer}
	for _, h := range x.holes {
		g = append(g, h.reversed())
	}
	return append(g, x.islands...)
}

func (x mixed) shifted(d pt) mixed {
	move := func(rs []ring) (out []ring) {
		for _, r := range rs {
			out = append(out, r.shifted(d.x, d.y))
		}
		return
	}
	return mixed{x.name, x.outer.shifted(d.x, d.y), move(x.holes), move(x.islands)}
}

func (x mixed) parts() []data.LayerPart {
	var hs []ring
	for _, h := range x.holes {
		hs = append(hs, h.reversed())
	}
	out := []data.LayerPart{part(x.outer, hs...)}
	for _, r := range x.islands {
		out = append(out, part(r))
	}
	return out
}

// mesh is the closed surface of the prism over the area. order changes the order of its parts.
func (x mixed) mesh(z0, z1 int64, order int) (m mesh) {
	ms := []mesh{extrude(x.outer, pt{}, z0, z1)}
	for _, h := range x.holes {
		e := extrude(h, pt{}, z0, z1)
		for k := range e {
			e[k][1], e[k][2] = e[k][2], e[k][1]
		}
		ms = append(ms, e)
	}
	for _, r := range x.islands {
		ms = append(ms, extrude(r, pt{}, z0, z1))
	}
	for k := range ms {
		if order&1 == 1 {
			m = append(m, ms[len(ms)-1-k]...)
		} else {
			m = append(m, ms[(k+order/2)%len(ms)]...)
		}
	}
	return
}

const mixedSites = 4

// numMixed is the number of areas mixedArea knows.
var numMixed = pow(len(mixedShapes), mixedSites)

func pow(a, n int) int {
	p := 1
	for ; n > 0; n-- {
		p *= a
	}
	return p
}

func mixedArea(i int) mixed {
	x := mixed{name: fmt.Sprintf("shapes %04d", i), outer: ring{{-9003, -9105}, {9107, -8901}, {9004, 9203}, {-8905, 9008}}}
	if i%3 == 1 {
		x.outer = ring{{-9107, -9003}, {107, -10504}, {9408, -9207}, {10311, 213}, {9107, 9405}, {1208, 9106}, {-9004, 10107}, {-9215, 3307}, {-8903, -2204}}
	}
	for k := 0; k < mixedSites; k++ {
		s := mixedShapes[i%len(mixedShapes)]
		i /= len(mixedShapes)
		if s == nil {
			continue
		}
		at := pt{int64(k%2)*9000 - 4500, int64(k/2)*9000 - 4500}
		x.holes = append(x.holes, s.shifted(at.x, at.y))
		// an island in the bigger ones
		if n := len(s); k%2 == 1 && (n == 4 && s[0].x < -2000 && s[0].x > -3100 || n == 8) {
			in := s.scaled(1, 2)
			if k == 1 {
				in = ring{in[0], in[1], in[2]}
			}
			x.islands = append(x.islands, in.shifted(at.x, at.y))
		}
	}
	return x
}

// eachMixed explores the areas, in the quick tier one of step of them.
func eachMixed(c *Ctx, name string, step, thorough, variants int, f func(t *T, x mixed, i, variant int)) {
	if c.Thorough() {
		step = thorough
	}
	n := (numMixed + step - 1) / step
	c.Run(name, n*variants, func(t *T, i int) {
		k := i % n
		// (every step meets all shapes in all sites)
		x := mixedArea((k*step + k%step) % numMixed)
		t.Key("%s variant %d", x.name, i/n)
		f(t, x, k, i/n)
	})
}

// insetRegion compares an offset of the area (inwards if d is negative) with the definition of offsets: distances from
// the border count, but at corners, which may be rounded or cut off at up to the square root of 2 of the distance.
func insetRegion(t *T, what string, got []data.LayerPart, g region, d, tol float64) bool {
	r := partsRegion(got)
	var tips []pt // the corners around which the offset may be bigger
	for _, q := range g {
		for k, b := range q {
			a, e := q[(k+len(q)-1)%len(q)], q[(k+1)%len(q)]
			cross := (b.x-a.x)*(e.y-b.y) - (b.y-a.y)*(e.x-b.x)
			if d < 0 && cross < 0 || d > 0 && cross > 0 {
				tips = append(tips, b)
			}
		}
	}
	near := func(x, y float64) bool {
		for _, p := range tips {
			if math.Hypot(x-float64(p.x), y-float64(p.y)) < math.Abs(d)*math.Sqrt2+tol {
				return true
			}
		}
		return false
	}
	probe := func(x, y float64) bool {
		e := g.dist(x, y)
		if !g.has(x, y) {
			e = -e
		}
		// e: the depth in the area
		var want bool
		switch {
		case math.Abs(e+d) < tol:
			return true
		case near(x, y) && d < 0 && e+d > 0, near(x, y) && d > 0 && e+d < 0 && e < 0:
			return true // either way
		default:
			want = e+d > 0
		}
		if in := r.has(x, y); in != want {
			t.Fail("%s: the point (%.0f,%.0f) is inside=%v, %.0f deep in the area; parts %s", what, x, y, in, e, showParts(got))
			return false
		}
		return true
	}
	for _, q := range r {
		for k := range q {
			a, b := q[k], q[(k+1)%len(q)]
			for _, f := range []float64{0, 0.5} {
				x, y := float64(a.x)+f*float64(b.x-a.x), float64(a.y)+f*float64(b.y-a.y)
				if e := g.dist(x, y); e < math.Abs(d)-tol || e > math.Abs(d)*math.Sqrt2+tol || (e > math.Abs(d)+tol && !near(x, y)) {
					t.Fail("%s: the border of the result at (%.0f,%.0f) is %.0f away from the border of the area; parts %s", what, x, y, e, showParts(got))
					return false
				}
			}
		}
	}
	for _, q := range g {
		for k := range q {
			a, b := q[k], q[(k+1)%len(q)]
			l := math.Hypot(float64(b.x-a.x), float64(b.y-a.y))
			nx, ny := float64(b.y-a.y)/l, -float64(b.x-a.x)/l
			for _, f := range []float64{0.06, 0.3, 0.5, 0.8, 0.96} {
				x, y := float64(a.x)+f*float64(b.x-a.x), float64(a.y)+f*float64(b.y-a.y)
				for _, u := range []float64{-2.2, -1.5, -1, -0.6, -0.2, 0.2, 0.6, 1, 1.5, 2.2} {
					if !probe(x+nx*(d*u+2*tol), y+ny*(d*u+2*tol)) {
						return false
					}
				}
			}
		}
	}
	lo, hi := g[0].bounds()
	for x := float64(lo.x) - 411; x < float64(hi.x)+500; x += 1013 {
		for y := float64(lo.y) - 377; y < float64(hi.y)+500; y += 877 {
			if !probe(x, y) {
				return false
			}
		}
	}
	return true
}

// mixedContours partitions the contours in any order and direction (C09).
func mixedContours(c *Ctx) {
	eachMixed(c, "holes of all shapes", 1, 1, 3, func(t *T, x mixed, i, v int) {
		rings := append([]ring{}, x.region()...)
		for k := range rings {
			rings[k] = rings[k].rotated((i + k) % len(rings[k]))
			if (i>>uint(k%5)+v)&1 == 1 {
				rings[k] = rings[k].reversed()
			}
		}
		n := len(rings)
		for k := range rings {
			j := (k*7 + i + v*3) % n
			rings[k], rings[j] = rings[j], rings[k]
		}
		ps, ok := generateParts(t, rings)
		if !ok || !sameArea(t, "parts", ps, x.region().has, x.region(), 4) || !wellFormed(t, "parts", ps) {
			return
		}
		if len(ps) != 1+len(x.islands) {
			t.Fail("%d parts, want %d: %s", len(ps), 1+len(x.islands), showParts(ps))
		}
		t.Outcome(x.name, len(ps))
	})
}

// mixedOperations combines the areas with others (C10).
func mixedOperations(c *Ctx) {
	eachMixed(c, "areas with holes of all shapes", 3, 1, 4, func(t *T, x mixed, i, v int) {
		y := mixedArea((i*37 + 11) % numMixed).shifted(pt{4111, -1307})
		switch v {
		case 1:
			y = mixedArea((i*101 + 5) % numMixed).shifted(pt{-307, 211})
		case 2: // only a triangle
			y = mixed{outer: ring{{-3003, -15007}, {5011, 2003}, {-9017, 11003}}}
		case 3: // the outline without any hole
			y = mixed{outer: x.outer}
		}
		cl := clip.NewClipper()
		a, b := x.region(), y.region()
		for k, f := range []func(a, b []data.LayerPart) ([]data.LayerPart, bool){cl.Union, cl.Intersection, cl.Difference} {
			what := []string{"union", "intersection", "difference"}[k]
			px, py := x.parts(), y.parts()
			before := showParts(px) + showParts(py)
			r, ok := f(px, py)
			if !ok {
				t.Fail("%s failed", what)
				return
			}
			if showParts(px)+showParts(py) != before {
				t.Fail("%s changed the parts", what)
				return
			}
			has := func(x, y float64) bool {
				ia, ib := a.has(x, y), b.has(x, y)
				return [3]bool{ia || ib, ia && ib, ia && !ib}[k]
			}
			if !sameArea(t, what, r, has, append(append(region{}, a...), b...), 4) || !wellFormed(t, what, r) {
				return
			}
			t.Outcome(len(r), math.Round(partsArea(r)/1000))
		}
	})
}

// mixedInsets makes insets of the areas (C11).
func mixedInsets(c *Ctx) {
	sets := [][3]int64{{400, -200, 3}, {351, -175, 4}, {-400, 400, 2}, {600, -100, 3}, {-250, -300, 3}}
	eachMixed(c, "insets of areas with holes of all shapes", 6, 1, len(sets), func(t *T, x mixed, i, v int) {
		s := sets[v]
		in := x.parts()[0]
		before := showParts([]data.LayerPart{in})
		res := clip.NewClipper().Inset(in, data.Micrometer(s[0]), int(s[2]), data.Micrometer(s[1]))
		if len(res) != int(s[2]) {
			t.Fail("%d insets", len(res))
			return
		}
		if showParts([]data.LayerPart{in}) != before {
			t.Fail("the part was changed")
			return
		}
		g := partsRegion([]data.LayerPart{in})
		for k := range res {
			d := float64(s[1] - int64(k)*s[0])
			what := fmt.Sprintf("inset %d", k)
			if !insetRegion(t, what, res[k], g, d, 6) || !wellFormed(t, what, res[k]) {
				return
			}
			t.Outcome(math.Round(partsArea(res[k])))
		}
	})
}

// mixedWalls prints the perimeters of prisms over the areas (C12).
func mixedWalls(c *Ctx) {
	sets := []struct {
		ew    data.Micrometer
		count int
	}{{400, 3}, {351, 4}, {600, 2}}
	const tol = 16
	eachMixed(c, "prisms with holes of all shapes", 12, 1, len(sets), func(t *T, x mixed, i, v int) {
		st := sets[v]
		o := baseOpts(func(o *data.Options) { o.Printer.ExtrusionWidth = st.ew; o.Print.InsetCount = st.count })
		m := x.mesh(0, 390, i)
		p := runPipe(o, m)
		if p.err != nil {
			t.Fail("%v", p.err)
			return
		}
		pr := parseGCode(p.gcode)
		pr.check(t)
		lo, _ := m.bounds()
		d := fromVec(p.om.Min()).sub(lo)
		g := x.shifted(pt{d.x, d.y}).region()
		byInset := make([][]ring, st.count)
		for _, k := range layerTracks(pr)[0] {
			outer := k.typ == "WALL-OUTER"
			if !outer && k.typ != "WALL-INNER" {
				continue
			}
			if !k.closed() {
				t.Fail("line %d: the perimeter is not closed: %v", k.line, k.pts)
				return
			}
			e := math.Inf(1)
			for j := range k.pts[1:] {
				a, b := k.pts[j], k.pts[j+1]
				for _, f := range []float64{0, 0.25, 0.5, 0.75} {
					e = math.Min(e, g.dist(float64(a.x)+f*float64(b.x-a.x), float64(a.y)+f*float64(b.y-a.y)))
				}
			}
			q := e/float64(st.ew) - 0.5
			n := int(math.Round(q))
			if math.Abs(q-float64(n))*float64(st.ew) > tol || n < 0 || n >= st.count {
				t.Fail("line %d: a perimeter (%s) runs %.0f beside the border: %v", k.line, k.typ, e, k.pts)
				return
			}
			if outer != (n == 0) {
				t.Fail("line %d: perimeter number %d is printed as %s", k.line, n, k.typ)
				return
			}
			byInset[n] = append(byInset[n], k.ring())
		}
		for n := range byInset {
			if !insetRegion(t, fmt.Sprintf("perimeter %d", n), ringsRegion(byInset[n]), g, -(float64(st.ew)/2 + float64(n)*float64(st.ew)), tol) {
				return
			}
			t.Outcome(x.name, n, len(byInset[n]))
		}
	})
}

// mixedPrisms compares the layers of stacked prisms over the areas with their sections (C07).
func mixedPrisms(c *Ctx) {
	eachMixed(c, "prisms with holes of all shapes", 4, 1, 2, func(t *T, x mixed, i, v int) {
		y := mixedArea((i*29 + 3) % numMixed)
		m := append(x.mesh(0, 1000, i), y.mesh(1000, 1900, i/2)...)
		if v == 1 { // the same upside down and far away
			m = append(y.mesh(0, 1000, i+1), x.mesh(1000, 1900, i/3).rotate(1)...).shift(v3{300000, -200000, 5000})
		}
		o := baseOpts(func(o *data.Options) { o.Print.InitialLayerThickness = 200; o.Print.LayerThickness = 307 })
		ls, om, err := slice(&o, m)
		if err != nil {
			t.Fail("%v", err)
			return
		}
		lo, _ := m.bounds()
		d := fromVec(om.Min()).sub(lo)
		if v == 1 {
			x, y = y, x
			d = d.add(v3{300000, -200000, 0})
		}
		if len(ls) != 6 {
			t.Fail("%d layers", len(ls))
		}
		for k, l := range ls {
			z := 200 + int64(k)*307
			w := x
			if z > 1000 {
				w = y
			}
			g := w.shifted(pt{d.x, d.y}).region()
			what := fmt.Sprintf("layer at %d", z)
			if !sameArea(t, what, l.LayerParts(), g.has, g, 6) || !wellFormed(t, what, l.LayerParts()) {
				return
			}
			if len(l.LayerParts()) != 1+len(w.islands) {
				t.Fail("%s: %d parts, want %d", what, len(l.LayerParts()), 1+len(w.islands))
				return
			}
			t.Outcome(w.name, len(l.LayerParts()))
		}
	})
}

// scaled makes the area smaller.
func (x mixed) scaled(num, den int64) mixed {
	move := func(rs []ring) (out []ring) {
		for _, r := range rs {
			q := make(ring, len(r))
			for k, p := range r {
				q[k] = pt{p.x * num / den, p.y * num / den}
			}
			out = append(out, q)
		}
		return
	}
	return mixed{x.name, move([]ring{x.outer})[0], move(x.holes), move(x.islands)}
}

// mixedWays looks for ways which leave the areas (C27).
func mixedWays(c *Ctx) {
	eachMixed(c, "ways through areas with holes of all shapes", 20, 3, 1, func(t *T, x mixed, i, _ int) {
		parts := x.parts()
		g := x.region()
		cl := clip.NewClipper()
		before := showParts(parts)
		var pts []pt
		for a := int64(-10511); a < 11000; a += 4201 {
			for b := int64(-10303); b < 11000; b += 4103 {
				pts = append(pts, pt{a + b/17, b - a/13})
			}
		}
		n := 0
		for _, p := range pts {
			for _, q := range pts {
				if p == q {
					continue
				}
				want := g.leaves(p, q, 2)
				if want < 0 {
					continue
				}
				if got, ok := cl.IsCrossingPerimeter(parts, ring{p, q}.path()); !ok || got != (want == 1) {
					t.Fail("from %v to %v: crossing=%v (%v), want %v", p, q, got, ok, want == 1)
					return
				}
				n++
			}
		}
		if showParts(parts) != before {
			t.Fail("the parts have been changed")
		}
		t.States(n, n)
		t.Outcome(x.name)
	})
}
