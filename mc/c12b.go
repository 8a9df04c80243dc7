package main

import (
	"math"

	"github.com/aligator/goslice/data"
)

// prismMesh is the closed surface of a prism over a convex ring (counter clockwise). If hole is not nil it has to
// have as many corners as the outline and is left open.
func prismMesh(o, hole ring, z0, z1 int64) (m mesh) {
	at := func(p pt, z int64) v3 { return v3{p.x, p.y, z} }
	n := len(o)
	for i := range o {
		a, b := o[i], o[(i+1)%n]
		m = append(m, tri{at(a, z0), at(b, z0), at(b, z1)}, tri{at(a, z0), at(b, z1), at(a, z1)})
		if hole == nil {
			continue
		}
		p, q := hole[i], hole[(i+1)%n]
		m = append(m, tri{at(q, z0), at(p, z0), at(p, z1)}, tri{at(q, z0), at(p, z1), at(q, z1)})
		m = append(m, tri{at(a, z1), at(b, z1), at(q, z1)}, tri{at(a, z1), at(q, z1), at(p, z1)})
		m = append(m, tri{at(b, z0), at(a, z0), at(p, z0)}, tri{at(b, z0), at(p, z0), at(q, z0)})
	}
	if hole == nil {
		for i := 1; i+1 < n; i++ {
			m = append(m, tri{at(o[0], z1), at(o[i], z1), at(o[i+1], z1)}, tri{at(o[0], z0), at(o[i+1], z0), at(o[i], z0)})
		}
	}
	return m
}

// scaled shrinks a ring around its centre.
func (r ring) scaled(num, den int64) ring {
	var cx, cy int64
	for _, p := range r {
		cx += p.x
		cy += p.y
	}
	n := int64(len(r))
	out := make(ring, len(r))
	for i, p := range r {
		out[i] = pt{cx/n + (p.x-cx/n)*num/den, cy/n + (p.y-cy/n)*num/den}
	}
	return out
}

func (r ring) shifted(dx, dy int64) ring {
	out := make(ring, len(r))
	for i, p := range r {
		out[i] = pt{p.x + dx, p.y + dy}
	}
	return out
}

// slantSection is a set of disjoint convex areas, each with at most one convex hole.
type slantSection struct {
	outer, hole []convex // hole[i] may be nil
}

// depths returns the distance to the outer border of the area around the point (negative outside of all) and to its hole.
func (s slantSection) depths(x, y float64) (o, h float64) {
	o, h = math.Inf(-1), math.Inf(1)
	for i, c := range s.outer {
		if d := c.depth(x, y); d > o {
			o = d
			h = math.Inf(1)
			if s.hole[i] != nil {
				h = -s.hole[i].depth(x, y)
			}
		}
	}
	return
}

// checkSlantWalls checks the perimeters of one layer.
func checkSlantWalls(t *T, ks []track, s slantSection, ew int64, count int) {
	byInset := make([][]ring, count)
	const tol = 16.0
	for _, k := range ks {
		outer := k.typ == "WALL-OUTER"
		if !outer && k.typ != "WALL-INNER" {
			continue
		}
		if !k.closed() {
			t.Fail("line %d: the perimeter is not closed: %v", k.line, k.pts)
			return
		}
		d := math.Inf(1)
		for i := range k.pts[1:] {
			a, b := k.pts[i], k.pts[i+1]
			for _, f := range []float64{0, 0.25, 0.5, 0.75} {
				o, h := s.depths(float64(a.x)+f*float64(b.x-a.x), float64(a.y)+f*float64(b.y-a.y))
				d = math.Min(d, math.Min(o, h))
			}
		}
		q := d/float64(ew) - 0.5
		inset := int(math.Round(q))
		if math.Abs(q-float64(inset))*float64(ew) > tol || inset < 0 || inset >= count {
			t.Fail("line %d: a perimeter (%s) runs %.0f beside the border with a line width of %d and %d insets: %v", k.line, k.typ, d, ew, count, k.pts)
			return
		}
		if outer != (inset == 0) {
			t.Fail("line %d: perimeter number %d is printed as %s", k.line, inset, k.typ)
			return
		}
		byInset[inset] = append(byInset[inset], k.ring())
	}
	for n, rings := range byInset {
		d := float64(ew)/2 + float64(n)*float64(ew)
		g := partsRegion(ringsRegion(rings))
		var pts [][2]float64
		for _, c := range s.outer {
			var cx, cy float64
			for _, p := range c {
				cx += p.x / float64(len(c))
				cy += p.y / float64(len(c))
			}
			for k, p := range c {
				q := c[(k+1)%len(c)]
				for f := 0.0; f < 1; f += 1.0 / 8 {
					ex, ey := p.x+f*(q.x-p.x), p.y+f*(q.y-p.y)
					for _, u := range []float64{0, 0.12, 0.24, 0.36, 0.48, 0.55, 0.62, 0.68, 0.74, 0.79, 0.84, 0.88, 0.92, 0.95, 0.98, 1.02, 1.1} {
						pts = append(pts, [2]float64{cx + u*(ex-cx), cy + u*(ey-cy)})
					}
				}
			}
		}
		for _, p := range pts {
			o, h := s.depths(p[0], p[1])
			must := o > d+tol && h > d*math.Sqrt2+tol
			mustNot := o < d-tol || h < d-tol
			if in := g.has(p[0], p[1]); (must && !in) || (mustNot && in) {
				t.Fail("perimeter %d: the point (%.0f,%.0f) is inside=%v, %.0f from the outer border and %.0f from the hole; %v", n, p[0], p[1], in, o, h, rings)
				return
			}
		}
		t.Outcome(len(rings))
	}
}

func slantWallCheck(t *T, m mesh, o data.Options, section func(d v3, z int64) (slantSection, bool)) {
	p := runPipe(o, m)
	if p.err != nil {
		t.Fail("%v", p.err)
		return
	}
	pr := parseGCode(p.gcode)
	pr.check(t)
	ks := layerTracks(pr)
	ml, _ := m.bounds()
	d := fromVec(p.om.Min()).sub(ml)
	for k := range p.layers {
		z := int64(o.Print.InitialLayerThickness) + int64(k)*int64(o.Print.LayerThickness)
		if s, ok := section(d, z); ok {
			checkSlantWalls(t, ks[k], s, int64(o.Printer.ExtrusionWidth), o.Print.InsetCount)
			if t.Failed() {
				t.Fail("in layer %d", k)
				return
			}
			t.Outcome(k, s)
		}
	}
}

// slantWalls explores the perimeters of objects whose borders are not parallel to the axes.
func slantWalls(c *Ctx) {
	tris := latticeTriangles(4, 3, 4003, 5001)
	sets := []struct {
		ew    data.Micrometer
		count int
	}{{400, 2}, {350, 4}, {601, 3}}
	fat := func(c convex) bool { return c.thin() > 500 }
	c.Run("triangular prisms with and without holes", len(tris)*3*len(sets), func(t *T, i int) {
		r, st := tris[i%len(tris)], sets[i/len(tris)/3]
		kind := i / len(tris) % 3
		t.Key("%v kind %d width %d insets %d", r, kind, st.ew, st.count)
		var m mesh
		var outs, holes []ring
		switch kind {
		case 0:
			outs, holes = []ring{r}, []ring{nil}
		case 1:
			outs, holes = []ring{r}, []ring{r.scaled(1, 2)}
		case 2: // a second one beside it
			outs, holes = []ring{r, r.scaled(4, 5).shifted(13000, 500)}, []ring{nil, nil}
		}
		for k := range outs {
			m = append(m, prismMesh(outs[k], holes[k], 0, 400)...)
		}
		o := baseOpts(func(o *data.Options) { o.Printer.ExtrusionWidth = st.ew; o.Print.InsetCount = st.count })
		slantWallCheck(t, m, o, func(d v3, z int64) (s slantSection, ok bool) {
			for k := range outs {
				s.outer = append(s.outer, outs[k].shifted(d.x, d.y).convex())
				var h convex
				if holes[k] != nil {
					h = holes[k].shifted(d.x, d.y).convex()
				}
				s.hole = append(s.hole, h)
			}
			return s, fat(s.outer[0])
		})
	})
	tets := allTets(5003, 6001, 1000)
	step := c.Pick(4, 1)
	c.Run("tetrahedra", (len(tets)+step-1)/step, func(t *T, i int) {
		v := tets[i*step]
		t.Key("%v", v)
		o := baseOpts(func(o *data.Options) { o.Print.LayerThickness = 450; o.Print.InsetCount = 1 + i%3 })
		slantWallCheck(t, tetraMesh(v), o, func(d v3, z int64) (s slantSection, ok bool) {
			w := v
			for j := range w {
				w[j] = w[j].add(d)
			}
			cv := tetraSection(w, z)
			if cv == nil || !fat(cv) {
				return s, false
			}
			return slantSection{[]convex{cv}, []convex{nil}}, true
		})
	})
}
