package main

import (
	"math"

	"github.com/aligator/goslice/data"
)

// ---- C08: several defects in one mesh ----

// slit inserts two points into each side of a ring at the given places (in thousandths), width w apart.
func slit(r ring, w int64, at ...int64) (out ring, gaps []int) {
	for i, a := range r {
		b := r[(i+1)%len(r)]
		l := math.Hypot(float64(b.x-a.x), float64(b.y-a.y))
		p := func(d float64) pt {
			return pt{a.x + int64(math.Round(float64(b.x-a.x)*d/l)), a.y + int64(math.Round(float64(b.y-a.y)*d/l))}
		}
		out = append(out, a)
		for _, q := range at {
			m := l * float64(q) / 1000
			gaps = append(gaps, len(out))
			out = append(out, p(m-float64(w)/2), p(m+float64(w)/2))
		}
	}
	return
}

func c08Several(c *Ctx) {
	outer := ring{{0, 0}, {10000, 0}, {10000, 9000}, {0, 9000}}
	hole := ring{{3000, 3000}, {3000, 6000}, {7000, 6000}, {7000, 3000}}
	island := ring{{20000, 1000}, {26000, 3000}, {21000, 8000}}
	widths := []int64{40, 150}
	// the whole wall of the gap is missing, or one of its facets
	kinds := c.Pick(1, 3)
	kindOf := func(mask, k int) int { return (k + mask) % 3 }
	one := func(t *T, rings []ring, bits [][]int, mask int, kind int, w int64) {
		// the facets of the walls come first and pairwise
		var m mesh
		var border region
		var lost []tri
		n := 0
		for k, r := range rings {
			var e mesh
			if r.area2() > 0 {
				e = extrude(r, pt{}, 0, 1000)
			} else {
				// a hole: triangulate needs the other direction
				rev := make(ring, len(r))
				for i := range r {
					rev[len(r)-1-i] = r[i]
				}
				for i, a := range r {
					b := r[(i+1)%len(r)]
					e = append(e, tri{{a.x, a.y, 0}, {b.x, b.y, 0}, {b.x, b.y, 1000}}, tri{{a.x, a.y, 0}, {b.x, b.y, 1000}, {a.x, a.y, 1000}})
				}
				for _, f := range triangulate(rev) {
					for z := int64(0); z <= 1000; z += 1000 {
						q := tri{{rev[f[0]].x, rev[f[0]].y, z}, {rev[f[1]].x, rev[f[1]].y, z}, {rev[f[2]].x, rev[f[2]].y, z}}
						if z == 1000 {
							q[1], q[2] = q[2], q[1]
						}
						e = append(e, q)
					}
				}
			}
			gone := map[int]bool{}
			for _, g := range bits[k] {
				if mask>>uint(n)&1 == 1 {
					if kind != 1 {
						gone[2*g] = true
					}
					if kind != 2 {
						gone[2*g+1] = true
					}
				}
				n++
			}
			for i, f := range e {
				if gone[i] {
					lost = append(lost, f)
				} else {
					m = append(m, f)
				}
			}
			border = append(border, r)
		}
		o := baseOpts(func(o *data.Options) { o.Print.InitialLayerThickness = 100; o.Print.LayerThickness = 220 })
		ls, om, err := slice(&o, m)
		if err != nil {
			t.Fail("%v", err)
			return
		}
		lo, _ := m.bounds()
		d := fromVec(om.Min()).sub(lo)
		for i := range border {
			border[i] = border[i].shifted(d.x, d.y)
		}
		if len(ls) != 5 {
			t.Fail("%d layers", len(ls))
		}
		for k, l := range ls {
			if !sameArea(t, "layer "+data.Micrometer(k).String(), l.LayerParts(), border.has, border, 12) {
				return
			}
			t.Outcome(k, len(lost), mask)
		}
	}
	var ro, rh, ri []ring
	var bo, bh, bi [][]int
	for _, w := range widths {
		r, b := slit(outer, w, 300, 700)
		ro, bo = append(ro, r), append(bo, b)
		r, b = slit(hole, w, 500)
		rh, bh = append(rh, r), append(bh, b)
		r, b = slit(island, w, 200, 400, 600, 800)
		ri, bi = append(ri, r), append(bi, b)
	}
	c.Run("several gaps in the walls", 4096*len(widths)*kinds, func(t *T, i int) {
		mask, wi := i%4096, i/4096%len(widths)
		kind := kindOf(mask, i/4096/len(widths))
		t.Key("square with a hole, gaps %012b of %d, kind %d", mask, widths[wi], kind)
		one(t, []ring{ro[wi], rh[wi]}, [][]int{bo[wi], bh[wi]}, mask, kind, widths[wi])
	})
	c.Run("many gaps in a triangle", 4096*len(widths)*kinds, func(t *T, i int) {
		mask, wi := i%4096, i/4096%len(widths)
		kind := kindOf(mask, i/4096/len(widths))
		t.Key("triangle with gaps %012b of %d, kind %d", mask, widths[wi], kind)
		one(t, []ring{ri[wi]}, [][]int{bi[wi]}, mask, kind, widths[wi])
	})
	type job struct {
		s    *scene
		f, g int // facet*3 + vertex
	}
	var jobs []job
	for mask := 1; mask < 16; mask++ {
		for diag := 0; diag < 2; diag++ {
			s := polycube(2, 2, 1, mask, 4000, []int64{0, 1000}, diag)
			if s.edgeContact() || diag == 1 && !c.Thorough() {
				continue
			}
			var vs []int
			for _, f := range wallFacets(s.mesh()) {
				vs = append(vs, 3*f, 3*f+1, 3*f+2)
			}
			for a := range vs {
				for b := 0; b < a; b++ {
					jobs = append(jobs, job{s, vs[a], vs[b]})
				}
			}
		}
	}
	disp := [][2]v3{{{45, 0, 0}, {0, -50, 0}}, {{-40, 35, 0}, {40, 35, 0}}}
	if c.Thorough() {
		disp = append(disp, [2]v3{{0, 60, 0}, {0, 60, 0}}, [2]v3{{-70, 0, 0}, {0, 45, 0}}, [2]v3{{50, 0, 0}, {-50, 0, 0}}, [2]v3{{0, -60, 0}, {40, 40, 0}})
	}
	c.Run("two vertices displaced", len(jobs)*len(disp), func(t *T, i int) {
		j, d := jobs[i/len(disp)], disp[i%len(disp)]
		m := j.s.mesh()
		m[j.f/3][j.f%3] = m[j.f/3][j.f%3].add(d[0])
		m[j.g/3][j.g%3] = m[j.g/3][j.g%3].add(d[1])
		t.Key("%v diag %d, vertex %d/%d by %v, vertex %d/%d by %v", j.s, j.s.diag, j.f/3, j.f%3, d[0], j.g/3, j.g%3, d[1])
		o := baseOpts(func(o *data.Options) { o.Print.InitialLayerThickness = 100; o.Print.LayerThickness = 220 })
		ls, om, err := slice(&o, m)
		if err != nil {
			t.Fail("%v", err)
			return
		}
		lo, _ := m.bounds()
		w := scenePlacedBy(j.s, fromVec(om.Min()).sub(lo))
		for k, l := range ls {
			z := 100 + int64(k)*220
			if !sameRegion(t, "layer at "+data.Micrometer(z).String(), l.LayerParts(), w.below(z), 100) {
				return
			}
			t.Outcome(w.below(z).String(), d)
		}
	})
}

// c08Walls removes one wall (or a half of it) of prisms over many polygons: the contour has to be finished if the
// distance between its ends allows it, and it has to be dropped otherwise.
func c08Walls(c *Ctx) {
	all := append(append([]ring{}, polygons3(c.Pick(5, 9), false)...), polygons3(c.Pick(4, 9), true)...)
	type job struct{ r, edge int }
	var jobs []job
	for k, r := range all {
		for e := range r {
			jobs = append(jobs, job{k, e})
		}
	}
	over := []int64{-900, -3, 3, 40, 1200}
	const kinds = 3
	c.Run("one wall missing in prisms", len(jobs)*len(over)*kinds, func(t *T, i int) {
		j, kind := jobs[i%len(jobs)], i/len(jobs)%kinds
		r := all[j.r]
		m := extrude(r, pt{}, 0, 1000)
		a, b := r[j.edge], r[(j.edge+1)%len(r)]
		length := math.Hypot(float64(b.x-a.x), float64(b.y-a.y))
		const z = 300
		gap := length
		switch kind {
		case 0:
			m = append(m[:2*j.edge:2*j.edge], m[2*j.edge+2:]...)
		case 1:
			m = append(m[:2*j.edge:2*j.edge], m[2*j.edge+1:]...)
			gap = length * 0.7
		case 2:
			m = append(m[:2*j.edge+1:2*j.edge+1], m[2*j.edge+2:]...)
			gap = length * 0.3
		}
		fin := int64(gap) + over[i/len(jobs)/kinds]
		t.Key("%v without wall %d kind %d, finish distance %d for a gap of %.0f", r, j.edge, kind, fin, gap)
		rest := r.perimeter() - gap
		if fin < 200 || rest < float64(fin)+60 {
			return // the rest is too short in any case or the parts are joined together
		}
		o := baseOpts(func(o *data.Options) {
			o.Print.InitialLayerThickness = z
			o.Print.LayerThickness = 5000
			o.Slicing.FinishPolygonSnapDistance = data.Micrometer(fin)
		})
		ls, om, err := slice(&o, m)
		if err != nil {
			t.Fail("%v", err)
			return
		}
		if len(ls) != 1 {
			t.Fail("%d layers", len(ls))
			return
		}
		lo, _ := m.bounds()
		d := fromVec(om.Min()).sub(lo)
		w := r.shifted(d.x, d.y)
		switch {
		case float64(fin) < gap-2:
			if n := len(ls[0].LayerParts()); n != 0 {
				t.Fail("the contour is closed over a distance of %.0f: %s", gap, showParts(ls[0].LayerParts()))
			}
			t.Outcome(j.r, j.edge, kind, false)
		case float64(fin) > gap+2:
			sameArea(t, "layer", ls[0].LayerParts(), w.has, region{w}, 12)
			t.Outcome(w, j.edge, kind, true)
		}
	})
}
