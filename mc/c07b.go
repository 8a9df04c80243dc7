package main

import (
	"fmt"

	"github.com/aligator/goslice/data"
)

// ---- C07: closed bodies which touch each other ----

// touchingBodies explores models of two closed bodies with a common wall. The section is that of both together.
func touchingBodies(c *Ctx) {
	check := func(t *T, label [8]int, diag [2]int, order int) {
		zs := []int64{0, 300, 700}
		g := uniGrid(2, 2, 3000)
		both := newScene(g, zs...)
		var bodies [2]*scene
		for b := range bodies {
			bodies[b] = newScene(g, zs...)
			bodies[b].diag = diag[b]
			for k, l := range label {
				bodies[b].slabs[k/4].on[k%4] = l == b+1
				if l == b+1 {
					both.slabs[k/4].on[k%4] = true
				}
			}
		}
		a, b := bodies[order].mesh(), bodies[1-order].mesh()
		t.Key("label %v diagonals %v order %d", label, diag, order)
		o := baseOpts()
		w := both.placed(o.Printer.Center)
		ls, _, err := slice(&o, append(append(mesh{}, a...), b...))
		if err != nil {
			if w.top() >= int64(o.Print.InitialLayerThickness) {
				t.Fail("%v", err)
			}
			return
		}
		for k, l := range ls {
			z := int64(o.Print.InitialLayerThickness) + int64(k)*int64(o.Print.LayerThickness)
			if !sameRegion(t, fmt.Sprintf("layer at %d", z), l.LayerParts(), w.below(z), 7) {
				return
			}
			t.Outcome(w.below(z).String())
		}
		t.Sample(both.String())
	}
	c.Run("two bodies with a common wall, different diagonals", 6561*2*2, func(t *T, i int) {
		var label [8]int
		n := i / 4
		for k := range label {
			label[k] = n % 3
			n /= 3
		}
		check(t, label, [2]int{i & 1, 1 - i&1}, i>>1&1)
	})
	walls := [][8]int{{1, 2}, {1, 0, 2}, {1, 0, 0, 0, 2}}
	c.Run("two bodies with a common wall, the same diagonals", len(walls)*2*2, func(t *T, i int) {
		check(t, walls[i/4], [2]int{i & 1, i & 1}, i>>1&1)
	})
}

// ---- C07: tilted faces ----

// terrain is a closed body between a plane and a surface over a lattice of nx by ny points.
type terrain struct {
	g    *grid
	h    []int64 // the heights of the surface
	base int64   // the height of the plane
	diag func(i, j int) bool
}

// tops returns the triangles of the surface.
func (s *terrain) tops() (m mesh) {
	nx := len(s.g.xs)
	at := func(i, j int) v3 { return v3{s.g.xs[i], s.g.ys[j], s.h[j*nx+i]} }
	for j := 0; j+1 < len(s.g.ys); j++ {
		for i := 0; i+1 < nx; i++ {
			a, b, c, d := at(i, j), at(i+1, j), at(i+1, j+1), at(i, j+1)
			if s.diag(i, j) {
				m = append(m, tri{a, b, c}, tri{a, c, d})
			} else {
				m = append(m, tri{a, b, d}, tri{b, c, d})
			}
		}
	}
	return
}

func (s *terrain) mesh() (m mesh) {
	flip := func(t tri) tri { return tri{t[0], t[2], t[1]} }
	flat := func(p v3) v3 { return v3{p.x, p.y, s.base} }
	above := s.h[0] > s.base
	add := func(t tri) {
		if !above {
			t = flip(t)
		}
		m = append(m, t)
	}
	edges := map[[2]v3]int{}
	for _, t := range s.tops() {
		add(t)
		add(flip(tri{flat(t[0]), flat(t[1]), flat(t[2])}))
		for k := range t {
			edges[[2]v3{t[k], t[(k+1)%3]}]++
		}
	}
	for _, t := range s.tops() {
		for k := range t {
			a, b := t[k], t[(k+1)%3]
			if edges[[2]v3{b, a}] == 0 {
				add(tri{b, a, flat(a)})
				add(tri{b, flat(a), flat(b)})
			}
		}
	}
	return
}

// section is the section just below z, as convex pieces.
func (s *terrain) section(z int64) (secs []convex, thin bool) {
	above := s.h[0] > s.base
	if above && z <= s.base || !above && z > s.base {
		return nil, false
	}
	for _, t := range s.tops() {
		var p []fpt
		in := func(v v3) bool { return (v.z >= z) == above }
		for k := range t {
			a, b := t[k], t[(k+1)%3]
			if in(a) {
				p = append(p, fpt{float64(a.x), float64(a.y)})
			}
			if in(a) != in(b) {
				f := float64(z-a.z) / float64(b.z-a.z)
				p = append(p, fpt{float64(a.x) + f*float64(b.x-a.x), float64(a.y) + f*float64(b.y-a.y)})
			}
		}
		if c := hullOf(p); c != nil {
			if w := c.thin(); w < 300 {
				thin = thin || w > 0.5
				continue
			}
			secs = append(secs, c)
		}
	}
	return
}

// terrains explores bodies with tilted and nearly horizontal faces.
func terrains(c *Ctx) {
	check := func(t *T, s *terrain, flipped bool) {
		o := baseOpts(func(o *data.Options) { o.Print.InitialLayerThickness = 200; o.Print.LayerThickness = 100 })
		s.base = 0
		if flipped {
			s.base = 1500
		}
		m := s.mesh()
		if flipped {
			// something which stands on the plate
			m = append(m, sceneOnGrid(&grid{xs: []int64{-9000, -6000}, ys: []int64{0, 3000}}, []int64{0, 350}, "#").mesh()...)
		}
		ls, om, err := slice(&o, m)
		if err != nil {
			t.Fail("%v", err)
			return
		}
		ml, mh := m.bounds()
		if want := int((mh.z-200)/100) + 1; len(ls) != want {
			t.Fail("%d layers, want %d", len(ls), want)
			return
		}
		d := fromVec(om.Min()).sub(ml)
		for k, l := range ls {
			z := 200 + int64(k)*100
			secs, thin := s.section(z)
			if thin {
				continue
			}
			if flipped && z <= 350 {
				secs = append(secs, convex{{-9000, 0}, {-6000, 0}, {-6000, 3000}, {-9000, 3000}})
			}
			for i := range secs {
				for j := range secs[i] {
					secs[i][j].x += float64(d.x)
					secs[i][j].y += float64(d.y)
				}
			}
			sectionCheck(t, fmt.Sprintf("layer at %d", z), l, secs, 12)
			if t.Failed() {
				return
			}
			t.Outcome(secs)
		}
		t.Sample(s.h)
	}
	g1 := &grid{xs: []int64{0, 4000}, ys: []int64{0, 3000}}
	c.Run("nearly horizontal faces", 7*7*7*7*4, func(t *T, i int) {
		s := &terrain{g: g1, diag: func(int, int) bool { return i&1 == 1 }}
		for k, n := 0, i/4; k < 4; k, n = k+1, n/7 {
			s.h = append(s.h, 400+int64(n%7-3))
		}
		t.Key("heights %v diagonal %d upside down %v", s.h, i&1, i&2 == 2)
		check(t, s, i&2 == 2)
	})
	sets := [][3]int64{{398, 400, 403}, {200, 400, 600}, {250, 521, 1103}}
	g2 := &grid{xs: []int64{0, 4000, 7001}, ys: []int64{0, 3001, 8000}}
	n := 19683
	step := c.Pick(7, 1)
	c.Run("terrains over 3x3 points", (n+step-1)/step*len(sets)*c.Pick(2, 8), func(t *T, i int) {
		set := sets[i%len(sets)]
		j := i / len(sets)
		v := j % c.Pick(2, 8)
		n := j / c.Pick(2, 8) * step
		dm := v
		if !c.Thorough() {
			dm = n % 4 * 2
			dm += v
		}
		s := &terrain{g: g2, diag: func(i, j int) bool { return dm>>uint(1+(i+j)%2)&1 == 1 }}
		for k := 0; k < 9; k++ {
			s.h = append(s.h, set[n%3])
			n /= 3
		}
		t.Key("heights %v diagonals %d upside down %v", s.h, dm/2, dm&1 == 1)
		check(t, s, dm&1 == 1)
	})
}
