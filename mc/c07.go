package main

import (
	"math"
	"sort"

	"github.com/aligator/goslice/data"
)

type fpt struct{ x, y float64 }

// convex is a convex polygon in counter clockwise order.
type convex []fpt

func hullOf(p []fpt) convex {
	sort.Slice(p, func(i, j int) bool { return p[i].x < p[j].x || (p[i].x == p[j].x && p[i].y < p[j].y) })
	cross := func(a, b, c fpt) float64 { return (b.x-a.x)*(c.y-a.y) - (b.y-a.y)*(c.x-a.x) }
	half := func(p []fpt) []fpt {
		var h []fpt
		for _, q := range p {
			for len(h) >= 2 && cross(h[len(h)-2], h[len(h)-1], q) <= 0 {
				h = h[:len(h)-1]
			}
			h = append(h, q)
		}
		return h
	}
	if len(p) < 3 {
		return nil
	}
	lo := half(p)
	r := make([]fpt, len(p))
	for i := range p {
		r[len(p)-1-i] = p[i]
	}
	up := half(r)
	h := append(append(convex{}, lo[:len(lo)-1]...), up[:len(up)-1]...)
	if len(h) < 3 {
		return nil
	}
	return h
}

// depth is the distance to the border, negative outside.
func (c convex) depth(x, y float64) float64 {
	if len(c) == 0 {
		return math.Inf(-1)
	}
	in := true
	d := math.Inf(1)
	for i := range c {
		a, b := c[i], c[(i+1)%len(c)]
		if (b.x-a.x)*(y-a.y)-(b.y-a.y)*(x-a.x) < 0 {
			in = false
		}
		dx, dy := b.x-a.x, b.y-a.y
		t := ((x-a.x)*dx + (y-a.y)*dy) / (dx*dx + dy*dy)
		t = math.Max(0, math.Min(1, t))
		d = math.Min(d, math.Hypot(x-a.x-t*dx, y-a.y-t*dy))
	}
	if !in {
		return -d
	}
	return d
}

func (c convex) area() (a, per float64) {
	for i := range c {
		p, q := c[i], c[(i+1)%len(c)]
		a += (p.x*q.y - q.x*p.y) / 2
		per += math.Hypot(p.x-q.x, p.y-q.y)
	}
	return
}

// thin is the smallest width of the polygon.
func (c convex) thin() float64 {
	w := math.Inf(1)
	for i := range c {
		a, b := c[i], c[(i+1)%len(c)]
		l := math.Hypot(b.x-a.x, b.y-a.y)
		m := 0.0
		for _, p := range c {
			m = math.Max(m, math.Abs((b.x-a.x)*(p.y-a.y)-(b.y-a.y)*(p.x-a.x))/l)
		}
		w = math.Min(w, m)
	}
	return w
}

// tetraSection is the section of the tetrahedron just below z.
func tetraSection(v [4]v3, z int64) convex {
	var pts []fpt
	for i := range v {
		for j := range v {
			if v[i].z < z && v[j].z >= z {
				f := float64(z-v[i].z) / float64(v[j].z-v[i].z)
				pts = append(pts, fpt{float64(v[i].x) + f*float64(v[j].x-v[i].x), float64(v[i].y) + f*float64(v[j].y-v[i].y)})
			}
		}
	}
	return hullOf(pts)
}

func det3(a, b, c v3) int64 {
	return a.x*(b.y*c.z-b.z*c.y) - a.y*(b.x*c.z-b.z*c.x) + a.z*(b.x*c.y-b.y*c.x)
}

// tetraMesh returns the four facets with normals outside.
func tetraMesh(v [4]v3) mesh {
	if det3(v[1].sub(v[0]), v[2].sub(v[0]), v[3].sub(v[0])) < 0 {
		v[1], v[2] = v[2], v[1]
	}
	return mesh{{v[0], v[2], v[1]}, {v[0], v[1], v[3]}, {v[1], v[2], v[3]}, {v[0], v[3], v[2]}}
}

// sectionCheck compares the layer with a set of disjoint convex sections.
func sectionCheck(t *T, what string, l data.PartitionedLayer, secs []convex, tol float64) {
	g := partsRegion(l.LayerParts())
	area, per := 0.0, 0.0
	var pts [][2]float64
	for _, s := range secs {
		a, p := s.area()
		area += a
		per += p
		var cx, cy float64
		for _, q := range s {
			cx += q.x / float64(len(s))
			cy += q.y / float64(len(s))
		}
		// points near the corners, the edges and on a fan around the centre
		for i, q := range s {
			r := s[(i+1)%len(s)]
			for _, f := range []float64{0, 0.25, 0.5, 0.75} {
				ex, ey := q.x+f*(r.x-q.x), q.y+f*(r.y-q.y)
				for _, k := range []float64{0, 0.3, 0.6, 0.9, 0.97, 1.03, 1.1, 1.5, 3} {
					pts = append(pts, [2]float64{cx + k*(ex-cx), cy + k*(ey-cy)})
				}
			}
		}
	}
	if len(secs) == 0 && partsArea(l.LayerParts()) > 0 {
		t.Fail("%s: the section is empty, got %s", what, showParts(l.LayerParts()))
		return
	}
	for _, p := range pts {
		want, near := false, false
		for _, s := range secs {
			d := s.depth(p[0], p[1])
			if math.Abs(d) <= tol {
				near = true
			}
			want = want || d > 0
		}
		if near {
			continue
		}
		if g.has(p[0], p[1]) != want {
			t.Fail("%s: the point (%.0f,%.0f) is inside=%v, want %v; sections %.0f; parts %s", what, p[0], p[1], !want, want, secs, showParts(l.LayerParts()))
			return
		}
	}
	if a := partsArea(l.LayerParts()); math.Abs(a-area) > per*tol+1 {
		t.Fail("%s: the area is %.0f, want %.0f; sections %.0f; parts %s", what, a, area, secs, showParts(l.LayerParts()))
	}
}

// allTets returns all tetrahedra over the points of a 3x3x3 lattice.
func allTets(dx, dy, dz int64) (tets [][4]v3) {
	var lat []v3
	for x := int64(0); x < 3; x++ {
		for y := int64(0); y < 3; y++ {
			for z := int64(0); z < 3; z++ {
				lat = append(lat, v3{x * dx, y * dy, z * dz})
			}
		}
	}
	for a := range lat {
		for b := a + 1; b < len(lat); b++ {
			for d := b + 1; d < len(lat); d++ {
				for e := d + 1; e < len(lat); e++ {
					v := [4]v3{lat[a], lat[b], lat[d], lat[e]}
					if det3(v[1].sub(v[0]), v[2].sub(v[0]), v[3].sub(v[0])) != 0 {
						tets = append(tets, v)
					}
				}
			}
		}
	}
	return
}

func blockCheck(t *T, s *scene, o data.Options) {
	w := s.placed(o.Printer.Center)
	ls, _, err := slice(&o, s.mesh())
	if err != nil {
		if w.top() >= int64(o.Print.InitialLayerThickness) {
			t.Fail("%v", err)
		}
		return
	}
	for k, l := range ls {
		z := int64(o.Print.InitialLayerThickness) + int64(k)*int64(o.Print.LayerThickness)
		if !sameRegion(t, "layer at "+data.Micrometer(z).String(), l.LayerParts(), w.below(z), 7) {
			return
		}
		t.Outcome(w.below(z).String())
	}
	t.Sample(s.String())
}

// tetraCheck slices the tetrahedron and compares each layer with its section.
func tetraCheck(t *T, o *data.Options, v [4]v3, rot int) {
	ls, om, err := slice(o, tetraMesh(v).rotate(rot))
	if err != nil {
		t.Fail("%v", err)
		return
	}
	lo := fromVec(om.Min())
	m := tetraMesh(v)
	ml, _ := m.bounds()
	d := lo.sub(ml)
	for k := range v {
		v[k] = v[k].add(d)
	}
	for k, l := range ls {
		z := int64(o.Print.InitialLayerThickness) + int64(k)*int64(o.Print.LayerThickness)
		s := tetraSection(v, z)
		var secs []convex
		if s != nil {
			if _, per := s.area(); per < 2200 || s.thin() < 300 {
				continue
			}
			secs = []convex{s}
		}
		sectionCheck(t, "layer at "+data.Micrometer(z).String(), l, secs, 12)
		t.Outcome(secs)
	}
}

func init() {
	register(&Check{ID: "C07", Level: "exploration",
		Rule:   "one evaluation = one closed mesh sliced and every layer compared with the exact section; distinct = different sections",
		Assume: []string{"borders may be off by 7 um for axis aligned and by 12 um for sloped walls", "sections narrower than 0.3 mm or with a circumference of less than 2.2 mm are not judged", "sequences of disjoint closed shells; overlapping shells are not judged"},
		Run: func(c *Ctx) {
			opt := func(in, th data.Micrometer) data.Options {
				return baseOpts(func(o *data.Options) { o.Print.InitialLayerThickness = in; o.Print.LayerThickness = th })
			}
			o1 := opt(200, 250)
			c.Run("3x3x1 blocks, both diagonals", 511*2, func(t *T, i int) {
				s := polycube(3, 3, 1, i/2+1, 3000, []int64{0, 700}, i&1)
				t.Key("%v diag %d", s, s.diag)
				blockCheck(t, s, o1)
			})
			// heights of the slabs on and between the heights of the layers
			o2 := opt(200, 100)
			c.Run("2x2x2 blocks, both diagonals, all rotations of the facets", 255*2*3*3, func(t *T, i int) {
				rot := i / 1530
				i %= 1530
				zs := [][]int64{{0, 300, 700}, {0, 299, 601}, {0, 350, 450}}[i/510]
				s := polycube(2, 2, 2, i%510/2+1, 3000, zs, i&1)
				s.rot = rot
				t.Key("%v diag %d rotation %d", s, s.diag, rot)
				blockCheck(t, s, o2)
			})
			c.Run("2x2x3 blocks", c.Pick(1, 2)*4095, func(t *T, i int) {
				s := polycube(2, 2, 3, i%4095+1, 3000, []int64{0, 300, 500, 900}, i/4095)
				t.Key("%v diag %d", s, s.diag)
				blockCheck(t, s, o2)
			})
			c.Run("rings and islands: 4x4x1 blocks", c.Pick(1<<12, 1<<16-1), func(t *T, i int) {
				m := i + 1
				if !c.Thorough() {
					// the border cells follow from a pattern, the others are all enumerated
					m = (i*16 + 15) ^ (i >> 7 & 15)
				}
				s := polycube(4, 4, 1, m&(1<<16-1), 2500, []int64{0, 300}, 0)
				t.Key("%v", s)
				if s.empty() {
					return
				}
				blockCheck(t, s, opt(200, 300))
			})
			// nested rings
			c.Run("nested rings", 1<<4-1, func(t *T, i int) {
				g := uniGrid(9, 9, 2000)
				s := newScene(g, 0, 500)
				for y := 0; y < 9; y++ {
					for x := 0; x < 9; x++ {
						d := min(min(x, 8-x), min(y, 8-y))
						s.slabs[0].on[y*9+x] = d < 4 && (i+1)>>uint(d)&1 == 1
					}
				}
				t.Key("%v", s)
				blockCheck(t, s, o2)
			})
			// a small column, a small ring and a small window beside large ones
			c.Run("small contours", 24*24*4, func(t *T, i int) {
				dx, dy := 275+int64(i%24)*25, 275+int64(i/24%24)*25
				w, h := 2*dx-int64(i%2), dy
				g := &grid{xs: []int64{0, 5000, 8000, 8000 + w, 8000 + w + 1500, 20000}, ys: []int64{0, 2500, 2500 + h, 6000}}
				s := newScene(g, 0, 500)
				// a bar in the first column, the small contour in the third
				for y := 0; y < 3; y++ {
					s.slabs[0].on[y*5] = true
				}
				switch i / 576 {
				case 0: // column
					s.slabs[0].on[5+2] = true
				case 1: // hole
					for y := 0; y < 3; y++ {
						for x := 1; x < 4; x++ {
							s.slabs[0].on[y*5+x] = x != 2 || y != 1
						}
					}
				case 2: // two columns
					s.slabs[0].on[5+2] = true
					s.slabs[0].on[5+4] = true
				case 3: // column on a plate
					s = &scene{g: g, zs: []int64{0, 200, 500}, slabs: []cells{newCells(g), s.slabs[0]}}
					s.slabs[1].on[5+2] = true
					for k := range s.slabs[0].on {
						s.slabs[0].on[k] = true
					}
				}
				t.Key("%v", s)
				blockCheck(t, s, o1)
			})
			grids := []*grid{
				{xs: []int64{0, 600, 600 + 57000, 120000}, ys: []int64{-7, 1234, 61000}},
				{xs: []int64{0, 999, 1999, 200001}, ys: []int64{0, 60000, 120001}},
				{xs: []int64{-5001, -3000, 7, 900}, ys: []int64{0, 701, 190000}},
			}
			c.Run("uneven grids", len(grids)*4095, func(t *T, i int) {
				g := grids[i/4095]
				s := newScene(g, 0, 200, 333)
				m := i%4095 + 1
				s.slabs[0] = cellsFromMask(g, m&63)
				s.slabs[1] = cellsFromMask(g, m>>6)
				t.Key("%v", s)
				blockCheck(t, s, opt(150, 51))
			})
			// tetrahedra with all choices of corners out of a lattice
			tets := allTets(7003, 9001, 2000)
			ths := []data.Micrometer{400, 300}
			if c.Thorough() {
				ths = []data.Micrometer{400, 300, 250, 333, 1000}
			}
			// (some of the corners lie on the height of a layer with a thickness of 300)
			bigScenes(c, func(name string, n int, mk func(i int, o *data.Options) *scene) {
				c.Run(name, n, func(t *T, i int) {
					o := baseOpts()
					s := mk(i, &o)
					s.diag, s.rot = i&1, i%3
					t.Key("%v", s)
					blockCheck(t, s, o)
				})
			})
			c.Run("tetrahedra, all rotations of the facets", 3*len(tets)*len(ths), func(t *T, i int) {
				rot := i / (len(tets) * len(ths))
				i %= len(tets) * len(ths)
				v := tets[i%len(tets)]
				o := opt(200, ths[i/len(tets)])
				t.Key("%v thickness %d rotation %d", v, o.Print.LayerThickness, rot)
				tetraCheck(t, &o, v, rot)
			})
			// the same tetrahedra at a large scale
			bigTets := allTets(90001, 61003, 110009)
			c.Run("large tetrahedra", 3*len(bigTets), func(t *T, i int) {
				rot := i / len(bigTets)
				v := bigTets[i%len(bigTets)]
				o := opt(200, 7001)
				t.Key("%v rotation %d", v, rot)
				tetraCheck(t, &o, v, rot)
			})
			polyPrisms(c)
			mixedPrisms(c)
			roundShapes(c)
			touchingBodies(c)
			terrains(c)
			// pairs of tetrahedra beside each other
			step := c.Pick(97, 11)
			n := (len(tets) + step - 1) / step
			c.Run("pairs of tetrahedra", n*n, func(t *T, i int) {
				a, b := tets[i%n*step], tets[i/n*step]
				for k := range b {
					b[k].x += 15000
				}
				t.Key("%v %v", a, b)
				o := opt(200, 700)
				m := append(tetraMesh(a), tetraMesh(b)...)
				ls, om, err := slice(&o, m)
				if err != nil {
					t.Fail("%v", err)
					return
				}
				ml, _ := m.bounds()
				d := fromVec(om.Min()).sub(ml)
				for k := range a {
					a[k] = a[k].add(d)
					b[k] = b[k].add(d)
				}
				for k, l := range ls {
					z := int64(o.Print.InitialLayerThickness) + int64(k)*int64(o.Print.LayerThickness)
					var secs []convex
					skip := false
					for _, v := range [][4]v3{a, b} {
						if s := tetraSection(v, z); s != nil {
							if _, per := s.area(); per < 2200 || s.thin() < 300 {
								skip = true
							}
							secs = append(secs, s)
						}
					}
					if !skip {
						sectionCheck(t, "layer at "+data.Micrometer(z).String(), l, secs, 12)
						t.Outcome(secs)
					}
				}
			})
		}})
}
