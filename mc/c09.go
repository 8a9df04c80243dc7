package main

import (
	"math"

	"github.com/aligator/goslice/clip"
	"github.com/aligator/goslice/data"
)

// rawLayer implements data.Layer.
type rawLayer struct{ p data.Paths }

func (l rawLayer) Polygons() data.Paths { return l.p }

func (r ring) reversed() ring {
	o := make(ring, len(r))
	for i := range r {
		o[i] = r[len(r)-1-i]
	}
	return o
}

func (r ring) rotated(n int) ring {
	n %= len(r)
	return append(append(ring{}, r[n:]...), r[:n]...)
}

// holesOf returns the components of cells that are off and do not reach the border of the grid.
func (c cells) holesOf(diag bool) int {
	lab, n := c.components(false, diag)
	open := make([]bool, n)
	nx, ny := c.g.nx(), c.g.ny()
	for i, l := range lab {
		if l >= 0 && (i%nx == 0 || i%nx == nx-1 || i/nx == 0 || i/nx == ny-1) {
			open[l] = true
		}
	}
	h := 0
	for _, o := range open {
		if !o {
			h++
		}
	}
	return h
}

// checkParts checks that the parts are well formed: outlines counter clockwise, holes clockwise and inside
// of their outline, each connected area in its own part.
func checkParts(t *T, parts []data.LayerPart, want cells) {
	if !sameRegion(t, "parts", parts, want, 1) {
		return
	}
	holes := 0
	for k, p := range parts {
		o := toRing(p.Outline())
		if o.area2() <= 0 {
			t.Fail("the outline of part %d is not counter clockwise: %v", k, o)
		}
		for _, h := range p.Holes() {
			holes++
			r := toRing(h)
			if r.area2() >= 0 {
				t.Fail("a hole of part %d is not clockwise: %v", k, r)
			}
			x, y := r.innerPoint()
			if !o.has(x, y) {
				t.Fail("a hole of part %d is not inside of its outline: %v %v", k, r, o)
			}
		}
	}
	_, n4 := want.components(true, false)
	_, n8 := want.components(true, true)
	if len(parts) < n8 || len(parts) > n4 {
		t.Fail("%d parts, want %d to %d", len(parts), n8, n4)
	}
	if h4, h8 := want.holesOf(false), want.holesOf(true); holes < h8 || holes > h4 {
		t.Fail("%d holes, want %d to %d", holes, h8, h4)
	}
	// each cell lies in exactly one part, cells which are connected lie in the same one
	lab, _ := want.components(true, false)
	part := map[int]int{}
	for i, l := range lab {
		if l < 0 {
			continue
		}
		x := float64(want.g.xs[i%want.g.nx()]+want.g.xs[i%want.g.nx()+1])/2 + 0.3
		y := float64(want.g.ys[i/want.g.nx()]+want.g.ys[i/want.g.nx()+1])/2 + 0.3
		in := -1
		for k, p := range parts {
			if partsRegion([]data.LayerPart{p}).has(x, y) {
				if in >= 0 {
					t.Fail("the point (%.0f,%.0f) is in two parts", x, y)
				}
				in = k
			}
		}
		if q, ok := part[l]; ok && q != in {
			t.Fail("the connected area %d lies in the parts %d and %d", l, q, in)
		}
		part[l] = in
	}
}

func generateParts(t *T, rings []ring) ([]data.LayerPart, bool) {
	var p data.Paths
	for _, r := range rings {
		p = append(p, r.path())
	}
	l, ok := clip.NewClipper().GenerateLayerParts(rawLayer{p})
	if !ok {
		t.Fail("the partitioning failed")
		return nil, false
	}
	for i, r := range rings {
		if !samePath(toRing(p[i]), r) {
			t.Fail("the polygon %d was changed from %v to %v", i, r, p[i])
		}
	}
	return l.LayerParts(), true
}

func samePath(a, b ring) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func init() {
	register(&Check{ID: "C09", Level: "exploration",
		Rule:   "one evaluation = one set of contours partitioned; distinct = different areas",
		Assume: []string{"orthogonal contours; where areas touch only at a corner they may be one or two parts"},
		Run: func(c *Ctx) {
			g4 := uniGrid(4, 4, 2000)
			c.Run("all areas of 4x4 cells", 1<<16, func(t *T, i int) {
				w := cellsFromMask(g4, i)
				t.Key("%v", w)
				rings := w.outlines()
				// the direction and the first point of the contours have no meaning
				for k := range rings {
					if (i+k)%3 == 1 {
						rings[k] = rings[k].reversed()
					}
					rings[k] = rings[k].rotated(i/7 + k)
				}
				if parts, ok := generateParts(t, rings); ok {
					checkParts(t, parts, w)
					t.Outcome(i)
				}
			})
			g3 := &grid{xs: []int64{-5000, -4000, 30000, 30301}, ys: []int64{0, 90000, 90500, 93000}}
			c.Run("all areas, orientations and orders of 3x3 cells", 1<<9, func(t *T, i int) {
				w := cellsFromMask(g3, i)
				t.Key("%v", w)
				base := w.outlines()
				n := len(base)
				for o := 0; o < 1<<uint(n); o++ {
					for rot := 0; rot < n || rot == 0; rot++ {
						rings := append([]ring{}, base...)
						for k := range rings {
							if o>>uint(k)&1 == 1 {
								rings[k] = rings[k].reversed()
							}
						}
						if n > 0 {
							rings = append(append([]ring{}, rings[rot:]...), rings[:rot]...)
						}
						parts, ok := generateParts(t, rings)
						if ok {
							checkParts(t, parts, w)
						}
						if t.Failed() {
							return
						}
					}
				}
				t.Outcome(i)
			})
			c.Run("nested areas", 1<<8, func(t *T, i int) {
				g := uniGrid(11, 11, 1500)
				w := newCells(g)
				for y := 0; y < 11; y++ {
					for x := 0; x < 11; x++ {
						d := min(min(x, 10-x), min(y, 10-y))
						w.on[y*11+x] = d < 5 && i>>uint(d)&1 == 1
						// further islands in the gaps
						if i>>5&1 == 1 && x == 5 && y == 1 || i>>6&1 == 1 && x == 3 && y == 5 || i>>7&1 == 1 && x == 5 && y == 5 {
							w.on[y*11+x] = !w.on[y*11+x]
						}
					}
				}
				t.Key("%v", w)
				if parts, ok := generateParts(t, w.outlines()); ok {
					checkParts(t, parts, w)
					t.Outcome(i)
				}
			})
			// three fields beside each other, each with its own content, in a plate or without
			c.Run("several holes with islands", 6*6*6*2, func(t *T, i int) {
				g := uniGrid(25, 9, 1100)
				w := newCells(g)
				k := i
				plate := k%2 == 0
				k /= 2
				for f := 0; f < 3; f++ {
					content := k % 6
					k /= 6
					for y := 0; y < 9; y++ {
						for x := 0; x < 9; x++ {
							d := min(min(x, 8-x), min(y, 8-y))
							// rings from the outside, the borders of the fields are shared
							on := [][5]bool{
								{true, true, true, true, true},     // solid
								{true, false, false, false, false}, // hole
								{true, false, true, true, true},    // island
								{true, false, true, false, false},  // island with a hole
								{true, false, true, false, true},   // island with a hole with an island
								{true, false, false, false, false},
							}[content][d]
							if content == 5 && y == 4 && (x == 2 || x == 4 || x == 6) {
								on = true // three islands
							}
							if d == 0 {
								on = plate
							} else if !plate && content == 0 {
								on = false
							}
							w.on[y*25+f*8+x] = on
						}
					}
				}
				t.Key("%v", w)
				base := w.outlines()
				for rot := 0; rot < len(base) || rot == 0; rot += c.Pick(1+len(base)/2, 1) {
					rings := append([]ring{}, base...)
					if rot > 0 {
						rings = append(append([]ring{}, base[rot:]...), base[:rot]...)
					}
					if parts, ok := generateParts(t, rings); ok {
						checkParts(t, parts, w)
					}
					if t.Failed() {
						return
					}
				}
				t.Outcome(i)
			})
			bigAreas(c, func(name string, n int, mk func(i int) cells) {
				c.Run(name, n, func(t *T, i int) {
					w := mk(i)
					t.Key("%d: %v", i, w)
					base := w.outlines()
					for k := 0; k < 6; k++ {
						rings := append([]ring{}, base...)
						for j := range rings {
							switch k {
							case 1:
								rings[j] = base[len(base)-1-j]
							case 2:
								rings[j] = base[j].reversed()
							case 3:
								rings[j] = base[(j+len(base)/2)%len(base)]
							case 4, 5:
								rings[j] = base[j*(k-3)%len(base)]
								if k == 5 && len(base)%2 == 0 {
									rings[j] = base[(j/2+j%2*len(base)/2)%len(base)].rotated(j)
								}
							}
						}
						if parts, ok := generateParts(t, rings); ok {
							checkParts(t, parts, w)
						}
						if t.Failed() {
							return
						}
					}
					t.Outcome(w.String())
				})
			})
			polyContours(c)
			mixedContours(c)
			// contours which have no area do not count
			flats := []ring{
				{{0, 0}, {1000, 0}}, {{0, 0}, {1000, 0}, {500, 0}}, {{0, 0}, {0, 900}, {0, 400}}, {{0, 0}, {700, 700}, {300, 300}},
				{{0, 0}, {300, 100}, {900, 300}, {600, 200}}, {{0, 0}, {0, 0}, {0, 0}}, {{0, 0}, {1000, 0}, {1000, 0}, {0, 0}}, {{0, 0}, {500, 200}, {1000, 0}, {500, 200}},
			}
			offs := []pt{{-3000, -3000}, {1000, 1000}, {5000, 3000}, {-500, 1000}, {0, 0}, {3000, 500}}
			areas := []int{0, 1, 1 + 4, 495, 511, 2 + 16 + 128}
			c.Run("contours without any area", len(flats)*len(offs)*len(areas)*3, func(t *T, i int) {
				f, o, w := flats[i%len(flats)], offs[i/len(flats)%len(offs)], cellsFromMask(uniGrid(3, 3, 2000), areas[i/len(flats)/len(offs)%len(areas)])
				var flat ring
				for _, p := range f {
					flat = append(flat, pt{p.x + o.x, p.y + o.y})
				}
				t.Key("%v and %v", w, flat)
				rings := w.outlines()
				switch i / len(flats) / len(offs) / len(areas) {
				case 0:
					rings = append(rings, flat)
				case 1:
					rings = append([]ring{flat}, rings...)
				case 2:
					rings = append([]ring{flat.reversed()}, append(rings, flat.reversed())...)
				}
				if parts, ok := generateParts(t, rings); ok {
					checkParts(t, parts, w)
					t.Outcome(w.String())
				}
			})
			if c.Thorough() {
				g5 := &grid{xs: []int64{0, 1000, 2001, 3500, 9000, 9700}, ys: []int64{0, 700, 1402, 2500, 3000}}
				c.Run("all areas of 5x4 cells", 1<<20, func(t *T, i int) {
					w := cellsFromMask(g5, i)
					t.Key("%v", w)
					if parts, ok := generateParts(t, w.outlines()); ok {
						checkParts(t, parts, w)
						t.Outcome(i)
					}
				})
			}
		}})

	register(&Check{ID: "C10", Level: "exploration",
		Rule:   "one evaluation = one pair of areas combined in three ways; distinct = different results",
		Assume: []string{"orthogonal areas and triangles"},
		Run: func(c *Ctx) {
			clipAll := func(t *T, a, b []data.LayerPart, want [3]cells) {
				cl := clip.NewClipper()
				sa, sb := showParts(a), showParts(b)
				for k, f := range []func(a, b []data.LayerPart) ([]data.LayerPart, bool){cl.Union, cl.Intersection, cl.Difference} {
					what := []string{"union", "intersection", "difference"}[k]
					r, ok := f(a, b)
					if !ok {
						t.Fail("%s: failed", what)
						continue
					}
					sameRegion(t, what, r, want[k], 1)
					for _, p := range r {
						if toRing(p.Outline()).area2() <= 0 {
							t.Fail("%s: an outline is not counter clockwise", what)
						}
						for _, h := range p.Holes() {
							if toRing(h).area2() >= 0 {
								t.Fail("%s: a hole is not clockwise", what)
							}
						}
					}
				}
				if showParts(a) != sa || showParts(b) != sb {
					t.Fail("the arguments were changed")
				}
				t.Outcome(want)
			}
			pairs := func(name string, g *grid, as, bs []int) {
				c.Run(name, len(as)*len(bs), func(t *T, i int) {
					a, b := cellsFromMask(g, as[i%len(as)]), cellsFromMask(g, bs[i/len(as)])
					t.Key("%v and %v", a, b)
					clipAll(t, a.parts(), b.parts(), [3]cells{a.combine(b, orF), a.combine(b, andF), a.combine(b, subF)})
				})
			}
			all := func(n int) (r []int) {
				for i := 0; i < n; i++ {
					r = append(r, i)
				}
				return
			}
			pairs("all pairs of areas of 3x2 cells", uniGrid(3, 2, 1000), all(64), all(64))
			var some []int
			for i := 0; i < 512; i += c.Pick(13, 1) {
				some = append(some, i)
			}
			pairs("pairs of areas of 3x3 cells", &grid{xs: []int64{0, 1000, 1900, 55000}, ys: []int64{7, 1000, 70000, 70400}}, all(512), some)
			// lists of parts which overlap each other stand for the area they cover together
			gs := uniGrid(c.Pick(2, 3), 2, 1300)
			nm := 1 << uint(gs.nx()*gs.ny())
			c.Run("overlapping parts", nm*nm*nm, func(t *T, i int) {
				a, b, d := cellsFromMask(gs, i%nm), cellsFromMask(gs, i/nm%nm), cellsFromMask(gs, i/nm/nm)
				t.Key("%v with %v and %v", a, b, d)
				l := append(a.parts(), b.parts()...)
				ab := a.combine(b, orF)
				clipAll(t, l, d.parts(), [3]cells{ab.combine(d, orF), ab.combine(d, andF), ab.combine(d, subF)})
				clipAll(t, d.parts(), l, [3]cells{ab.combine(d, orF), ab.combine(d, andF), d.combine(ab, subF)})
			})
			g5 := uniGrid(5, 5, 900)
			c.Run("overlapping rings", 25*25, func(t *T, i int) {
				// two rings at any places, cut by a block
				mk := func(k int) cells {
					w := newCells(g5)
					cx, cy := k%5, k/5
					for y := 0; y < 5; y++ {
						for x := 0; x < 5; x++ {
							w.on[y*5+x] = max(abs64(int64(x-cx)), abs64(int64(y-cy))) == 1
						}
					}
					return w
				}
				a, b := mk(i%25), mk(i/25)
				d := newCells(g5)
				for k := range d.on {
					d.on[k] = k%5 < 2 || k/5 == 3
				}
				t.Key("%v with %v", a, b)
				ab := a.combine(b, orF)
				clipAll(t, append(a.parts(), b.parts()...), d.parts(), [3]cells{ab.combine(d, orF), ab.combine(d, andF), ab.combine(d, subF)})
			})
			bigAreas(c, func(name string, n int, mk func(i int) cells) {
				if name == "levels" {
					n = c.Pick(22, n)
				}
				c.Run(name, n, func(t *T, i int) {
					a := mk(i)
					t.Key("%d: %v", i, a)
					// with its complement, with stripes in both directions and with a block
					for k := 0; k < 6; k++ {
						b := newCells(a.g)
						for j := range b.on {
							x, y := j%a.g.nx(), j/a.g.nx()
							b.on[j] = []bool{!a.on[j], x%2 == 0, y%2 == 1, x%3 == 1 && y%3 == 1, x < a.g.nx()/2, (x+y)%4 < 2}[k]
						}
						clipAll(t, a.parts(), b.parts(), [3]cells{a.combine(b, orF), a.combine(b, andF), a.combine(b, subF)})
						clipAll(t, b.parts(), a.parts(), [3]cells{b.combine(a, orF), b.combine(a, andF), b.combine(a, subF)})
						if t.Failed() {
							t.Fail("with %v", b)
							return
						}
					}
				})
			})
			// many parts which overlap in a row
			c.Run("chains of overlapping parts", 40*3, func(t *T, i int) {
				n := i/3 + 1
				g := &grid{ys: []int64{0, 1000, 2000, 3000}}
				for x := 0; x <= n+2; x++ {
					g.xs = append(g.xs, int64(x)*1000)
				}
				var l []data.LayerPart
				a, b := newCells(g), newCells(g)
				for k := 0; k < n; k++ {
					one := newCells(g)
					for x := 0; x < 2+i%3; x++ {
						if k+x < g.nx() {
							one.on[k+x] = true
							one.on[g.nx()+k+x] = k%2 == 0
						}
					}
					l = append(l, one.parts()...)
					a = a.combine(one, orF)
				}
				for k := range b.on {
					b.on[k] = k%g.nx()%4 == 1
				}
				t.Key("%d parts of length %d", n, 2+i%3)
				clipAll(t, l, b.parts(), [3]cells{a.combine(b, orF), a.combine(b, andF), a.combine(b, subF)})
				clipAll(t, b.parts(), l, [3]cells{a.combine(b, orF), a.combine(b, andF), b.combine(a, subF)})
				clipAll(t, l, l, [3]cells{a, a, newCells(g)})
				clipAll(t, l, nil, [3]cells{a, newCells(g), a})
			})
			trianglePairs(c)
			polyPairs(c)
			mixedOperations(c)
			// areas on grids which are shifted against each other
			shifted := []pt{{500, 500}, {-333, 250}, {1, 1}, {500, 0}}[:c.Pick(2, 4)]
			c.Run("shifted areas", 64*64*len(shifted), func(t *T, i int) {
				d := shifted[i/4096]
				ga, gb := uniGrid(3, 2, 1000), uniGrid(3, 2, 1000).shift(d.x, d.y)
				a, b := cellsFromMask(ga, i&63), cellsFromMask(gb, i>>6&63)
				t.Key("%v and %v shifted by %v", a, b, d)
				fine := &grid{xs: mergeAxis(ga.xs, gb.xs), ys: mergeAxis(ga.ys, gb.ys)}
				fa, fb := a.refine(fine), b.refine(fine)
				clipAll(t, a.parts(), b.parts(), [3]cells{fa.combine(fb, orF), fa.combine(fb, andF), fa.combine(fb, subF)})
			})
		}})

	register(&Check{ID: "C11", Level: "exploration",
		Rule:   "one evaluation = one area inset or exset several times; distinct = area and distances",
		Assume: []string{"orthogonal areas; at corners the border may lie anywhere between the rounded and the pointed offset, 3 um tolerance"},
		Run: func(c *Ctx) {
			type setting struct {
				offset, initial int64
				n               int
			}
			sets := []setting{
				{400, -200, 3}, {401, -200, 4}, {1000, -700, 2}, {1, -1499, 3}, {300, 0, 2}, {400, 200, 3},
				{-400, 400, 3}, {-600, 250, 4}, {-400, -600, 4}, {1500, 1490, 3}, {99, -2999, 1}, {-1501, 0, 2},
			}
			grids := []*grid{uniGrid(3, 3, 3000), {xs: []int64{0, 3000, 3180, 6000}, ys: []int64{0, 2800, 3050, 7000}}, {xs: []int64{-50000, -49000, 10000, 12001}, ys: []int64{0, 700, 2999, 80000}}}
			c.Run("insets of areas of 3x3 cells", 512*len(sets)*len(grids), func(t *T, i int) {
				s := sets[i/512%len(sets)]
				w := cellsFromMask(grids[i/512/len(sets)], i%512)
				t.Key("%v offset %d initial %d count %d", w, s.offset, s.initial, s.n)
				checkInset(t, w, s.offset, s.initial, s.n)
			})
			bigAreas(c, func(name string, n int, mk func(i int) cells) {
				more := append(sets[:len(sets):len(sets)], setting{60, -30, 14}, setting{-400, 400, 12}, setting{333, -5, 1})
				c.Run(name, n*len(more), func(t *T, i int) {
					s := more[i/n]
					w := mk(i % n)
					t.Key("%v offset %d initial %d count %d", w, s.offset, s.initial, s.n)
					checkInset(t, w, s.offset, s.initial, s.n)
				})
			})
			triangleInsets(c)
			polyInsets(c)
			mixedInsets(c)
			if c.Thorough() {
				c.Run("insets of areas of 4x4 cells", 1<<16*2, func(t *T, i int) {
					s := sets[(i>>16)*6]
					w := cellsFromMask(uniGrid(4, 4, 2500), i&(1<<16-1))
					t.Key("%v offset %d initial %d count %d", w, s.offset, s.initial, s.n)
					checkInset(t, w, s.offset, s.initial, s.n)
				})
			}
		}})
}

func mergeAxis(a, b []int64) []int64 {
	var out []int64
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		var v int64
		if j >= len(b) || (i < len(a) && a[i] <= b[j]) {
			v = a[i]
			i++
		} else {
			v = b[j]
			j++
		}
		if len(out) == 0 || out[len(out)-1] != v {
			out = append(out, v)
		}
	}
	return out
}

// refine expresses the cells on a finer grid.
func (c cells) refine(g *grid) cells {
	r := newCells(g)
	for i := range r.on {
		x := float64(g.xs[i%g.nx()]+g.xs[i%g.nx()+1]) / 2
		y := float64(g.ys[i/g.nx()]+g.ys[i/g.nx()+1]) / 2
		r.on[i] = c.has(x, y)
	}
	return r
}

// offsetCheck compares the parts with the cells grown by d (shrunk if d is negative).
func offsetCheck(t *T, what string, parts []data.LayerPart, w cells, d int64, tol float64) bool {
	g := partsRegion(parts).scanner()
	offs := []int64{10, abs64(d) - 15, abs64(d) + 15, int64(float64(abs64(d)) * 0.6), int64(float64(abs64(d))*0.8) + 20}
	for _, p := range w.probes(offs) {
		var must, mustNot bool
		if d >= 0 {
			e, m := w.dists(true, p[0], p[1])
			must, mustNot = e < float64(d)-tol, m > float64(d)+tol
		} else {
			e, m := w.dists(false, p[0], p[1])
			must, mustNot = m > float64(-d)+tol, e < float64(-d)-tol
		}
		in := g.has(p[0], p[1])
		if (must && !in) || (mustNot && in) {
			t.Fail("%s: the point (%.0f,%.0f) is inside=%v; cells %v %v %v offset by %d; parts %s", what, p[0], p[1], in, w, w.g.xs, w.g.ys, d, showParts(parts))
			return false
		}
	}
	return true
}

func checkInset(t *T, w cells, offset, initial int64, n int) {
	parts := w.parts()
	before := showParts(parts)
	cl := clip.NewClipper()
	res := cl.InsetLayer(parts, data.Micrometer(offset), n, data.Micrometer(initial))
	if len(res) != len(parts) {
		t.Fail("%d results for %d parts", len(res), len(parts))
		return
	}
	if showParts(parts) != before {
		t.Fail("the parts were changed")
	}
	lab, _ := w.components(true, false)
	for k := range parts {
		if len(res[k]) != n {
			t.Fail("part %d has %d insets, want %d", k, len(res[k]), n)
			return
		}
		// the cells of this part
		own := newCells(w.g)
		pr := partsRegion([]data.LayerPart{parts[k]}).scanner()
		for i := range own.on {
			x := float64(w.g.xs[i%w.g.nx()]+w.g.xs[i%w.g.nx()+1])/2 + 0.3
			y := float64(w.g.ys[i/w.g.nx()]+w.g.ys[i/w.g.nx()+1])/2 + 0.3
			own.on[i] = lab[i] >= 0 && pr.has(x, y)
		}
		own = own.compact()
		for j := range res[k] {
			d := initial - int64(j)*offset
			if !offsetCheck(t, "inset", res[k][j], own, d, 3) {
				t.Fail("part %d inset %d", k, j)
				return
			}
			for _, p := range res[k][j] {
				if toRing(p.Outline()).area2() <= 0 {
					t.Fail("an outline is not counter clockwise: %v", toRing(p.Outline()))
				}
				for _, h := range p.Holes() {
					if toRing(h).area2() >= 0 {
						t.Fail("a hole is not clockwise: %v", toRing(h))
					}
				}
			}
			t.Outcome(int(math.Round(partsArea(res[k][j]))))
		}
	}
	t.Outcome(w.String(), offset, initial, n)
}
