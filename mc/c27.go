package main

import (
	"fmt"
	"math"
	"math/bits"
	"sort"

	"github.com/aligator/goslice/clip"
	"github.com/aligator/goslice/data"
)

// ---- C27: questions about areas ----

// hullRing returns the corners of the convex hull, counter clockwise without points on the edges.
func hullRing(ps []pt) ring {
	ps = append([]pt{}, ps...)
	sort.Slice(ps, func(i, j int) bool { return ps[i].x < ps[j].x || ps[i].x == ps[j].x && ps[i].y < ps[j].y })
	cross := func(a, b, c pt) int64 { return (b.x-a.x)*(c.y-a.y) - (b.y-a.y)*(c.x-a.x) }
	var lo, up ring
	for _, p := range ps {
		for len(lo) > 1 && cross(lo[len(lo)-2], lo[len(lo)-1], p) <= 0 {
			lo = lo[:len(lo)-1]
		}
		lo = append(lo, p)
	}
	for i := len(ps) - 1; i >= 0; i-- {
		for len(up) > 1 && cross(up[len(up)-2], up[len(up)-1], ps[i]) <= 0 {
			up = up[:len(up)-1]
		}
		up = append(up, ps[i])
	}
	return append(lo[:len(lo)-1], up[:len(up)-1]...)
}

func checkHull(t *T, parts []data.LayerPart, ps []pt) {
	before := showParts(parts)
	h, ok := clip.NewClipper().Hull(parts)
	if !ok {
		t.Fail("%v: no hull", ps)
		return
	}
	if showParts(parts) != before {
		t.Fail("%v: the parts have been changed to %s", ps, showParts(parts))
		return
	}
	want := hullRing(ps)
	got := toRing(h)
	if len(want) < 3 {
		return
	}
	at := map[pt]bool{}
	for _, p := range ps {
		at[p] = true
	}
	for _, p := range got {
		if !at[p] {
			t.Fail("%v: the hull has the point %v which is none of them", ps, p)
			return
		}
	}
	has := map[pt]bool{}
	for _, p := range got {
		has[p] = true
	}
	for _, p := range want {
		if !has[p] {
			t.Fail("%v: the hull %v misses the corner %v", ps, got, p)
			return
		}
	}
	if abs64(got.area2()) != want.area2() {
		t.Fail("%v: the hull %v is no convex polygon", ps, got)
	}
	t.Outcome(len(want), len(got))
}

func init() {
	register(&Check{ID: "C27", Level: "exploration",
		Rule:   "one evaluation = one area with all ways, one set of points or one arrangement of outlines; states = single ways",
		Assume: []string{"ways which touch the border without crossing it are not judged; outlines which overlap each other are not judged"},
		Run: func(c *Ctx) {
			grids := []*grid{
				{xs: []int64{10000, 13000, 17000, 20000}, ys: []int64{5000, 9000, 12000, 16000}},
				{xs: []int64{-3000, -2000, 900, 1000}, ys: []int64{-50, 0, 90000, 90400}},
			}
			c.Run("ways through areas of 3x3 cells", 512*len(grids), func(t *T, i int) {
				g := grids[i/512]
				w := cellsFromMask(g, i%512)
				t.Key("%v", w)
				frac := []float64{0.13, 0.5, 0.83}
				if c.Thorough() {
					frac = []float64{0.07, 0.21, 0.5, 0.61, 0.93}
				}
				coord := func(v []int64) []int64 {
					r := []int64{v[0] - 1777}
					for k := 0; k+1 < len(v); k++ {
						for j, f := range frac {
							if (k+j)%2 == 0 || c.Thorough() {
								r = append(r, v[k]+int64(f*float64(v[k+1]-v[k])))
							}
						}
					}
					return append(r, v[len(v)-1]+901)
				}
				xs, ys := coord(g.xs), coord(g.ys)
				var ps []pt
				for _, x := range xs {
					for _, y := range ys {
						ps = append(ps, pt{x, y})
					}
				}
				cl := clip.NewClipper()
				parts := w.parts()
				before := showParts(parts)
				n := 0
				for _, p := range ps {
					for _, q := range ps {
						if p == q {
							continue
						}
						want := w.leaves(p, q, 1.5)
						if want < 0 {
							continue
						}
						got, ok := cl.IsCrossingPerimeter(parts, ring{p, q}.path())
						if !ok || got != (want == 1) {
							t.Fail("from %v to %v: crossing=%v (%v), want %v; cells %v", p, q, got, ok, want == 1, w)
							return
						}
						n++
					}
				}
				if showParts(parts) != before {
					t.Fail("the parts have been changed")
				}
				t.States(n, n)
				t.Outcome(i)
			})
			bigAreas(c, func(name string, n int, mk func(i int) cells) {
				c.Run("ways and outlines: "+name, n, func(t *T, i int) {
					w := mk(i)
					t.Key("%d %v", i, w)
					parts := w.parts()
					cl := clip.NewClipper()
					g := w.g
					var ps []pt
					nc := len(w.on)
					for k := 0; k < nc; k += 1 + nc/c.Pick(30, 80) {
						x, y := k%g.nx(), k/g.nx()
						ps = append(ps, pt{g.xs[x] + (g.xs[x+1]-g.xs[x])*int64(2+k%5)/9, g.ys[y] + (g.ys[y+1]-g.ys[y])*int64(3+k%4)/9})
					}
					ps = append(ps, pt{g.xs[0] - 1500, g.ys[0] - 700}, pt{g.xs[g.nx()] + 800, g.ys[g.ny()] + 2100})
					m := 0
					for _, p := range ps {
						for _, q := range ps {
							want := -1
							if p != q {
								want = w.leaves(p, q, 1.5)
							}
							if want < 0 {
								continue
							}
							got, ok := cl.IsCrossingPerimeter(parts, ring{p, q}.path())
							if !ok || got != (want == 1) {
								t.Fail("from %v to %v: crossing=%v (%v), want %v; cells %v", p, q, got, ok, want == 1, w)
								return
							}
							m++
						}
					}
					t.States(m, m)
					var all []pt
					for _, p := range parts {
						all = append(all, toRing(p.Outline())...)
					}
					checkHull(t, parts, all)
					checkTop(t, parts)
					for a, b := 0, len(parts)-1; a < b; a, b = a+1, b-1 {
						parts[a], parts[b] = parts[b], parts[a]
					}
					checkTop(t, parts)
					t.Outcome(w.String())
				})
			})
			c.Run("bent ways through areas of 3x3 cells", 512, func(t *T, i int) {
				g := grids[0]
				w := cellsFromMask(g, i)
				t.Key("%v", w)
				var ps []pt
				for _, x := range []int64{8000, 11500, 15900, 18800} {
					for _, y := range []int64{7300, 10700, 15100} {
						ps = append(ps, pt{x, y})
					}
				}
				cl := clip.NewClipper()
				parts := w.parts()
				n := 0
				for _, p := range ps {
					for _, q := range ps {
						for _, r := range ps {
							if p == q || q == r || (i+int(p.x+q.y))%c.Pick(3, 1) != 0 {
								continue
							}
							a, b := w.leaves(p, q, 1.5), w.leaves(q, r, 1.5)
							if a < 0 || b < 0 {
								continue
							}
							got, ok := cl.IsCrossingPerimeter(parts, ring{p, q, r}.path())
							if want := a == 1 || b == 1; !ok || got != want {
								t.Fail("from %v over %v to %v: crossing=%v (%v), want %v; cells %v", p, q, r, got, ok, want, w)
								return
							}
							n++
						}
					}
				}
				t.States(n, n)
				t.Outcome(i)
			})
			tris := latticeTriangles(3, 3, 5003, 4001)
			c.Run("ways through pairs of triangles", len(tris)*len(tris), func(t *T, i int) {
				a, b := tris[i%len(tris)], tris[i/len(tris)]
				nb := ring{}
				for _, p := range b {
					nb = append(nb, pt{p.x + 11000, p.y + 1000})
				}
				b = nb
				t.Key("%v and %v", a, b)
				parts := []data.LayerPart{data.NewBasicLayerPart(a.path(), nil), data.NewBasicLayerPart(b.path(), nil)}
				g := partsRegion(parts)
				cl := clip.NewClipper()
				n := 0
				var ps []pt
				for x := int64(400); x < 21500; x += int64(c.Pick(3571, 1571)) {
					for y := int64(300); y < 9500; y += int64(c.Pick(1931, 931)) {
						if g.dist(float64(x), float64(y)) > 3 {
							ps = append(ps, pt{x, y})
						}
					}
				}
				for _, p := range ps {
					for _, q := range ps {
						if p == q {
							continue
						}
						in := func(r ring) bool { return r.has(float64(p.x), float64(p.y)) && r.has(float64(q.x), float64(q.y)) }
						want := !in(a) && !in(b)
						got, ok := cl.IsCrossingPerimeter(parts, ring{p, q}.path())
						if !ok || got != want {
							t.Fail("from %v to %v: crossing=%v (%v), want %v; triangles %v and %v", p, q, got, ok, want, a, b)
							return
						}
						n++
					}
				}
				t.States(n, n)
				t.Outcome(i)
			})

			polyWays(c)
			mixedWays(c)

			// hulls
			hx, hy := []int64{0, 1000, 2500, 6000}, []int64{-700, 0, 650, 1000}
			c.Run("hulls of all sets of 4x4 points", 1<<16, func(t *T, i int) {
				if bits.OnesCount(uint(i)) < 3 {
					return
				}
				var ps []pt
				for b := 0; b < 16; b++ {
					// in an order which is not sorted
					k := b * 7 % 16
					if i>>uint(k)&1 == 1 {
						ps = append(ps, pt{hx[k%4], hy[k/4]})
					}
				}
				t.Key("%v", ps)
				// in one part, and spread over parts
				checkHull(t, []data.LayerPart{data.NewBasicLayerPart(ring(ps).path(), nil)}, ps)
				m := len(ps) / 2
				checkHull(t, []data.LayerPart{
					data.NewBasicLayerPart(ring(ps[:m]).path(), data.Paths{ring{{1, 1}, {2, 2}, {3, 1}}.path()}),
					data.NewBasicLayerPart(ring(ps[m:]).path(), nil)}, ps)
			})
			c.Run("hulls of areas of 3x3 cells", 511, func(t *T, i int) {
				w := cellsFromMask(grids[0], i+1)
				t.Key("%v", w)
				parts := w.parts()
				var ps []pt
				for _, p := range parts {
					ps = append(ps, toRing(p.Outline())...)
				}
				checkHull(t, parts, ps)
			})
			c.Run("hulls of round polygons", 300, func(t *T, i int) {
				t.Key("%d corners", i+3)
				var ps []pt
				for a := 0; a < i+3; a++ {
					w := 2 * math.Pi * float64(a) / float64(i+3)
					ps = append(ps, pt{int64(50000 + 30000*math.Cos(w)), int64(-20000 + 10000*math.Sin(w))})
					if i%3 == 0 {
						ps = append(ps, pt{50000 + int64(a), -20000})
					}
				}
				checkHull(t, []data.LayerPart{data.NewBasicLayerPart(ring(ps).path(), nil)}, ps)
			})

			// top level outlines
			type rect struct{ x0, y0, x1, y1 int64 }
			var rs []rect
			for x0 := int64(0); x0 < 4; x0++ {
				for x1 := x0 + 1; x1 < 4; x1++ {
					for y0 := int64(0); y0 < 4; y0++ {
						for y1 := y0 + 1; y1 < 4; y1++ {
							rs = append(rs, rect{x0 * 10000, y0 * 10000, x1 * 10000, y1 * 10000})
						}
					}
				}
			}
			k := c.Pick(3, 4)
			total := 1
			for j := 0; j < k; j++ {
				total *= len(rs)
			}
			c.Run(fmt.Sprintf("outlines not inside of others, up to %d", k), total, func(t *T, i int) {
				var sel []rect
				m := i
				for j := 0; j < k; j++ {
					r := rs[m%len(rs)]
					m /= len(rs)
					// no two have a common border
					d := int64(j) * 700
					if j == 0 || r != sel[0] || true {
						sel = append(sel, rect{r.x0 + d, r.y0 + d, r.x1 - 1000 + d/2, r.y1 - 1000 + d/2})
					}
				}
				t.Key("%v", sel)
				inside := func(a, b rect) bool { return a.x0 > b.x0 && a.y0 > b.y0 && a.x1 < b.x1 && a.y1 < b.y1 }
				apart := func(a, b rect) bool { return a.x1 < b.x0 || b.x1 < a.x0 || a.y1 < b.y0 || b.y1 < a.y0 }
				var want []string
				var parts []data.LayerPart
				for a, r := range sel {
					top := true
					for b, s := range sel {
						if a == b {
							continue
						}
						if inside(r, s) {
							top = false
						} else if !inside(s, r) && !apart(r, s) {
							return
						}
					}
					if top {
						want = append(want, fmt.Sprint(r))
					}
					parts = append(parts, data.NewBasicLayerPart(ring{{r.x0, r.y0}, {r.x1, r.y0}, {r.x1, r.y1}, {r.x0, r.y1}}.path(), nil))
				}
				tops, ok := clip.NewClipper().TopLevelPolygons(parts)
				var got []string
				for _, p := range tops {
					a, b := p.Bounds()
					got = append(got, fmt.Sprint(rect{int64(a.X()), int64(a.Y()), int64(b.X()), int64(b.Y())}))
					if abs64(toRing(p).area2()) != 2*int64((b.X()-a.X())*(b.Y()-a.Y())) {
						t.Fail("%v: the outline %v is no rectangle", sel, showPath(p))
					}
				}
				sort.Strings(want)
				sort.Strings(got)
				if !ok || fmt.Sprint(got) != fmt.Sprint(want) {
					t.Fail("%v: the top level outlines are %v (%v) and should be %v", sel, got, ok, want)
				}
				t.Outcome(want)
			})
			nc := c.Pick(4, 5)
			ng := uniGrid(nc, 4, 3000)
			c.Run(fmt.Sprintf("outer outlines of areas of %dx4 cells", nc), 1<<uint(4*nc), func(t *T, i int) {
				w := cellsFromMask(ng, i)
				if w.cornerContact() {
					return
				}
				t.Key("%v", w)
				parts := w.parts()
				checkTop(t, parts)
			})
		}})
}

func boundsText(p data.Path) string {
	a, b := p.Bounds()
	return fmt.Sprint(a.X(), a.Y(), b.X(), b.Y())
}

// checkTop compares the top level outlines of parts which do not touch each other.
func checkTop(t *T, parts []data.LayerPart) {
	// an outline is inside of another one if a cell of it is not connected to the outside without crossing that one
	var want []string
	for a, p := range parts {
		x, y := toRing(p.Outline()).innerPoint()
		top := true
		for b, q := range parts {
			if a != b && toRing(q.Outline()).has(x, y) {
				top = false
			}
		}
		if top {
			want = append(want, boundsText(p.Outline()), fmt.Sprint(abs64(toRing(p.Outline()).area2())))
		}
	}
	tops, ok := clip.NewClipper().TopLevelPolygons(parts)
	var got []string
	for _, p := range tops {
		got = append(got, boundsText(p), fmt.Sprint(abs64(toRing(p).area2())))
	}
	sort.Strings(want)
	sort.Strings(got)
	if !ok && len(parts) > 0 || fmt.Sprint(got) != fmt.Sprint(want) {
		t.Fail("the top level outlines are %v (%v) and should be %v", got, ok, want)
	}
	t.Outcome(want)
}
