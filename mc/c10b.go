package main

import (
	"math"

	"github.com/aligator/goslice/clip"
	"github.com/aligator/goslice/data"
)

// latticeTriangles lists all triangles over a lattice of nx*ny points, counter clockwise.
func latticeTriangles(nx, ny int, dx, dy int64) []ring {
	var p []pt
	for x := 0; x < nx; x++ {
		for y := 0; y < ny; y++ {
			p = append(p, pt{int64(x) * dx, int64(y) * dy})
		}
	}
	var out []ring
	for a := range p {
		for b := a + 1; b < len(p); b++ {
			for d := b + 1; d < len(p); d++ {
				r := ring{p[a], p[b], p[d]}
				if r.area2() < 0 {
					r = ring{p[a], p[d], p[b]}
				}
				if r.area2() != 0 {
					out = append(out, r)
				}
			}
		}
	}
	return out
}

func (r ring) convex() convex {
	c := make(convex, len(r))
	for i, p := range r {
		c[i] = fpt{float64(p.x), float64(p.y)}
	}
	return c
}

// trianglePairs checks the combinations of pairs of triangles.
func trianglePairs(c *Ctx) {
	tris := latticeTriangles(3, c.Pick(3, 4), 5003, 4001)
	c.Run("pairs of triangles", len(tris)*len(tris)*2, func(t *T, i int) {
		a, b := tris[i%len(tris)], tris[i/len(tris)%len(tris)]
		if i >= len(tris)*len(tris) {
			// off the lattice
			nb := ring{}
			for _, p := range b {
				nb = append(nb, pt{p.x + 1234, p.y - 777})
			}
			b = nb
		}
		t.Key("%v and %v", a, b)
		ca, cb := a.convex(), b.convex()
		cl := clip.NewClipper()
		pa, pb := []data.LayerPart{data.NewBasicLayerPart(a.path(), nil)}, []data.LayerPart{data.NewBasicLayerPart(b.path(), nil)}
		var area [3]float64
		for k, f := range []func(a, b []data.LayerPart) ([]data.LayerPart, bool){cl.Union, cl.Intersection, cl.Difference} {
			what := []string{"union", "intersection", "difference"}[k]
			r, ok := f(pa, pb)
			if !ok {
				t.Fail("%s failed", what)
				return
			}
			area[k] = partsArea(r)
			g := partsRegion(r)
			for x := 0; x < 14; x++ {
				for y := 0; y < 14; y++ {
					px, py := float64(x)*901-600, float64(y)*833-1300
					da, db := ca.depth(px, py), cb.depth(px, py)
					if math.Abs(da) < 3 || math.Abs(db) < 3 {
						continue
					}
					want := [3]bool{da > 0 || db > 0, da > 0 && db > 0, da > 0 && db < 0}[k]
					if g.has(px, py) != want {
						t.Fail("%s: the point (%.0f,%.0f) is inside=%v; parts %s", what, px, py, !want, showParts(r))
						return
					}
				}
			}
		}
		sa, sb := float64(a.area2())/2, float64(b.area2())/2
		tol := 4*(a.perimeter()+b.perimeter()) + 1
		if math.Abs(area[0]+area[1]-sa-sb) > tol || math.Abs(area[2]+area[1]-sa) > tol {
			t.Fail("the areas do not add up: %.0f and %.0f give %.0f", sa, sb, area)
		}
		t.Outcome(math.Round(area[0]/1000), math.Round(area[1]/1000), math.Round(area[2]/1000))
	})
}

// triangleInsets checks the offsets of triangles.
func triangleInsets(c *Ctx) {
	tris := latticeTriangles(4, c.Pick(3, 4), 5003, 4001)
	sets := [][3]int64{{400, -200, 3}, {-400, 400, 3}, {1000, -100, 2}, {-1001, 300, 3}}
	c.Run("insets of triangles", len(tris)*len(sets), func(t *T, i int) {
		r := tris[i%len(tris)]
		s := sets[i/len(tris)]
		t.Key("%v offset %d initial %d count %d", r, s[0], s[1], s[2])
		res := clip.NewClipper().Inset(data.NewBasicLayerPart(r.path(), nil), data.Micrometer(s[0]), int(s[2]), data.Micrometer(s[1]))
		if len(res) != int(s[2]) {
			t.Fail("%d insets", len(res))
			return
		}
		cv := r.convex()
		for k := range res {
			d := float64(s[1] - int64(k)*s[0])
			g := partsRegion(res[k])
			for x := -4; x < 22; x++ {
				for y := -4; y < 22; y++ {
					px, py := float64(x)*701+13, float64(y)*603+7
					dep := cv.depth(px, py)
					must, mustNot := dep > -d+4, dep < -d-4
					if d > 0 {
						mustNot = dep < -d*math.Sqrt2-4
					}
					if in := g.has(px, py); (must && !in) || (mustNot && in) {
						t.Fail("offset %.0f: the point (%.0f,%.0f) is inside=%v, depth %.0f; parts %s", d, px, py, in, dep, showParts(res[k]))
						return
					}
				}
			}
			t.Outcome(math.Round(partsArea(res[k])))
		}
	})
}
