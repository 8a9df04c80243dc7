package main

import (
	"math"

	"github.com/aligator/goslice/data"
)

// ---- C23: smoothing of paths ----

// lattice lists the points of an uneven lattice.
func lattice(xs, ys []int64) [][2]int64 {
	var r [][2]int64
	for _, x := range xs {
		for _, y := range ys {
			r = append(r, [2]int64{x, y})
		}
	}
	return r
}

func microPathOf(ps [][2]int64) data.Path {
	r := data.Path{}
	for _, p := range ps {
		r = append(r, data.NewMicroPoint(data.Micrometer(p[0]), data.Micrometer(p[1])))
	}
	return r
}

func samePoint(p data.MicroPoint, q [2]int64) bool {
	return p != nil && int64(p.X()) == q[0] && int64(p.Y()) == q[1]
}

func segDist2(p, a, b [2]int64) float64 {
	return segDist(float64(p[0]), float64(p[1]), pt{a[0], a[1]}, pt{b[0], b[1]})
}

// subsequence matches the result with the points of the path in the way that keeps the farthest
// dropped point as near as possible; the first and the last point have to be kept.
// It returns a negative number if the result is no subsequence.
func subsequence(ps [][2]int64, res data.Path) float64 {
	n, m := len(ps), len(res)
	if m == 0 || m > n {
		return -1
	}
	inf := math.Inf(1)
	// best[j]: result point k is point j
	best := make([]float64, n)
	for j := range best {
		best[j] = inf
	}
	if !samePoint(res[0], ps[0]) {
		return -1
	}
	best[0] = 0
	for k := 1; k < m; k++ {
		nb := make([]float64, n)
		for j := range nb {
			nb[j] = inf
		}
		for j := k; j < n; j++ {
			if !samePoint(res[k], ps[j]) {
				continue
			}
			for i := 0; i < j; i++ {
				if math.IsInf(best[i], 1) {
					continue
				}
				d := best[i]
				for l := i + 1; l < j; l++ {
					d = math.Max(d, segDist2(ps[l], ps[i], ps[j]))
				}
				nb[j] = math.Min(nb[j], d)
			}
		}
		best = nb
	}
	if math.IsInf(best[n-1], 1) {
		return -1
	}
	return best[n-1]
}

// smoothCheck runs one path through DouglasPeucker.
func smoothCheck(t *T, ps [][2]int64, eps data.Micrometer) {
	tol := math.Sqrt(float64(eps))
	if eps == -1 {
		tol = math.Sqrt(70)
	}
	// rounding of the squares in the integer arithmetic
	tol = math.Sqrt(tol*tol+1.01) + 1e-6
	in := microPathOf(ps)
	res := data.DouglasPeucker(in, eps)
	res = append(data.Path{}, res...)
	t.States(1, 1)
	for i := range ps {
		if !samePoint(in[i], ps[i]) {
			t.Fail("path %v, epsilon %d: the smoothing changed the path of the caller to %v", ps, eps, showPath(in))
			return
		}
	}
	if len(ps) <= 2 {
		if len(res) != len(ps) {
			t.Fail("path %v became %v", ps, showPath(res))
		}
		return
	}
	d := subsequence(ps, res)
	switch {
	case d < 0:
		t.Fail("path %v, epsilon %d: %v is no part of it with the same ends", ps, eps, showPath(res))
	case d > tol:
		t.Fail("path %v, epsilon %d: %v is %.1f um away from a dropped point", ps, eps, showPath(res), d)
	}
	t.Outcome(len(ps), len(res))
}

func showPath(p data.Path) [][2]int64 {
	var r [][2]int64
	for _, q := range p {
		r = append(r, [2]int64{int64(q.X()), int64(q.Y())})
	}
	return r
}

// eachTuple calls f with all sequences of n of the k values; the first ones are given by prefix.
func eachTuple(k, n int, prefix []int, f func(s []int)) {
	s := append([]int{}, prefix...)
	s = append(s, make([]int, n-len(prefix))...)
	for {
		f(s)
		i := n - 1
		for i >= len(prefix) && s[i] == k-1 {
			s[i] = 0
			i--
		}
		if i < len(prefix) {
			return
		}
		s[i]++
	}
}

// cyclicCheck judges the result of Simplify for a closed path.
func cyclicCheck(t *T, ps [][2]int64, small, allowed data.Micrometer, thick bool) {
	in := microPathOf(ps)
	res := in.Simplify(small, allowed)
	res = append(data.Path{}, res...)
	t.States(1, 1)
	for i := range ps {
		if !samePoint(in[i], ps[i]) {
			t.Fail("polygon %v: the simplification changed the polygon of the caller to %v", ps, showPath(in))
			return
		}
	}
	n := len(ps)
	if n < 3 {
		return
	}
	tol := 10.0
	if allowed > 25 {
		tol = math.Sqrt(float64(allowed))
	}
	// a sequence of the points in the same order
	j := 0
	var kept []int
	for _, q := range res {
		for j < n && !samePoint(q, ps[j]) {
			j++
		}
		if j == n {
			t.Fail("polygon %v: %v is no part of it", ps, showPath(res))
			return
		}
		kept = append(kept, j)
		j++
	}
	// no removed point is far away from the result, unless the polygon is only a sliver
	if !thick && thinPolygon(ps) {
		return
	}
	if len(res) < 3 {
		t.Fail("polygon %v vanished: %v", ps, showPath(res))
		return
	}
	for i, p := range ps {
		d := math.Inf(1)
		for k := range res {
			a, b := ps[kept[k]], ps[kept[(k+1)%len(kept)]]
			d = math.Min(d, segDist2(p, a, b))
		}
		if d > tol+2 {
			t.Fail("polygon %v: point %d is %.1f um away from the simplified %v", ps, i, d, showPath(res))
			return
		}
	}
	// a point exactly on the way between its neighbours goes
	if len(ps) > 3 {
		for k := range res {
			if len(kept) < 4 {
				break
			}
			p := ps[kept[k]]
			a, b := ps[kept[(k+len(kept)-1)%len(kept)]], ps[kept[(k+1)%len(kept)]]
			cross := (b[0]-a[0])*(p[1]-a[1]) - (b[1]-a[1])*(p[0]-a[0])
			dot := (p[0]-a[0])*(b[0]-p[0]) + (p[1]-a[1])*(b[1]-p[1])
			if cross == 0 && dot > 0 && k > 0 && k < len(kept)-1 {
				t.Fail("polygon %v: %v keeps the point %v in the middle of a straight line", ps, showPath(res), p)
				return
			}
		}
	}
	t.Outcome(len(ps), len(res))
}

// simplePolygon tells if no two edges touch but neighbours at their common point.
func simplePolygon(ps [][2]int64) bool {
	n := len(ps)
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			a, b, c, d := ps[i], ps[(i+1)%n], ps[j], ps[(j+1)%n]
			if a == b || c == d {
				return false
			}
			switch {
			case j == i+1:
				if segDist2(d, a, b) == 0 && n > 2 || segDist2(a, c, d) == 0 {
					return false
				}
			case i == 0 && j == n-1:
				if segDist2(c, a, b) == 0 || segDist2(b, c, d) == 0 {
					return false
				}
			default:
				if segsTouch(a, b, c, d) {
					return false
				}
			}
		}
	}
	return true
}

func orient(a, b, c [2]int64) int {
	v := (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0])
	switch {
	case v > 0:
		return 1
	case v < 0:
		return -1
	}
	return 0
}

func segsTouch(a, b, c, d [2]int64) bool {
	if orient(a, b, c) != orient(a, b, d) && orient(c, d, a) != orient(c, d, b) {
		return true
	}
	return segDist2(c, a, b) == 0 || segDist2(d, a, b) == 0 || segDist2(a, c, d) == 0 || segDist2(b, c, d) == 0
}

// thinPolygon tells if the polygon has parts which are as thin as the tolerance:
// corners so sharp that they are spikes, or points near other edges.
func thinPolygon(ps [][2]int64) bool {
	n := len(ps)
	if !simplePolygon(ps) {
		return true
	}
	x0, y0, x1, y1 := ps[0][0], ps[0][1], ps[0][0], ps[0][1]
	for _, p := range ps {
		x0, y0, x1, y1 = min(x0, p[0]), min(y0, p[1]), max(x1, p[0]), max(y1, p[1])
	}
	if x1-x0 < 50 || y1-y0 < 50 {
		return true
	}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			k := (j + 1) % n
			if i == j || i == k {
				continue
			}
			if segDist2(ps[i], ps[j], ps[k]) < 40 {
				// near to a neighbouring edge only because the edge between is short or flat
				l, r := (i+n-1)%n, (i+1)%n
				m, o, q := ps[r], ps[i], ps[k]
				if k == l {
					m, q = ps[l], ps[j]
				}
				if (j == r || k == l) && (o[0]-m[0])*(q[0]-m[0])+(o[1]-m[1])*(q[1]-m[1]) <= 0 {
					continue
				}
				return true
			}
		}
	}
	return false
}

func init() {
	register(&Check{ID: "C23", Level: "exploration",
		Rule:   "one evaluation = all paths with the same first two points through the smoothing; distinct = different numbers of points; states = single paths",
		Assume: []string{"simple polygons without slivers for the simplification; the tolerance includes the rounding of the integer arithmetic"},
		Run: func(c *Ctx) {
			lats := []struct {
				name string
				pts  [][2]int64
				n    int
			}{
				{"fine", lattice([]int64{0, 5, 9, 20}, []int64{0, 6, 9, 12}), c.Pick(5, 6)},
				{"long and flat", lattice([]int64{0, 3000, 10000, 20000}, []int64{0, 5, 8, 9}), c.Pick(5, 6)},
				{"flat and offset", lattice([]int64{-90000, -3000, 40000}, []int64{200000, 200006, 200009, 200030}), c.Pick(4, 5)},
				{"coarse", lattice([]int64{-30000, 0, 60000}, []int64{-60000, 10, 60000}), c.Pick(5, 6)},
			}
			for _, l := range lats {
				l := l
				k := len(l.pts)
				c.Run("paths, "+l.name, k*k, func(t *T, i int) {
					t.Key("%s from %v to %v", l.name, l.pts[i/k], l.pts[i%k])
					for n := 2; n <= l.n; n++ {
						eachTuple(k, n, []int{i / k, i % k}, func(s []int) {
							if t.Failed() {
								return
							}
							ps := make([][2]int64, n)
							for a, b := range s {
								ps[a] = l.pts[b]
							}
							smoothCheck(t, ps, -1)
							if n <= 4 {
								for _, e := range []data.Micrometer{0, 1, 30, 400, 1000000} {
									smoothCheck(t, ps, e)
								}
							}
						})
					}
				})
			}
			zig := c.Pick(10, 13)
			c.Run("bends of long paths", 64, func(t *T, i int) {
				// each point of a path of many points is a little beside the straight line
				step := []int64{1, 4, 40, 8000}[i%4]
				amp := []int64{3, 5, 8, 9}[i/4%4]
				tail := []int64{0, 4, 9, 200}[i/16]
				t.Key("step %d, offset %d, end %d", step, amp, tail)
				n := zig
				for m := 0; m < 1<<uint(n); m++ {
					ps := [][2]int64{{0, 0}}
					for b := 0; b < n; b++ {
						y := int64(0)
						if m>>uint(b)&1 == 1 {
							y = amp
						}
						ps = append(ps, [2]int64{int64(b+1) * step, y})
					}
					ps = append(ps, [2]int64{int64(n+1) * step, tail})
					smoothCheck(t, ps, -1)
					if t.Failed() {
						return
					}
				}
			})
			c.Run("many points", 40, func(t *T, i int) {
				// long spirals and combs reach the limit of the recursion
				n := []int{150, 199, 200, 201, 202, 203, 250, 400}[i%8]
				kind := i / 8
				t.Key("%d points of kind %d", n, kind)
				var ps [][2]int64
				for a := 0; a < n; a++ {
					q := int64(a)
					switch kind {
					case 0:
						ps = append(ps, [2]int64{q * 1000, q * q * 10})
					case 1:
						ps = append(ps, [2]int64{q * 100, q % 2 * 5000})
					case 2:
						ps = append(ps, [2]int64{q * q, q % 3 * 9 * q})
					case 3:
						r := 10000 * math.Pow(1.01, float64(a))
						ps = append(ps, [2]int64{int64(r * math.Cos(float64(a)/10)), int64(r * math.Sin(float64(a)/10))})
					case 4:
						ps = append(ps, [2]int64{q * 3, 0})
					}
				}
				smoothCheck(t, ps, -1)
				smoothCheck(t, append(ps, ps[0]), -1)
			})

			polys := []struct {
				name string
				pts  [][2]int64
				n    int
			}{
				{"fine", lattice([]int64{0, 6, 60, 100}, []int64{0, 5, 70}), c.Pick(6, 7)},
				{"long and flat", lattice([]int64{0, 3000, 20000}, []int64{0, 4, 9, 2000}), c.Pick(6, 7)},
				{"offset", lattice([]int64{90000, 93000, 100000}, []int64{200000, 200003, 200009, 202000}), c.Pick(6, 7)},
				{"coarse", lattice([]int64{-40000, 0, 50000}, []int64{-50000, 10000, 50000}), c.Pick(6, 7)},
			}
			for _, l := range polys {
				l := l
				k := len(l.pts)
				c.Run("polygons, "+l.name, k*k, func(t *T, i int) {
					t.Key("%s from %v to %v", l.name, l.pts[i/k], l.pts[i%k])
					for n := 3; n <= l.n; n++ {
						eachTuple(k, n, []int{i / k, i % k}, func(s []int) {
							if t.Failed() {
								return
							}
							ps := make([][2]int64, n)
							for a, b := range s {
								ps[a] = l.pts[b]
							}
							cyclicCheck(t, ps, -1, -1, false)
						})
					}
				})
			}
			c.Run("bends of polygons", 64*2, func(t *T, i int) {
				// the lower edge of a rectangle has many small bends
				step := []int64{4, 11, 40, 5000}[i%4]
				amp := []int64{2, 5, 6, 9}[i/4%4]
				x0 := []int64{0, 70000, -3000, -90000}[i/16%4]
				drift := int64(i/64) * 2
				t.Key("step %d, offset %d, at %d, drift %d", step, amp, x0, drift)
				n := zig
				for m := 0; m < 1<<uint(n); m++ {
					ps := [][2]int64{{x0, x0}}
					y := int64(0)
					for b := 0; b < n; b++ {
						if m>>uint(b)&1 == 1 {
							if drift == 0 {
								y = amp - y
							} else {
								y += drift
							}
						}
						ps = append(ps, [2]int64{x0 + int64(b+1)*step, x0 + y})
					}
					w := int64(n+1) * step
					ps = append(ps, [2]int64{x0 + w, x0}, [2]int64{x0 + w, x0 + 4000}, [2]int64{x0, x0 + 4000})
					cyclicCheck(t, ps, -1, -1, true)
					if t.Failed() {
						return
					}
				}
			})
			// narrow spikes and slots: their tips are far away from everything else
			spikes := []int64{11, 20, 60, 300, 5000, 30000}
			c.Run("spikes", 12*len(spikes)*2*5, func(t *T, i int) {
				w, l, in, slant := int64(i%12)+1, spikes[i/12%len(spikes)], i/12/len(spikes)%2 == 1, int64(i/24/len(spikes))
				t.Key("base %d, length %d, into the body %v, slant %d", w, l, in, slant)
				for _, off := range []int64{0, 70000, -40000} {
					for turn := 0; turn < 4; turn++ {
						ps := [][2]int64{{0, 0}, {70000, 0}, {70000, 35000}, {30000 + w, 35000}}
						y := 35000 + l
						if in {
							y = 35000 - l
						}
						ps = append(ps, [2]int64{30000 + w/2 + (slant-2)*l/3, y}, [2]int64{30000, 35000}, [2]int64{0, 35000})
						for rot := 0; rot < len(ps); rot++ {
							qs := append(append([][2]int64{}, ps[rot:]...), ps[:rot]...)
							for k, q := range qs {
								for n := 0; n < turn; n++ {
									q = [2]int64{-q[1], q[0]}
								}
								qs[k] = [2]int64{q[0] + off, q[1] - off/2}
							}
							cyclicCheck(t, qs, -1, -1, true)
							if t.Failed() {
								return
							}
						}
					}
				}
			})
			c.Run("round polygons", 200, func(t *T, i int) {
				n := i + 3
				t.Key("%d corners", n)
				for _, r := range []float64{30, 100, 1000, 20000, 90000} {
					for _, f := range []float64{1, 0.5, 0.1} {
						var ps [][2]int64
						for a := 0; a < n; a++ {
							w := 2 * math.Pi * float64(a) / float64(n)
							ps = append(ps, [2]int64{int64(math.Round(100000 + r*math.Cos(w))), int64(math.Round(100000 + f*r*math.Sin(w)))})
						}
						cyclicCheck(t, ps, -1, -1, false)
						smoothCheck(t, ps, -1)
						if t.Failed() {
							return
						}
					}
				}
			})
		}})
}
