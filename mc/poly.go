package main

import "sort"

func segmentsMeet(a, b, c, d pt) bool {
	cr := func(a, b, c pt) int64 {
		v := (b.x-a.x)*(c.y-a.y) - (b.y-a.y)*(c.x-a.x)
		switch {
		case v > 0:
			return 1
		case v < 0:
			return -1
		}
		return 0
	}
	on := func(a, b, p pt) bool {
		return cr(a, b, p) == 0 && min(a.x, b.x) <= p.x && p.x <= max(a.x, b.x) && min(a.y, b.y) <= p.y && p.y <= max(a.y, b.y)
	}
	if on(a, b, c) || on(a, b, d) || on(c, d, a) || on(c, d, b) {
		return true
	}
	return cr(a, b, c)*cr(a, b, d) < 0 && cr(c, d, a)*cr(c, d, b) < 0
}

// latticePolygons returns all simple polygons with at most n corners over a lattice, counter clockwise.
// No corner lies in the middle of a straight line.
func latticePolygons(nx, ny int, dx, dy int64, n int) []ring {
	var p []pt
	for x := 0; x < nx; x++ {
		for y := 0; y < ny; y++ {
			p = append(p, pt{int64(x) * dx, int64(y) * dy})
		}
	}
	var out []ring
	var cur ring
	var used = make([]bool, len(p))
	straight := func(a, b, c pt) bool { return (b.x-a.x)*(c.y-b.y) == (b.y-a.y)*(c.x-b.x) }
	// may the edge from the last point to q be added, apart from its neighbours
	free := func(q pt, from int) bool {
		l := cur[len(cur)-1]
		for i := from; i+2 < len(cur); i++ {
			if segmentsMeet(cur[i], cur[i+1], l, q) {
				return false
			}
		}
		return true
	}
	var rec func(first int)
	rec = func(first int) {
		k := len(cur)
		if k >= 3 && !straight(cur[k-2], cur[k-1], cur[0]) && !straight(cur[k-1], cur[0], cur[1]) && free(cur[0], 1) && cur.area2() > 0 {
			out = append(out, append(ring{}, cur...))
		}
		if k == n {
			return
		}
		for i := first + 1; i < len(p); i++ {
			if used[i] || k >= 2 && straight(cur[k-2], cur[k-1], p[i]) || !free(p[i], 0) {
				continue
			}
			used[i] = true
			cur = append(cur, p[i])
			rec(first)
			cur = cur[:k]
			used[i] = false
		}
	}
	for f := range p {
		cur = ring{p[f]}
		rec(f)
	}
	return out
}

func (r ring) bounds() (lo, hi pt) {
	lo, hi = r[0], r[0]
	for _, p := range r {
		lo, hi = pt{min(lo.x, p.x), min(lo.y, p.y)}, pt{max(hi.x, p.x), max(hi.y, p.y)}
	}
	return
}

func (r ring) moved(dx, dy int64) ring {
	o := make(ring, len(r))
	for i, p := range r {
		o[i] = pt{p.x + dx, p.y + dy}
	}
	return o
}

// leaves tells if the way from p to q leaves the region (1) or not (0). It is -1 if that is closer than tol.
func (g region) leaves(p, q pt, tol float64) int {
	ts := []float64{0, 1}
	dx, dy := float64(q.x-p.x), float64(q.y-p.y)
	res := 0
	for _, r := range g {
		for i := range r {
			a, b := r[i], r[(i+1)%len(r)]
			if segDist(float64(a.x), float64(a.y), p, q) < tol {
				res = -1
			}
			ex, ey := float64(b.x-a.x), float64(b.y-a.y)
			d := dx*ey - dy*ex
			if d == 0 {
				continue
			}
			t := (float64(a.x-p.x)*ey - float64(a.y-p.y)*ex) / d
			if t > 0 && t < 1 {
				ts = append(ts, t)
			}
		}
	}
	sort.Float64s(ts)
	for i := 0; i+1 < len(ts); i++ {
		m := (ts[i] + ts[i+1]) / 2
		x, y := float64(p.x)+m*dx, float64(p.y)+m*dy
		if g.has(x, y) {
			continue
		}
		if g.dist(x, y) > tol {
			return 1
		}
		res = -1
	}
	return res
}
