package main

import (
	"math"
	"sort"

	"github.com/aligator/goslice/data"
)

// Orthogonal sets which enclose the results of the offsets of the implementation from both sides:
// an offset by d contains everything reached by moving along one axis (plus) and is contained
// in everything reached by moving along both axes (square).

type metric int

const (
	square metric = iota
	plus
)

func uniqAxis(v []int64) []int64 {
	sort.Slice(v, func(i, j int) bool { return v[i] < v[j] })
	var out []int64
	for _, x := range v {
		if len(out) == 0 || out[len(out)-1] != x {
			out = append(out, x)
		}
	}
	return out
}

type rect struct{ x0, y0, x1, y1 int64 }

// strips merges the cells that are on to rectangles (runs in x direction).
func (c cells) strips() []rect {
	var out []rect
	nx := c.g.nx()
	for y := 0; y < c.g.ny(); y++ {
		for x := 0; x < nx; x++ {
			if !c.on[y*nx+x] {
				continue
			}
			a := x
			for x < nx && c.on[y*nx+x] {
				x++
			}
			out = append(out, rect{c.g.xs[a], c.g.ys[y], c.g.xs[x], c.g.ys[y+1]})
		}
	}
	return out
}

// paint switches all cells inside of the rectangle on.
func (c cells) paint(r rect) {
	if r.x0 >= r.x1 || r.y0 >= r.y1 {
		return
	}
	xs, ys := c.g.xs, c.g.ys
	x0 := sort.Search(len(xs), func(i int) bool { return xs[i] >= r.x0 })
	x1 := sort.Search(len(xs), func(i int) bool { return xs[i] >= r.x1 })
	y0 := sort.Search(len(ys), func(i int) bool { return ys[i] >= r.y0 })
	y1 := sort.Search(len(ys), func(i int) bool { return ys[i] >= r.y1 })
	nx := c.g.nx()
	for y := y0; y < y1; y++ {
		for x := x0; x < x1; x++ {
			c.on[y*nx+x] = true
		}
	}
}

// compact drops the lines of the grid which separate nothing.
func (c cells) compact() cells {
	nx, ny := c.g.nx(), c.g.ny()
	g := &grid{}
	var kx, ky []int
	for x := 0; x <= nx; x++ {
		diff := false
		for y := 0; y < ny && !diff; y++ {
			diff = c.at(x-1, y) != c.at(x, y)
		}
		if diff {
			g.xs = append(g.xs, c.g.xs[x])
			kx = append(kx, x)
		}
	}
	for y := 0; y <= ny; y++ {
		diff := false
		for x := 0; x < nx && !diff; x++ {
			diff = c.at(x, y-1) != c.at(x, y)
		}
		if diff {
			g.ys = append(g.ys, c.g.ys[y])
			ky = append(ky, y)
		}
	}
	if len(kx) < 2 || len(ky) < 2 {
		return newCells(&grid{xs: []int64{0, 1}, ys: []int64{0, 1}})
	}
	r := newCells(g)
	for y := 0; y < g.ny(); y++ {
		for x := 0; x < g.nx(); x++ {
			r.on[y*g.nx()+x] = c.at(kx[x], ky[y])
		}
	}
	return r
}

// dilate grows the cells by d.
func (c cells) dilate(d int64, m metric) cells {
	if d == 0 {
		return c
	}
	if d < 0 {
		return c.erode(-d, m)
	}
	var xs, ys []int64
	for _, x := range c.g.xs {
		xs = append(xs, x, x-d, x+d)
	}
	for _, y := range c.g.ys {
		ys = append(ys, y, y-d, y+d)
	}
	r := newCells(&grid{xs: uniqAxis(xs), ys: uniqAxis(ys)})
	for _, q := range c.strips() {
		if m == square {
			r.paint(rect{q.x0 - d, q.y0 - d, q.x1 + d, q.y1 + d})
		} else {
			r.paint(rect{q.x0 - d, q.y0, q.x1 + d, q.y1})
			r.paint(rect{q.x0, q.y0 - d, q.x1, q.y1 + d})
		}
	}
	return r.compact()
}

// erode shrinks the cells by d: what is closer than d to the outside (in the metric) disappears.
func (c cells) erode(d int64, m metric) cells {
	if d == 0 {
		return c
	}
	if d < 0 {
		return c.dilate(-d, m)
	}
	// the complement within a frame
	n := len(c.g.xs)
	k := len(c.g.ys)
	xs := append([]int64{c.g.xs[0] - 2*d - 10}, c.g.xs...)
	xs = append(xs, c.g.xs[n-1]+2*d+10)
	ys := append([]int64{c.g.ys[0] - 2*d - 10}, c.g.ys...)
	ys = append(ys, c.g.ys[k-1]+2*d+10)
	inv := c.refine2(&grid{xs: xs, ys: ys})
	for i := range inv.on {
		inv.on[i] = !inv.on[i]
	}
	grown := inv.dilate(d, m)
	// everything inside of the original cells which the outside has not reached
	return c.bool(grown, subF)
}

// refine2 expresses the cells on a grid which contains all its lines.
func (c cells) refine2(g *grid) cells {
	r := newCells(g)
	for _, q := range c.strips() {
		r.paint(q)
	}
	return r
}

// bool combines sets with different grids.
func (c cells) bool(d cells, f func(a, b bool) bool) cells {
	g := &grid{xs: mergeAxis(c.g.xs, d.g.xs), ys: mergeAxis(c.g.ys, d.g.ys)}
	return c.refine2(g).combine(d.refine2(g), f).compact()
}

// between is an area which is known up to the shape of its corners.
type between struct{ lo, hi cells }

func exactly(c cells) between { return between{c, c} }

// offset moves the border of the area by d (outwards if positive) with the tolerance tol.
func (b between) offset(d, tol int64) between {
	if d >= 0 {
		lo := b.lo
		if d > tol {
			lo = b.lo.dilate(d-tol, plus)
		}
		return between{lo.erode(max(0, tol-d), square), b.hi.dilate(d+tol, square)}
	}
	// shrinking: the square metric reaches farther into the area
	lo := b.lo.erode(-d+tol, square)
	hi := b.hi
	if -d > tol {
		hi = b.hi.erode(-d-tol, plus)
	} else {
		hi = b.hi.dilate(tol+d, square)
	}
	return between{lo, hi}
}

func (b between) union(c between) between { return between{b.lo.bool(c.lo, orF), b.hi.bool(c.hi, orF)} }
func (b between) and(c between) between   { return between{b.lo.bool(c.lo, andF), b.hi.bool(c.hi, andF)} }
func (b between) sub(c between) between   { return between{b.lo.bool(c.hi, subF), b.hi.bool(c.lo, subF)} }

func nothing() between { return exactly(newCells(&grid{xs: []int64{0, 1}, ys: []int64{0, 1}})) }

// check compares an area with the bounds; e is the tolerance of the position of its border.
func (b between) check(t *T, what string, parts []data.LayerPart, e int64) bool {
	return b.checkRegion(t, what, partsRegion(parts), e, func() string { return showParts(parts) })
}

func (b between) checkRegion(t *T, what string, g region, e int64, show func() string) bool {
	sc := g.scanner()
	probe := func(c cells, want bool) bool {
		for _, p := range c.probes([]int64{e + 3}) {
			if !want && c.has(p[0], p[1]) || want && !c.has(p[0], p[1]) {
				continue
			}
			if c.borderDist2(p[0], p[1], want) <= float64(e) {
				continue
			}
			if sc.has(p[0], p[1]) != want {
				t.Fail("%s: the point (%.0f,%.0f) is inside=%v, want %v; got %s", what, p[0], p[1], !want, want, show())
				return false
			}
		}
		return true
	}
	return probe(b.lo, true) && probe(b.hi, false)
}

// borderDist2 is the distance to the cells which are not inside=want.
func (c cells) borderDist2(x, y float64, want bool) float64 {
	_, m := c.dists(!want, x, y)
	return m
}

func (b between) String() string { return "at least " + b.lo.String() + " at most " + b.hi.String() }

var _ = math.Abs
