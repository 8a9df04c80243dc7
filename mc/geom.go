package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/aligator/goslice/data"
)

// pt is a point in micrometers.
type pt struct{ x, y int64 }

type ring []pt

// region is a set of rings with the even-odd rule.
type region []ring

func toRing(p data.Path) ring {
	r := make(ring, len(p))
	for i, q := range p {
		r[i] = pt{int64(q.X()), int64(q.Y())}
	}
	return r
}

func (r ring) path() data.Path {
	p := make(data.Path, len(r))
	for i, q := range r {
		p[i] = data.NewMicroPoint(data.Micrometer(q.x), data.Micrometer(q.y))
	}
	return p
}

// area2 is twice the signed area.
func (r ring) area2() int64 {
	var a int64
	for i := range r {
		j := (i + 1) % len(r)
		a += r[i].x*r[j].y - r[j].x*r[i].y
	}
	return a
}

func (r ring) has(x, y float64) bool {
	in := false
	for i := range r {
		a, b := r[i], r[(i+1)%len(r)]
		if (float64(a.y) > y) != (float64(b.y) > y) {
			cx := float64(a.x) + (y-float64(a.y))*float64(b.x-a.x)/float64(b.y-a.y)
			if cx > x {
				in = !in
			}
		}
	}
	return in
}

func (g region) has(x, y float64) bool {
	in := false
	for _, r := range g {
		if r.has(x, y) {
			in = !in
		}
	}
	return in
}

// scanner answers has for many points with few different heights.
type scanner struct {
	g    region
	rows map[float64][]float64
}

func (g region) scanner() *scanner { return &scanner{g, map[float64][]float64{}} }

func (s *scanner) has(x, y float64) bool {
	row, ok := s.rows[y]
	if !ok {
		for _, r := range s.g {
			for i := range r {
				a, b := r[i], r[(i+1)%len(r)]
				if (float64(a.y) > y) != (float64(b.y) > y) {
					row = append(row, float64(a.x)+(y-float64(a.y))*float64(b.x-a.x)/float64(b.y-a.y))
				}
			}
		}
		sort.Float64s(row)
		s.rows[y] = row
	}
	// an odd number of lines to the right
	return (len(row)-sort.Search(len(row), func(i int) bool { return row[i] > x }))%2 == 1
}

// dist is the distance of the point to the closest border line of the region.
func (g region) dist(x, y float64) float64 {
	best := math.Inf(1)
	for _, r := range g {
		for i := range r {
			d := segDist(x, y, r[i], r[(i+1)%len(r)])
			if d < best {
				best = d
			}
		}
	}
	return best
}

func segDist(x, y float64, a, b pt) float64 {
	ax, ay, bx, by := float64(a.x), float64(a.y), float64(b.x), float64(b.y)
	dx, dy := bx-ax, by-ay
	l2 := dx*dx + dy*dy
	t := 0.0
	if l2 > 0 {
		t = ((x-ax)*dx + (y-ay)*dy) / l2
		if t < 0 {
			t = 0
		} else if t > 1 {
			t = 1
		}
	}
	return math.Hypot(x-ax-t*dx, y-ay-t*dy)
}

func partsRegion(parts []data.LayerPart) region {
	var g region
	for _, p := range parts {
		g = append(g, toRing(p.Outline()))
		for _, h := range p.Holes() {
			g = append(g, toRing(h))
		}
	}
	return g
}

// partsArea is the area the parts cover together in square micrometers.
func partsArea(parts []data.LayerPart) float64 {
	a := 0.0
	for _, p := range parts {
		a += math.Abs(float64(toRing(p.Outline()).area2())) / 2
		for _, h := range p.Holes() {
			a -= math.Abs(float64(toRing(h).area2())) / 2
		}
	}
	return a
}

func (r ring) perimeter() float64 {
	l := 0.0
	for i := range r {
		j := (i + 1) % len(r)
		l += math.Hypot(float64(r[i].x-r[j].x), float64(r[i].y-r[j].y))
	}
	return l
}

// grid holds the borders of the cells of an orthogonal subdivision, in micrometers.
type grid struct{ xs, ys []int64 }

func (g *grid) nx() int { return len(g.xs) - 1 }
func (g *grid) ny() int { return len(g.ys) - 1 }

func uniGrid(nx, ny int, size int64) *grid {
	g := &grid{}
	for i := 0; i <= nx; i++ {
		g.xs = append(g.xs, int64(i)*size)
	}
	for i := 0; i <= ny; i++ {
		g.ys = append(g.ys, int64(i)*size)
	}
	return g
}

func (g *grid) shift(dx, dy int64) *grid {
	r := &grid{}
	for _, x := range g.xs {
		r.xs = append(r.xs, x+dx)
	}
	for _, y := range g.ys {
		r.ys = append(r.ys, y+dy)
	}
	return r
}

// cells is a set of cells of a grid; it is the reference for orthogonal regions.
type cells struct {
	g  *grid
	on []bool // index y*nx+x
}

func newCells(g *grid) cells { return cells{g, make([]bool, g.nx()*g.ny())} }

func cellsFromMask(g *grid, mask int) cells {
	c := newCells(g)
	for i := range c.on {
		c.on[i] = mask>>uint(i)&1 == 1
	}
	return c
}

func (c cells) at(x, y int) bool {
	if x < 0 || y < 0 || x >= c.g.nx() || y >= c.g.ny() {
		return false
	}
	return c.on[y*c.g.nx()+x]
}

func (c cells) empty() bool {
	for _, b := range c.on {
		if b {
			return false
		}
	}
	return true
}

func (c cells) eachRect(on bool, f func(x0, y0, x1, y1 float64)) {
	nx := c.g.nx()
	for i, b := range c.on {
		if b == on {
			x, y := i%nx, i/nx
			f(float64(c.g.xs[x]), float64(c.g.ys[y]), float64(c.g.xs[x+1]), float64(c.g.ys[y+1]))
		}
	}
	if !on {
		inf := 1e12
		x0, x1 := float64(c.g.xs[0]), float64(c.g.xs[nx])
		y0, y1 := float64(c.g.ys[0]), float64(c.g.ys[c.g.ny()])
		f(-inf, -inf, x0, inf)
		f(x1, -inf, inf, inf)
		f(-inf, -inf, inf, y0)
		f(-inf, y1, inf, inf)
	}
}

// cellAt is the index of the interval of v which contains x, -1 or len(v)-1 outside.
func cellAt(v []int64, x float64) int {
	lo, hi := 0, len(v) // v[lo-1] <= x < v[hi]
	for lo < hi {
		m := (lo + hi) / 2
		if float64(v[m]) <= x {
			lo = m + 1
		} else {
			hi = m
		}
	}
	return lo - 1
}

func (c cells) has(x, y float64) bool { return c.at(cellAt(c.g.xs, x), cellAt(c.g.ys, y)) }

// dists returns the euclidean and the chebyshev distance to the closest cell that is on (or off).
func (c cells) dists(on bool, x, y float64) (e, m float64) {
	e, m = math.Inf(1), math.Inf(1)
	see := func(x0, y0, x1, y1 float64) {
		dx := math.Max(0, math.Max(x0-x, x-x1))
		dy := math.Max(0, math.Max(y0-y, y-y1))
		if d := math.Hypot(dx, dy); d < e {
			e = d
		}
		if d := math.Max(dx, dy); d < m {
			m = d
		}
	}
	g, nx, ny := c.g, c.g.nx(), c.g.ny()
	if !on {
		inf := math.Inf(1)
		x0, x1, y0, y1 := float64(g.xs[0]), float64(g.xs[nx]), float64(g.ys[0]), float64(g.ys[ny])
		see(-inf, -inf, x0, inf)
		see(x1, -inf, inf, inf)
		see(-inf, -inf, inf, y0)
		see(-inf, y1, inf, inf)
	}
	ix, iy := min(max(cellAt(g.xs, x), 0), nx-1), min(max(cellAt(g.ys, y), 0), ny-1)
	cell := func(i, j int) {
		if i >= 0 && i < nx && j >= 0 && j < ny && c.on[j*nx+i] == on {
			see(float64(g.xs[i]), float64(g.ys[j]), float64(g.xs[i+1]), float64(g.ys[j+1]))
		}
	}
	for r := 0; r < nx || r < ny; r++ {
		if r == 0 {
			cell(ix, iy)
		}
		for k := -r; k < r; k++ {
			cell(ix+k, iy-r)
			cell(ix+r, iy+k)
			cell(ix-k, iy+r)
			cell(ix-r, iy-k)
		}
		// all other cells are at least this far away
		far := math.Inf(1)
		if ix-r > 0 {
			far = math.Min(far, x-float64(g.xs[ix-r]))
		}
		if ix+r+1 < nx {
			far = math.Min(far, float64(g.xs[ix+r+1])-x)
		}
		if iy-r > 0 {
			far = math.Min(far, y-float64(g.ys[iy-r]))
		}
		if iy+r+1 < ny {
			far = math.Min(far, float64(g.ys[iy+r+1])-y)
		}
		if e <= far {
			break
		}
	}
	return
}

func (c cells) area() float64 {
	a := 0.0
	c.eachRect(true, func(x0, y0, x1, y1 float64) { a += (x1 - x0) * (y1 - y0) })
	return a
}

// borderDist is the distance of the point to the border between on and off cells.
func (c cells) borderDist(x, y float64) float64 {
	e1, _ := c.dists(true, x, y)
	e2, _ := c.dists(false, x, y)
	return math.Max(e1, e2)
}

func (c cells) String() string {
	s := ""
	for y := c.g.ny() - 1; y >= 0; y-- {
		for x := 0; x < c.g.nx(); x++ {
			if c.at(x, y) {
				s += "#"
			} else {
				s += "."
			}
		}
		if y > 0 {
			s += "/"
		}
	}
	return s
}

func (c cells) combine(d cells, f func(a, b bool) bool) cells {
	r := newCells(c.g)
	for i := range r.on {
		r.on[i] = f(c.on[i], d.on[i])
	}
	return r
}

func orF(a, b bool) bool  { return a || b }
func andF(a, b bool) bool { return a && b }
func subF(a, b bool) bool { return a && !b }

// rects returns one closed ring per cell that is on.
func (c cells) rects() []ring {
	var out []ring
	c.eachRect(true, func(x0, y0, x1, y1 float64) {
		out = append(out, ring{{int64(x0), int64(y0)}, {int64(x1), int64(y0)}, {int64(x1), int64(y1)}, {int64(x0), int64(y1)}})
	})
	return out
}

// outlines traces the border of the cell set. Outer borders are counter clockwise, holes clockwise.
// Where two cells touch only at a corner the loops are kept apart (cells which touch at corners are not joined).
func (c cells) outlines() []ring {
	type edge struct{ a, b [2]int }
	out := map[[2]int][]edge{}
	add := func(ax, ay, bx, by int) {
		e := edge{[2]int{ax, ay}, [2]int{bx, by}}
		out[e.a] = append(out[e.a], e)
	}
	n := 0
	for y := 0; y < c.g.ny(); y++ {
		for x := 0; x < c.g.nx(); x++ {
			if !c.at(x, y) {
				continue
			}
			if !c.at(x, y-1) {
				add(x, y, x+1, y)
				n++
			}
			if !c.at(x+1, y) {
				add(x+1, y, x+1, y+1)
				n++
			}
			if !c.at(x, y+1) {
				add(x+1, y+1, x, y+1)
				n++
			}
			if !c.at(x-1, y) {
				add(x, y+1, x, y)
				n++
			}
		}
	}
	var rings []ring
	for y := 0; y <= c.g.ny(); y++ {
		for x := 0; x <= c.g.nx(); x++ {
			start := [2]int{x, y}
			for len(out[start]) > 0 {
				var r ring
				cur := out[start][0]
				out[start] = out[start][1:]
				prev := cur
				var pts [][2]int
				pts = append(pts, cur.a)
				for cur.b != start {
					cand := out[cur.b]
					k := 0
					if len(cand) > 1 {
						// turn left first, so that corner contacts separate the cells
						dx, dy := cur.b[0]-cur.a[0], cur.b[1]-cur.a[1]
						for i, e := range cand {
							if e.b[0]-e.a[0] == -dy && e.b[1]-e.a[1] == dx {
								k = i
							}
						}
					}
					nx := cand[k]
					rest := append([]edge{}, cand[:k]...)
					out[cur.b] = append(rest, cand[k+1:]...)
					pts = append(pts, nx.a)
					prev, cur = cur, nx
				}
				_ = prev
				// drop collinear points
				for i := range pts {
					a, b, d := pts[(i+len(pts)-1)%len(pts)], pts[i], pts[(i+1)%len(pts)]
					if (a[0] == b[0] && b[0] == d[0]) || (a[1] == b[1] && b[1] == d[1]) {
						continue
					}
					r = append(r, pt{c.g.xs[b[0]], c.g.ys[b[1]]})
				}
				rings = append(rings, r)
			}
		}
	}
	return rings
}

// components labels the cells that are on; diag joins cells which touch at a corner.
func (c cells) components(on, diag bool) (label []int, n int) {
	nx, ny := c.g.nx(), c.g.ny()
	label = make([]int, nx*ny)
	for i := range label {
		label[i] = -1
	}
	for i := range label {
		if c.on[i] != on || label[i] >= 0 {
			continue
		}
		stack := []int{i}
		label[i] = n
		for len(stack) > 0 {
			k := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			x, y := k%nx, k/nx
			for dx := -1; dx <= 1; dx++ {
				for dy := -1; dy <= 1; dy++ {
					if (dx == 0 && dy == 0) || (!diag && dx != 0 && dy != 0) {
						continue
					}
					X, Y := x+dx, y+dy
					if X < 0 || Y < 0 || X >= nx || Y >= ny {
						continue
					}
					j := Y*nx + X
					if c.on[j] == on && label[j] < 0 {
						label[j] = n
						stack = append(stack, j)
					}
				}
			}
		}
		n++
	}
	return
}

// cornerContact tells if two cells that are on (or two that are off) touch only at a corner.
func (c cells) cornerContact() bool {
	for y := 0; y+1 < c.g.ny(); y++ {
		for x := 0; x+1 < c.g.nx(); x++ {
			a, b, d, e := c.at(x, y), c.at(x+1, y), c.at(x, y+1), c.at(x+1, y+1)
			if a == e && b == d && a != b {
				return true
			}
		}
	}
	return false
}

// parts builds layer parts (outline with its holes) out of the cell set.
func (c cells) parts() []data.LayerPart {
	rings := c.outlines()
	var outs, holes []ring
	for _, r := range rings {
		if r.area2() > 0 {
			outs = append(outs, r)
		} else {
			holes = append(holes, r)
		}
	}
	var parts []data.LayerPart
	for _, o := range outs {
		var hs data.Paths
		for _, h := range holes {
			// the hole belongs to the smallest outline around it
			px, py := h.innerPoint()
			if !o.has(px, py) {
				continue
			}
			best := true
			for _, o2 := range outs {
				if o2.has(px, py) && o2.area2() < o.area2() {
					best = false
				}
			}
			if best {
				hs = append(hs, h.path())
			}
		}
		parts = append(parts, data.NewBasicLayerPart(o.path(), hs))
	}
	return parts
}

// innerPoint returns a point just inside of an orthogonal ring next to its first edge.
func (r ring) innerPoint() (float64, float64) {
	a, b := r[0], r[1]
	mx, my := float64(a.x+b.x)/2, float64(a.y+b.y)/2
	for _, d := range [][2]float64{{1, 0}, {-1, 0}, {0, 1}, {0, -1}} {
		if r.has(mx+d[0]*1.5+0.01, my+d[1]*1.5+0.01) {
			return mx + d[0]*1.5 + 0.01, my + d[1]*1.5 + 0.01
		}
	}
	return mx, my
}

// probes returns a lattice of points which hits every cell, the neighbourhood of all its borders and the outside.
func (c cells) probes(offs []int64) [][2]float64 {
	axis := func(b []int64) []float64 {
		seen := map[int64]bool{}
		var out []float64
		add := func(v int64) {
			if !seen[v] {
				seen[v] = true
				out = append(out, float64(v)+0.37)
			}
		}
		for i, v := range b {
			for _, o := range offs {
				add(v + o)
				add(v - o)
			}
			if i+1 < len(b) {
				add((v + b[i+1]) / 2)
			}
		}
		return out
	}
	var out [][2]float64
	for _, x := range axis(c.g.xs) {
		for _, y := range axis(c.g.ys) {
			out = append(out, [2]float64{x, y})
		}
	}
	return out
}

func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

func showParts(parts []data.LayerPart) string {
	s := ""
	for _, p := range parts {
		s += fmt.Sprintf("%v holes%v; ", toRing(p.Outline()), func() (r []ring) {
			for _, h := range p.Holes() {
				r = append(r, toRing(h))
			}
			return
		}())
	}
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}
