package main

import (
	"fmt"
	"math"

	"github.com/aligator/goslice/data"
)

// filled adds everything which is enclosed by the cells.
func (c cells) filled(diag bool) cells {
	lab, n := c.components(false, diag)
	open := make([]bool, n)
	nx, ny := c.g.nx(), c.g.ny()
	for i, l := range lab {
		x, y := i%nx, i/nx
		if l >= 0 && (x == 0 || y == 0 || x == nx-1 || y == ny-1) {
			open[l] = true
		}
	}
	r := newCells(c.g)
	for i, l := range lab {
		r.on[i] = c.on[i] || !open[l]
	}
	return r
}

func (b between) filled() between { return between{b.lo.filled(true), b.hi.filled(false)} }

func (c cells) hull() convex {
	var p []fpt
	c.eachRect(true, func(x0, y0, x1, y1 float64) {
		p = append(p, fpt{x0, y0}, fpt{x1, y0}, fpt{x0, y1}, fpt{x1, y1})
	})
	return hullOf(p)
}

type brimSet struct {
	skirt  int
	dist   float64
	brim   int
	ew     int
	insets int
	infill int
}

func (s brimSet) opts() data.Options {
	return baseOpts(func(o *data.Options) {
		o.Print.BrimSkirt.SkirtCount = s.skirt
		o.Print.BrimSkirt.SkirtDistance = data.Millimeter(s.dist)
		o.Print.BrimSkirt.BrimCount = s.brim
		o.Printer.ExtrusionWidth = data.Micrometer(s.ew)
		o.Print.InsetCount = s.insets
		o.Print.InfillPercent = s.infill
	})
}

// checkSkirt compares the skirt with the hull of the walls, and returns the lines of the brim.
func checkSkirt(t *T, pr *prog, o data.Options, h convex, tol float64) (brims []track, ok bool) {
	bs := o.Print.BrimSkirt
	ew := int64(o.Printer.ExtrusionWidth)
	d0 := float64(bs.SkirtDistance*1000) + float64(ew)*float64(bs.BrimCount+1)
	var skirts []track
	byType := map[string]bool{}
	for _, k := range pr.tracks() {
		if k.typ != "SKIRT" {
			byType[k.typ] = true
			continue
		}
		if k.layer != 0 {
			t.Fail("line %d: skirt or brim in layer %d", k.line, k.layer)
			return nil, false
		}
		if len(byType) > 0 {
			t.Fail("line %d: skirt or brim after %v", k.line, byType)
			return nil, false
		}
		if !k.closed() {
			t.Fail("line %d: the skirt or brim is not closed: %v", k.line, k.pts)
			return nil, false
		}
		near := math.Inf(1)
		for i := range k.pts[1:] {
			a, b := k.pts[i], k.pts[i+1]
			for f := 0.0; f < 1; f += 1.0 / 8 {
				near = math.Min(near, -h.depth(float64(a.x)+f*float64(b.x-a.x), float64(a.y)+f*float64(b.y-a.y)))
			}
		}
		if bs.BrimCount == 0 || bs.SkirtCount > 0 && near > d0-float64(ew)/4 {
			skirts = append(skirts, k)
			if len(brims) > 0 {
				t.Fail("line %d: the skirt is printed after the brim", k.line)
				return nil, false
			}
		} else {
			brims = append(brims, k)
		}
	}
	// the skirt
	if len(h) == 0 {
		if len(skirts) > 0 {
			t.Fail("a skirt around nothing: %v", skirts)
		}
		return nil, false
	}
	if len(skirts) != bs.SkirtCount {
		t.Fail("%d skirt lines, want %d; brim %d lines; %v", len(skirts), bs.SkirtCount, len(brims), skirts)
		return nil, false
	}
	seen := map[int]bool{}
	for _, k := range skirts {
		r := k.ring()
		near := math.Inf(1)
		for i := range r {
			a, b := r[i], r[(i+1)%len(r)]
			near = math.Min(near, math.Min(-h.depth(float64(a.x), float64(a.y)), -h.depth(float64(a.x+b.x)/2, float64(a.y+b.y)/2)))
		}
		n := int(math.Round((near - d0) / float64(ew)))
		d := d0 + float64(n)*float64(ew)
		if math.Abs(near-d) > tol || n < 0 || n >= bs.SkirtCount || seen[n] {
			t.Fail("line %d: the skirt is %.0f away, want %.0f+k*%d, k<%d; hull %v", k.line, near, d0, ew, bs.SkirtCount, h)
			return nil, false
		}
		seen[n] = true
		for _, v := range r {
			if e := -h.depth(float64(v.x), float64(v.y)); e < d-tol || e > d*1.42+tol {
				t.Fail("line %d: the corner %v of the skirt is %.0f away, want %.0f; hull %v", k.line, v, e, d, h)
				return nil, false
			}
		}
		for i := range h {
			a, b := h[i], h[(i+1)%len(h)]
			l := math.Hypot(b.x-a.x, b.y-a.y)
			x, y := (a.x+b.x)/2+(b.y-a.y)/l*d, (a.y+b.y)/2-(b.x-a.x)/l*d
			if e := (region{r}).dist(x, y); e > tol {
				t.Fail("line %d: the skirt should pass (%.0f,%.0f) but is %.0f away; hull %v skirt %v", k.line, x, y, e, h, r)
				return nil, false
			}
		}
	}
	// all the other material of the layer lies inside
	if len(skirts) > 0 {
		in := math.Inf(1)
		var inner ring
		for _, k := range skirts {
			if a := math.Abs(float64(k.ring().area2())); a < in {
				in, inner = a, k.ring()
			}
		}
		for _, k := range pr.tracks() {
			if k.layer != 0 || k.typ == "SKIRT" && len(k.pts) > 2 && math.Abs(float64(k.ring().area2())) >= in {
				continue
			}
			for _, v := range k.pts {
				x, y := float64(v.x), float64(v.y)
				e := region{inner}.dist(x, y)
				if !inner.has(x, y) || e < float64(bs.SkirtDistance*1000)-tol {
					t.Fail("line %d: %s at %v is too close to the skirt (%.0f) or outside of it", k.line, k.typ, v, e)
					return nil, false
				}
			}
		}
	}
	return brims, true
}

// checkBrimSkirt compares the lines of the type skirt of the first layer with the section of it.
// support is what may be supported in addition to the section.
func checkBrimSkirt(t *T, pr *prog, o data.Options, w cells, brimToo bool, support []data.LayerPart) {
	tol := 16.0
	ew := int64(o.Printer.ExtrusionWidth)
	bs := o.Print.BrimSkirt
	walls := w
	if o.Print.InsetCount > 0 {
		walls = w.erode(ew/2, square)
	}
	if walls.empty() {
		walls = w // nothing is wide enough for a perimeter
	}
	h := walls.hull()
	if o.Print.InsetCount > 0 {
		// where a part gets too thin for a perimeter the end of the perimeter is only known roughly
		for _, v := range exactly(w).offset(-ew/2, 0).hi.hull() {
			if len(h) > 0 {
				tol = math.Max(tol, 16-h.depth(v.x, v.y))
			}
		}
	}
	for _, p := range support {
		var f []fpt
		for _, v := range h {
			f = append(f, v)
		}
		for _, v := range p.Outline() {
			f = append(f, fpt{float64(v.X()), float64(v.Y())})
		}
		h = hullOf(f)
	}
	brims, ok := checkSkirt(t, pr, o, h, tol)
	if !ok {
		return
	}
	if !brimToo {
		return
	}
	if o.Print.InsetCount == 0 {
		if len(brims) > 0 {
			t.Fail("a brim without any perimeter")
		}
		return
	}
	// the brim
	lines := make([][]ring, bs.BrimCount)
	border := exactly(w).offset(-ew/2, 2).filled()
	for _, k := range brims {
		r := k.ring()
		near := math.Inf(1)
		for i := range r {
			a, b := r[i], r[(i+1)%len(r)]
			for f := 0.0; f < 1; f += 1.0 / 8 {
				e, _ := border.lo.dists(true, float64(a.x)+f*float64(b.x-a.x), float64(a.y)+f*float64(b.y-a.y))
				near = math.Min(near, e)
			}
		}
		n := int(math.Round(near/float64(ew))) - 1
		if n < 0 || n >= bs.BrimCount || math.Abs(near-float64(n+1)*float64(ew)) > 16 {
			t.Fail("line %d: a brim line is %.0f beside the outer perimeter, line width %d, %d lines: %v", k.line, near, ew, bs.BrimCount, r)
			return
		}
		lines[n] = append(lines[n], r)
	}
	e := int64(16)
	if open := w.erode(ew/2, square).dilate(ew/2, square); !w.bool(open, subF).empty() {
		e = 140 // see above
	}
	for k, l := range lines {
		want := border.offset(int64(k+1)*ew, e).filled()
		var g region
		g = append(g, l...)
		if !want.checkRegion(t, fmt.Sprintf("brim line %d", k), g, 16, func() string { return fmt.Sprint(l) }) {
			t.Fail("section %v %v %v", w, w.g.xs, w.g.ys)
			return
		}
	}
}

func init() {
	register(&Check{ID: "C17", Level: "exploration",
		Rule:   "one evaluation = one object sliced to G-code with one setting and the skirt and brim compared with the first section; distinct = section and setting",
		Assume: []string{"parts far enough from each other that their brims do not overlap; the shape of corners is left open between rounded and pointed"},
		Run: func(c *Ctx) {
			sets := []brimSet{
				{1, 3, 0, 400, 2, 20}, {2, 5, 0, 400, 1, 0}, {0, 3, 2, 400, 2, 20}, {3, 1, 3, 350, 1, 0},
				{1, 0, 1, 401, 3, 0}, {2, 2.5, 1, 600, 2, 20}, {1, 4, 2, 400, 0, 20}, {0, 3, 0, 400, 1, 0}, {1, 0.7, 2, 500, 2, 20},
			}
			grids := []*grid{
				uniGrid(3, 3, 3000),
				{xs: []int64{0, 5000, 9000, 10100}, ys: []int64{0, 3000, 9000, 12400}},
				{xs: []int64{0, 2000, 6000, 8100}, ys: []int64{0, 1300, 1600, 3100}}, // with parts which are too thin for a perimeter
			}
			one := func(t *T, s *scene, st brimSet, o data.Options) {
				p := runPipe(o, s.mesh())
				if p.err != nil {
					t.Fail("%v", p.err)
					return
				}
				w := s.placed(o.Printer.Center)
				sec := w.below(int64(o.Print.InitialLayerThickness))
				// brims of parts which are close to each other overlap
				far := true
				if st.brim > 0 {
					b := exactly(sec).offset(-int64(st.ew)/2, 2)
					reach := int64(st.brim+1) * int64(st.ew)
					_, n := b.lo.filled(false).components(true, true)
					_, m := b.lo.filled(false).dilate(reach, square).components(true, true)
					far = n == m && !sec.cornerContact()
				}
				pr := parseGCode(p.gcode)
				pr.check(t)
				checkBrimSkirt(t, pr, o, sec, far, nil)
				t.Outcome(sec.String(), st)
			}
			c.Run("3x3x1 blocks", 511*len(sets)*len(grids), func(t *T, i int) {
				st := sets[i/511%len(sets)]
				g := grids[i/511/len(sets)]
				s := newScene(g, 0, 350)
				s.slabs[0] = cellsFromMask(g, i%511+1)
				t.Key("%v %+v", s, st)
				o := st.opts()
				one(t, s, st, o)
				t.Sample(s.String())
			})
			prismBrims(c, sets)
			ne, embrace := embraced(c)
			c.Run("parts embraced by others", ne/16*len(sets), func(t *T, i int) {
				s, st := embrace(i%(ne/16)*16), sets[i/(ne/16)]
				copy(s.slabs[0].on, s.slabs[1].on)
				t.Key("%v %+v", s, st)
				one(t, s, st, st.opts())
			})
			bigScenes(c, func(name string, n int, mk func(i int, o *data.Options) *scene) {
				c.Run(name, n*c.Pick(1, len(sets)), func(t *T, i int) {
					st := sets[(i+i/n)%len(sets)]
					o := st.opts()
					s := mk(i%n, &o)
					t.Key("%v %+v", s, st)
					one(t, s, st, o)
				})
			})
			// several layers, where only the lowest one counts, with support which has to be enclosed
			g := &grid{xs: []int64{0, 3000, 8000, 13000}, ys: []int64{0, 4000}}
			c.Run("3x1x3 blocks with support", 511*4, func(t *T, i int) {
				s := newScene(g, 0, 500, 1900, 2600)
				for k := range s.slabs {
					s.slabs[k] = cellsFromMask(g, (i%511+1)>>uint(3*k)&7)
				}
				st := brimSet{1 + i/511%2, 2, i / 1022, 400, 2, 20}
				t.Key("%v %+v", s, st)
				o := st.opts()
				o.Print.Support.Enabled = true
				o.Print.Support.TopGapLayers = i % 3
				p := runPipe(o, s.mesh())
				if p.err != nil {
					t.Fail("%v", p.err)
					return
				}
				sec := s.placed(o.Printer.Center).below(int64(o.Print.InitialLayerThickness))
				pr := parseGCode(p.gcode)
				pr.check(t)
				sup := append(attr(t, p.layers[0], "support"), attr(t, p.layers[0], "supportInterface")...)
				if sec.empty() && len(sup) == 0 {
					return
				}
				if st.brim > 0 && len(sup) > 0 {
					// the support is cut off where the brim is: judge by the material
					enclosed(t, pr, o)
				} else {
					checkBrimSkirt(t, pr, o, sec, false, sup)
				}
				t.Outcome(s.String(), st)
			})
		}})
}

// enclosed demands that everything in the first layer lies inside of the skirt.
func enclosed(t *T, pr *prog, o data.Options) {
	var inner ring
	in := math.Inf(1)
	var big float64
	for _, k := range pr.tracks() {
		if k.layer != 0 || k.typ != "SKIRT" || !k.closed() {
			continue
		}
		big = math.Max(big, math.Abs(float64(k.ring().area2())))
	}
	n := 0
	for _, k := range pr.tracks() {
		if k.layer != 0 || k.typ != "SKIRT" || !k.closed() || n >= o.Print.BrimSkirt.SkirtCount {
			continue
		}
		n++
		if a := math.Abs(float64(k.ring().area2())); a < in {
			in, inner = a, k.ring()
		}
	}
	if inner == nil {
		t.Fail("there is no skirt")
		return
	}
	min := float64(o.Print.BrimSkirt.SkirtDistance*1000) - 16
	n = 0
	for _, k := range pr.tracks() {
		if k.layer != 0 {
			continue
		}
		if k.typ == "SKIRT" && n < o.Print.BrimSkirt.SkirtCount {
			n++
			continue
		}
		for _, v := range k.pts {
			x, y := float64(v.x), float64(v.y)
			if e := (region{inner}).dist(x, y); !inner.has(x, y) || e < min {
				t.Fail("line %d: %s at %v is too close to the skirt (%.0f) or outside of it", k.line, k.typ, v, e)
				return
			}
		}
	}
}

// prismBrims judges skirts and brims of objects of any outline.
func prismBrims(c *Ctx, sets []brimSet) {
	check := func(t *T, r ring, m mesh, st brimSet) {
		o := st.opts()
		p := runPipe(o, m)
		if p.err != nil {
			t.Fail("%v", p.err)
			return
		}
		pr := parseGCode(p.gcode)
		pr.check(t)
		ml, _ := m.bounds()
		d := fromVec(p.om.Min()).sub(ml)
		w := r.shifted(d.x, d.y)
		ew := float64(st.ew)
		var pts []fpt
		var walls region
		for _, k := range pr.tracks() {
			if k.layer == 0 && k.typ == "WALL-OUTER" {
				walls = append(walls, k.ring())
				for _, q := range k.pts {
					pts = append(pts, fpt{float64(q.x), float64(q.y)})
				}
			}
		}
		if st.insets == 0 {
			for _, q := range w {
				pts = append(pts, fpt{float64(q.x), float64(q.y)})
			}
		}
		brims, ok := checkSkirt(t, pr, o, hullOf(pts), 24)
		if !ok {
			return
		}
		t.Outcome(len(brims), len(w), st)
		if st.insets == 0 {
			if len(brims) > 0 {
				t.Fail("a brim without any perimeter")
			}
			return
		}
		lines := make([]region, st.brim)
		for _, k := range brims {
			near := math.Inf(1)
			for i := range k.pts[1:] {
				a, b := k.pts[i], k.pts[i+1]
				for f := 0.0; f < 1; f += 0.25 {
					near = math.Min(near, walls.dist(float64(a.x)+f*float64(b.x-a.x), float64(a.y)+f*float64(b.y-a.y)))
				}
			}
			n := int(math.Round(near/ew)) - 1
			if n < 0 || n >= st.brim || math.Abs(near-float64(n+1)*ew) > 24 {
				t.Fail("line %d: a brim line is %.0f beside the outer perimeter, line width %.0f, %d lines", k.line, near, ew, st.brim)
				return
			}
			lines[n] = append(lines[n], k.ring())
		}
		lo, hi := w.bounds()
		ra := newRaster(lo, hi, int64(ew)*int64(st.brim+1)*3/2+300, 60)
		border := ra.shapeOffset([]data.LayerPart{data.NewBasicLayerPart(w.path(), nil)}, -ew/2)
		for k, l := range lines {
			var ps []data.LayerPart
			for _, q := range l {
				ps = append(ps, data.NewBasicLayerPart(q.path(), nil))
			}
			if !border.offset(float64(k+1)*ew).check(t, fmt.Sprintf("brim line %d", k), ps, 90) {
				return
			}
		}
	}
	ps := append(append([]ring{}, polygons3(9, false)...), polygons3(9, true)...)
	c.Run("prisms over all polygons", len(ps)*c.Pick(1, len(sets)), func(t *T, i int) {
		r, st := ps[i%len(ps)], sets[(i+i/len(ps))%len(sets)]
		t.Key("%v %+v", r, st)
		check(t, r, extrude(r, pt{}, 0, 200), st)
	})
	eachMixed(c, "prisms with holes of all shapes", 15, 4, 1, func(t *T, x mixed, i, _ int) {
		check(t, x.outer, x.mesh(0, 200, i), sets[i%len(sets)])
	})
	eachRound(c, "round prisms", len(sets), func(t *T, r ring, v int) {
		if len(r) > 300 && !c.Thorough() {
			return
		}
		t.Outcome(v)
		check(t, r, turned(r, []int64{0, 400}, []int64{1000, 1000}), sets[v])
	})
}
