package main

import (
	"fmt"
	"math"

	"github.com/aligator/goslice/data"
)

// ---- areas of any shape on a raster ----

// raster is the frame of masks.
type raster struct {
	x0, y0, st float64
	w, h       int
}

type mask []bool

func newRaster(lo, hi pt, margin int64, step float64) *raster {
	r := &raster{x0: float64(lo.x - margin), y0: float64(lo.y - margin), st: step}
	r.w = int(float64(hi.x-lo.x+2*margin)/step) + 1
	r.h = int(float64(hi.y-lo.y+2*margin)/step) + 1
	return r
}

func (r *raster) at(i int) (x, y float64) {
	return r.x0 + (float64(i%r.w)+0.5)*r.st, r.y0 + (float64(i/r.w)+0.5)*r.st
}

// fill marks the pixels whose middle lies inside of an odd number of the rings.
func (r *raster) fill(m mask, g region) {
	for row := 0; row < r.h; row++ {
		y := r.y0 + (float64(row)+0.5)*r.st
		var xs []float64
		for _, q := range g {
			for i := range q {
				a, b := q[i], q[(i+1)%len(q)]
				if (float64(a.y) > y) != (float64(b.y) > y) {
					xs = append(xs, float64(a.x)+(y-float64(a.y))/float64(b.y-a.y)*float64(b.x-a.x))
				}
			}
		}
		for _, x := range xs {
			c := int(math.Ceil((x-r.x0)/r.st - 0.5))
			if c < 0 {
				c = 0
			}
			for ; c < r.w; c++ {
				m[row*r.w+c] = !m[row*r.w+c]
			}
		}
	}
}

// parts is the union of the parts.
func (r *raster) parts(ps []data.LayerPart) mask {
	out := make(mask, r.w*r.h)
	for _, p := range ps {
		one := make(mask, r.w*r.h)
		r.fill(one, partsRegion([]data.LayerPart{p}))
		for i, v := range one {
			out[i] = out[i] || v
		}
	}
	return out
}

// dist2 is the square of the distance (in pixels) of each pixel from the next one of the mask.
func (r *raster) dist2(m mask) []float64 {
	const inf = 1e12
	d := make([]float64, len(m))
	n := r.w
	if r.h > n {
		n = r.h
	}
	f, v, z := make([]float64, n), make([]int, n), make([]float64, n+1)
	line := func(n int, get func(int) float64, set func(int, float64)) {
		for i := 0; i < n; i++ {
			f[i] = get(i)
		}
		k := 0
		v[0], z[0], z[1] = 0, -inf, inf
		for q := 1; q < n; q++ {
			var s float64
			for {
				s = (f[q] + float64(q*q) - f[v[k]] - float64(v[k]*v[k])) / float64(2*q-2*v[k])
				if s > z[k] || k == 0 {
					break
				}
				k--
			}
			if s <= z[k] {
				s = z[k]
			} else {
				k++
			}
			v[k], z[k], z[k+1] = q, s, inf
		}
		k = 0
		for q := 0; q < n; q++ {
			for z[k+1] < float64(q) {
				k++
			}
			e := float64(q - v[k])
			set(q, e*e+f[v[k]])
		}
	}
	for x := 0; x < r.w; x++ {
		line(r.h, func(i int) float64 {
			if m[i*r.w+x] {
				return 0
			}
			return inf
		}, func(i int, e float64) { d[i*r.w+x] = e })
	}
	for y := 0; y < r.h; y++ {
		row := d[y*r.w : (y+1)*r.w]
		line(r.w, func(i int) float64 { return row[i] }, func(i int, e float64) { row[i] = e })
	}
	return d
}

// grow adds everything within the distance (in micrometers).
func (r *raster) grow(m mask, d float64) mask {
	out := make(mask, len(m))
	if d < 0 {
		for i := range m {
			out[i] = !m[i]
		}
		d2 := r.dist2(out)
		for i := range d2 {
			out[i] = d2[i]*r.st*r.st > d*d
		}
		return out
	}
	for i, v := range r.dist2(m) {
		out[i] = v*r.st*r.st <= d*d
	}
	return out
}

// fuzzy is an area which is known approximately: at least lo, at most hi.
type fuzzy struct {
	r      *raster
	lo, hi mask
}

func (r *raster) none() fuzzy {
	return fuzzy{r, make(mask, r.w*r.h), make(mask, r.w*r.h)}
}

func (r *raster) exactly(m mask) fuzzy { return fuzzy{r, m, m} }

func (f fuzzy) with(g fuzzy, op func(alo, ahi, blo, bhi bool) (lo, hi bool)) fuzzy {
	out := f.r.none()
	for i := range f.lo {
		out.lo[i], out.hi[i] = op(f.lo[i], f.hi[i], g.lo[i], g.hi[i])
	}
	return out
}

func (f fuzzy) or(g fuzzy) fuzzy {
	return f.with(g, func(al, ah, bl, bh bool) (bool, bool) { return al || bl, ah || bh })
}
func (f fuzzy) and(g fuzzy) fuzzy {
	return f.with(g, func(al, ah, bl, bh bool) (bool, bool) { return al && bl, ah && bh })
}
func (f fuzzy) sub(g fuzzy) fuzzy {
	return f.with(g, func(al, ah, bl, bh bool) (bool, bool) { return al && !bh, ah && !bl })
}

// differs is sub for areas which are grown afterwards: g may leave areas which are smaller than a pixel.
func (f fuzzy) differs(g fuzzy) fuzzy {
	out := f.sub(g)
	hi, in := f.r.grow(f.hi, 0.75*f.r.st), f.r.grow(g.lo, -0.75*f.r.st)
	for i := range hi {
		out.hi[i] = hi[i] && !in[i]
	}
	return out
}

// offset moves the border. Corners may be round or cut off, up to the square root of 2 of the distance.
func (f fuzzy) offset(d float64) fuzzy {
	slack := 1.5 * f.r.st
	a := math.Abs(d)
	near, far := a-slack, a*1.42+slack
	if d >= 0 {
		out := fuzzy{f.r, f.lo, f.r.grow(f.hi, far)}
		if near > 0 {
			out.lo = f.r.grow(f.lo, near)
		}
		return out
	}
	out := fuzzy{f.r, f.r.grow(f.lo, -far), f.hi}
	if near > 0 {
		out.hi = f.r.grow(f.hi, -near)
	}
	return out
}

// shapeOffset is the offset of a shape whose borders are known, which is less uncertain at its sides.
func (r *raster) shapeOffset(ps []data.LayerPart, d float64) fuzzy {
	m := r.parts(ps)
	slack := 1.5 * r.st
	a := math.Abs(d)
	if a < 1 {
		return r.exactly(m)
	}
	type disc struct{ x, y, r float64 }
	var discs []disc
	for _, g := range partsRegion(ps) {
		// (very short edges are left out to find the real corners)
		var q ring
		for _, p := range g {
			if len(q) == 0 || math.Hypot(float64(p.x-q[len(q)-1].x), float64(p.y-q[len(q)-1].y)) > 60 {
				q = append(q, p)
			}
		}
		for i := range q {
			p, b, n := q[(i+len(q)-1)%len(q)], q[i], q[(i+1)%len(q)]
			t := math.Abs(math.Atan2(float64(n.y-b.y), float64(n.x-b.x)) - math.Atan2(float64(b.y-p.y), float64(b.x-p.x)))
			if t > math.Pi {
				t = 2*math.Pi - t
			}
			rr := 1.42
			if t < 1.57 {
				rr = math.Min(rr, 1/math.Cos(t/2))
			}
			if rr > 1.002 {
				discs = append(discs, disc{float64(b.x), float64(b.y), a*rr + slack})
			}
		}
	}
	near := r.grow(m, math.Copysign(math.Max(0.1, a-slack), d))
	far := r.grow(m, math.Copysign(a+slack, d))
	for _, k := range discs {
		lo, hi := int((k.y-k.r-r.y0)/r.st), int((k.y+k.r-r.y0)/r.st)+1
		for row := lo; row <= hi; row++ {
			if row < 0 || row >= r.h {
				continue
			}
			y := r.y0 + (float64(row)+0.5)*r.st - k.y
			if y*y > k.r*k.r {
				continue
			}
			e := math.Sqrt(k.r*k.r - y*y)
			for c := int((k.x - e - r.x0) / r.st); c <= int((k.x+e-r.x0)/r.st); c++ {
				if c < 0 || c >= r.w {
					continue
				}
				i := row*r.w + c
				far[i] = d > 0
			}
		}
	}
	if d < 0 {
		for i := range far {
			far[i] = far[i] && near[i]
		}
		return fuzzy{r, far, near}
	}
	for i := range far {
		far[i] = far[i] || near[i]
	}
	return fuzzy{r, near, far}
}

// check compares the parts with the area. Places which are thinner than the tolerance may be lost.
func (f fuzzy) check(t *T, what string, ps []data.LayerPart, tol float64) bool {
	m := f.r.parts(ps)
	lo, hi := f.r.grow(f.lo, -tol), f.r.grow(f.hi, tol)
	// (the middle of a pixel may lie exactly on the seam of two parts)
	seams := f.r.grow(m, 1.01*f.r.st)
	for i := range m {
		if lo[i] && !seams[i] || m[i] && !hi[i] {
			x, y := f.r.at(i)
			t.Fail("%s: the point (%.0f,%.0f) is inside=%v, want %v; got %s", what, x, y, m[i], !m[i], showParts(ps))
			return false
		}
	}
	return true
}

func (f fuzzy) count() (lo, hi int) {
	for i := range f.lo {
		if f.lo[i] {
			lo++
		}
		if f.hi[i] {
			hi++
		}
	}
	return
}

// ---- objects with tilted and round walls ----

// shape is a model for the checks on the raster.
type shape struct {
	name string
	m    mesh
}

// slopes explores objects whose walls are neither upright nor even.
func slopes(c *Ctx, f func(name string, n int, mk func(i int) shape)) {
	g := &grid{xs: []int64{0, 3000, 6001}, ys: []int64{0, 2501, 6000}}
	sets := [][3]int64{{300, 700, 1300}, {200, 480, 520}, {450, 455, 1200}}
	step := c.Pick(401, 29)
	n := (19683 + step - 1) / step
	f("terrains", n*len(sets)*2, func(i int) shape {
		set := sets[i%len(sets)]
		k := i / len(sets) / 2 * step
		s := &terrain{g: g, diag: func(a, b int) bool { return k>>uint((a+b)%2)&1 == 1 }}
		for j := 0; j < 9; j++ {
			s.h = append(s.h, set[k%3])
			k /= 3
		}
		k = i / len(sets) / 2 * step
		if i/len(sets)%2 == 1 {
			s.base = 1600
			m := append(s.mesh(), sceneOnGrid(&grid{xs: []int64{1000, 2500}, ys: []int64{-4000, -2000}}, []int64{0, 900}, "#").mesh()...)
			return shape{fmt.Sprintf("heights %v upside down", s.h), m}
		}
		return shape{fmt.Sprintf("heights %v", s.h), s.mesh()}
	})
	profiles := []struct{ z, scale []int64 }{
		{[]int64{0, 1300}, []int64{1000, 600}},
		{[]int64{0, 1300}, []int64{500, 1000}},
		{[]int64{0, 500, 500, 1300}, []int64{1000, 950, 500, 600}},
		{[]int64{0, 600, 600, 900, 1200}, []int64{400, 450, 1000, 1000, 700}},
		{[]int64{0, 1500}, []int64{1000, 1000}},
	}
	ns := []int{12, 70, 130}
	f("turned objects", roundKinds*len(ns)*len(profiles), func(i int) shape {
		kind, k, p := i%roundKinds, ns[i/roundKinds%len(ns)], profiles[i/roundKinds/len(ns)]
		return shape{fmt.Sprintf("round kind %d with %d corners, %v", kind, k, p), turned(roundRing(kind, k, 3500), p.z, p.scale)}
	})
	// (two or three of the areas on each other)
	mixedHeights := [][]int64{{0, 700, 1300}, {0, 400, 800, 1250}, {0, 500, 1400}}
	nMixed := c.Pick(48, 1500)
	f("stacks with holes of all shapes", nMixed, func(i int) shape {
		hs := mixedHeights[i%len(mixedHeights)]
		sh := shape{name: "stack of"}
		for k := 0; k+1 < len(hs); k++ {
			x := mixedArea((i*211 + k*(i*17+1013)) % numMixed)
			if (i+k)%4 == 3 {
				x = x.scaled(4, 5)
			}
			sh.name += fmt.Sprintf(" %s up to %d", x.name, hs[k+1])
			sh.m = append(sh.m, x.scaled(1, 2).mesh(hs[k], hs[k+1], i+k)...)
		}
		return sh
	})
	tets := allTets(3000, 3000, 600)
	ts := c.Pick(len(tets)/60, len(tets)/900)
	f("tetrahedra", len(tets)/ts, func(i int) shape {
		v := tets[i*ts]
		return shape{fmt.Sprint(v), tetraMesh(v)}
	})
}

// rasterPlan is the reference model of the areas of one layer.
type rasterPlan struct {
	overlap, skin, top fuzzy
}

// rasterPlans derives the areas of all layers from their sections.
func rasterPlans(r *raster, ls []data.PartitionedLayer, o data.Options) []rasterPlan {
	ew := float64(o.Printer.ExtrusionWidth)
	inner := -(ew/2 + float64(o.Print.InsetCount-1)*ew)
	if o.Print.InsetCount == 0 {
		inner = -ew / 2
	}
	ovl := func(percent int) float64 { return ew * float64(100-percent) / 100 / 2 }
	sec := make([]fuzzy, len(ls))
	for k, l := range ls {
		sec[k] = r.exactly(r.parts(l.LayerParts()))
	}
	out := make([]rasterPlan, len(ls))
	for k, l := range ls {
		in := r.shapeOffset(l.LayerParts(), inner)
		out[k].overlap = in.offset(-ovl(o.Print.InfillOverlapPercent))
		side := func(n, dir int) fuzzy {
			raw := r.none()
			for i := 1; i <= n; i++ {
				j := k + dir*i
				if j < 0 || j >= len(ls) {
					return in
				}
				raw = raw.or(in.differs(sec[j]))
			}
			return raw
		}
		d := ovl(o.Print.InfillOverlapPercent + o.Print.AdditionalInternalInfillOverlapPercent)
		out[k].skin = side(o.Print.NumberBottomLayers, -1).offset(-d).and(out[k].overlap)
		out[k].top = side(o.Print.NumberTopLayers, 1).offset(-d).and(out[k].overlap)
	}
	return out
}

// skinRaster judges the solid and the filled areas of objects with tilted and round walls.
func skinRaster(c *Ctx, sets []skinSet, filled bool) {
	slopes(c, func(name string, n int, mk func(i int) shape) {
		c.Run(name, n*c.Pick(1, len(sets)), func(t *T, i int) {
			s := mk(i % n)
			st := sets[(i+i/n)%len(sets)]
			o := st.opts()
			t.Key("%s %+v", s.name, st)
			p := runPipe(o, s.m)
			if p.err != nil {
				t.Fail("%v", p.err)
				return
			}
			lo, hi := fromVec(p.om.Min()), fromVec(p.om.Max())
			r := newRaster(pt{lo.x, lo.y}, pt{hi.x, hi.y}, 1000, 50)
			const tol = 110
			for k, pl := range rasterPlans(r, p.layers, o) {
				bottom, top := attr(t, p.layers[k], "bottom"), attr(t, p.layers[k], "top")
				all := append(append([]data.LayerPart{}, bottom...), top...)
				if !filled {
					ok := pl.skin.or(pl.top).check(t, fmt.Sprintf("layer %d: solid area", k), all, tol)
					ok = ok && pl.skin.check(t, fmt.Sprintf("layer %d: solid bottom", k), bottom, tol)
					ok = ok && fuzzy{r, r.none().lo, pl.top.hi}.check(t, fmt.Sprintf("layer %d: solid top", k), top, tol)
					if !ok {
						return
					}
				} else {
					infill := attr(t, p.layers[k], "infill")
					masks := []mask{r.parts(bottom), r.parts(top), r.parts(infill)}
					if !pl.overlap.check(t, fmt.Sprintf("layer %d: filled area", k), append(all, infill...), tol) {
						return
					}
					// (the borders of the areas may be off by a pixel)
					edge := make(mask, r.w*r.h)
					for _, m := range masks {
						in, ex := r.grow(m, -60), r.grow(m, 60)
						for j := range edge {
							edge[j] = edge[j] || ex[j] && !in[j]
						}
					}
					for j := range edge {
						cnt := 0
						for _, m := range masks {
							if m[j] {
								cnt++
							}
						}
						if cnt > 1 && !edge[j] {
							x, y := r.at(j)
							t.Fail("layer %d: the point (%.0f,%.0f) belongs to %d areas", k, x, y, cnt)
							return
						}
					}
				}
				a, b := pl.skin.count()
				t.Outcome(k, a, b, len(all))
			}
		})
	})
}

type rasterSupport struct{ full, iface, normal fuzzy }

// rasterSupports derives the support of all layers from their sections.
func rasterSupports(r *raster, ls []data.PartitionedLayer, o data.Options) []rasterSupport {
	n := len(ls)
	sp := o.Print.Support
	d := math.Round(float64(o.Print.LayerThickness) * math.Tan(float64(sp.ThresholdAngle)*math.Pi/180))
	out := make([]rasterSupport, n)
	raw := make([]fuzzy, n)
	for k := range raw {
		raw[k] = r.none()
		out[k] = rasterSupport{r.none(), r.none(), r.none()}
	}
	grow := math.Floor(float64(sp.PatternSpacing.ToMicrometer()) * 3 / 2)
	for l := sp.TopGapLayers; l <= n-2; l++ {
		over := r.exactly(r.parts(ls[l+1].LayerParts())).differs(r.shapeOffset(ls[l].LayerParts(), d))
		if _, hi := over.count(); hi > 0 {
			raw[l-sp.TopGapLayers] = over.offset(grow)
		}
	}
	last := r.none()
	for k := n - 2; k >= 0; k-- {
		last = last.or(raw[k]).sub(r.shapeOffset(ls[k].LayerParts(), float64(sp.Gap.ToMicrometer())))
		out[k].full = last
		if sp.InterfaceLayers <= 0 {
			out[k].normal = last
			continue
		}
		above := r.none()
		if j := k + sp.InterfaceLayers; j < n-1 {
			above = out[j].full
		}
		out[k].iface = last.sub(above)
		out[k].normal = last.and(above)
	}
	return out
}

// supportRaster judges the support of objects with tilted and round walls.
func supportRaster(c *Ctx, sets []supSet) {
	slopes(c, func(name string, n int, mk func(i int) shape) {
		c.Run(name, n*c.Pick(1, len(sets)), func(t *T, i int) {
			s := mk(i % n)
			st := sets[(i+i/n)%len(sets)]
			o := st.opts()
			t.Key("%s %+v", s.name, st)
			p := runPipe(o, s.m)
			if p.err != nil {
				t.Fail("%v", p.err)
				return
			}
			lo, hi := fromVec(p.om.Min()), fromVec(p.om.Max())
			r := newRaster(pt{lo.x, lo.y}, pt{hi.x, hi.y}, 5000, 60)
			const tol = 120
			for k, pl := range rasterSupports(r, p.layers, o) {
				normal, iface := attr(t, p.layers[k], "support"), attr(t, p.layers[k], "supportInterface")
				all := append(append([]data.LayerPart{}, normal...), iface...)
				ok := pl.full.check(t, fmt.Sprintf("layer %d: support", k), all, tol)
				ok = ok && pl.iface.check(t, fmt.Sprintf("layer %d: support interface", k), iface, tol)
				ok = ok && pl.normal.check(t, fmt.Sprintf("layer %d: support without interface", k), normal, tol)
				if !ok {
					return
				}
				a, b := pl.full.count()
				t.Outcome(k, a, b, len(all))
			}
		})
	})
}
