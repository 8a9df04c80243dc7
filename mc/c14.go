package main

import (
	"fmt"
	"math"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/modifier"
)

// plan is the reference model of the areas of one layer.
type plan struct {
	section             between
	inner               between // area of the innermost perimeter line
	overlap             between // area which may be filled
	rawBottom, rawTop   between // what is not covered by enough layers
	skinMax, skinTopMax between
}

// plans derives the areas of all layers from the sections of the object.
func plans(sec []cells, o data.Options) []plan {
	ew := int64(o.Printer.ExtrusionWidth)
	inner := -(ew/2 + int64(o.Print.InsetCount-1)*ew)
	if o.Print.InsetCount == 0 {
		inner = -(ew / 2)
	}
	ovl := func(percent int) int64 { return int64(math.Round(float64(ew) * float64(100-percent) / 100 / 2)) }
	out := make([]plan, len(sec))
	for k := range sec {
		p := &out[k]
		p.section = exactly(sec[k])
		p.inner = p.section.offset(inner, 3)
		p.overlap = p.inner.offset(-ovl(o.Print.InfillOverlapPercent), 3)
		p.rawBottom, p.rawTop = nothing(), nothing()
		for i := 1; i <= o.Print.NumberBottomLayers && k-i >= -1; i++ {
			if k-i == -1 {
				p.rawBottom = p.inner
			} else {
				p.rawBottom = p.rawBottom.union(p.inner.sub(exactly(sec[k-i])))
			}
		}
		for i := 1; i <= o.Print.NumberTopLayers && k+i <= len(sec); i++ {
			if k+i == len(sec) {
				p.rawTop = p.inner
			} else {
				p.rawTop = p.rawTop.union(p.inner.sub(exactly(sec[k+i])))
			}
		}
		d := ovl(o.Print.InfillOverlapPercent + o.Print.AdditionalInternalInfillOverlapPercent)
		p.skinMax = p.rawBottom.offset(-d, 4).and(p.overlap)
		p.skinTopMax = p.rawTop.offset(-d, 4).and(p.overlap)
	}
	return out
}

type skinSet struct {
	nb, nt, count, overlap, add, percent int
	ew                                   data.Micrometer
}

func (s skinSet) opts() data.Options {
	return baseOpts(func(o *data.Options) {
		o.Print.NumberBottomLayers = s.nb
		o.Print.NumberTopLayers = s.nt
		o.Print.InsetCount = s.count
		o.Print.InfillOverlapPercent = s.overlap
		o.Print.AdditionalInternalInfillOverlapPercent = s.add
		o.Print.InfillPercent = s.percent
		o.Printer.ExtrusionWidth = s.ew
		o.Print.LayerThickness = 250
	})
}

func sections(s *scene, o data.Options, n int) []cells {
	w := s.placed(o.Printer.Center)
	var out []cells
	for k := 0; k < n; k++ {
		out = append(out, w.below(int64(o.Print.InitialLayerThickness)+int64(k)*int64(o.Print.LayerThickness)))
	}
	return out
}

func attr(t *T, l data.PartitionedLayer, name string) []data.LayerPart {
	p, err := modifier.PartsAttribute(l, name)
	if err != nil {
		t.Fail("%s: %v", name, err)
	}
	return p
}

func skinScenes(c *Ctx, f func(name string, n int, mk func(i int) *scene)) {
	f("2x2x3 blocks", c.Pick(819, 4095), func(i int) *scene {
		return polycube(2, 2, 3, c.Pick(5, 1)*i+1, 4000, []int64{0, 450, 950, 1700}, 0)
	})
	g1 := &grid{xs: []int64{0, 4500, 5001, 9000}, ys: []int64{0, 3001, 6003}}
	f("close steps: 3x2x2 blocks", 4095, func(i int) *scene {
		s := newScene(g1, 0, 700, 1450)
		s.slabs[0], s.slabs[1] = cellsFromMask(g1, (i+1)&63), cellsFromMask(g1, (i+1)>>6)
		return s
	})
	g2 := &grid{xs: []int64{0, 3000, 3300, 7000, 7700, 12000}, ys: []int64{0, 5000}}
	f("close steps: 5x1x2 blocks", 1023, func(i int) *scene {
		s := newScene(g2, 0, 450, 1000)
		s.slabs[0], s.slabs[1] = cellsFromMask(g2, (i+1)&31), cellsFromMask(g2, (i+1)>>5)
		return s
	})
	ne, embrace := embraced(c)
	f("parts embraced by others", ne, embrace)
	f("3x3 holes between full layers", 512, func(i int) *scene {
		g := &grid{xs: []int64{0, 2500, 4500, 9000}, ys: []int64{0, 3000, 5200, 8000}}
		s := newScene(g, 0, 450, 950, 1450)
		s.slabs[0], s.slabs[1], s.slabs[2] = cellsFromMask(g, 511), cellsFromMask(g, i), cellsFromMask(g, 511)
		return s
	})
}

func init() {
	sets := []skinSet{
		{3, 4, 2, 50, 400, 20, 400},
		{1, 1, 1, 50, 0, 20, 401},
		{2, 0, 3, 0, 400, 35, 350},
		{0, 2, 1, 100, 200, 100, 400},
		{5, 1, 0, 50, 400, 10, 400},
		{1, 3, 2, 25, 33, 5, 500},
		{1, 2, 2, 130, 300, 30, 400},
	}
	register(&Check{ID: "C14", Level: "exploration",
		Rule:   "one evaluation = one object with one setting, the solid areas of each layer compared with the reference; distinct = different areas",
		Assume: []string{"orthogonal objects exactly, tilted and round ones on a raster of points; the shape of offset corners is left open between rounded and pointed"},
		Run: func(c *Ctx) {
			one := func(t *T, s *scene, o data.Options) {
				p := runPipe(o, s.mesh())
				if p.err != nil {
					t.Fail("%v", p.err)
					return
				}
				for k, pl := range plans(sections(s, o, len(p.layers)), o) {
					bottom, top := attr(t, p.layers[k], "bottom"), attr(t, p.layers[k], "top")
					need := pl.skinMax
					ok := need.check(t, fmt.Sprintf("layer %d: solid bottom", k), bottom, 6)
					// the top may be printed as bottom where both is needed
					needTop := pl.skinTopMax
					solid := between{needTop.lo.bool(need.lo, orF), pl.skinTopMax.hi.bool(pl.skinMax.hi, orF)}
					g := append(partsRegion(bottom), partsRegion(top)...)
					ok = ok && solid.checkRegion(t, fmt.Sprintf("layer %d: solid area", k), g, 6, func() string { return showParts(bottom) + " top " + showParts(top) })
					ok = ok && between{newCells(need.lo.g), pl.skinTopMax.hi}.check(t, fmt.Sprintf("layer %d: solid top", k), top, 6)
					if !ok {
						t.Fail("section %v", pl.section.lo)
						return
					}
					t.Outcome(need.lo.String(), needTop.lo.String())
				}
			}
			skinScenes(c, func(name string, n int, mk func(i int) *scene) {
				ns := c.Pick(2, len(sets))
				c.Run(name, n*ns, func(t *T, i int) {
					st := sets[(i/n+i*c.Pick(1, 0))%len(sets)]
					s := mk(i % n)
					t.Key("%v %+v", s, st)
					if s.empty() {
						return
					}
					one(t, s, st.opts())
					t.Sample(s.String())
				})
			})
			skinRaster(c, sets, false)
			bigScenes(c, func(name string, n int, mk func(i int, o *data.Options) *scene) {
				c.Run(name, n*c.Pick(1, len(sets)), func(t *T, i int) {
					st := sets[(i+i/n)%len(sets)]
					o := st.opts()
					s := mk(i%n, &o)
					t.Key("%v %+v", s, st)
					one(t, s, o)
				})
			})
		}})
	register(&Check{ID: "C15", Level: "exploration",
		Rule:   "one evaluation = one object with one setting, the filled areas of each layer compared; distinct = different areas",
		Assume: []string{"orthogonal objects exactly, tilted and round ones on a raster of points; the shape of offset corners is left open between rounded and pointed"},
		Run: func(c *Ctx) {
			one := func(t *T, s *scene, st skinSet, o data.Options) {
				p := runPipe(o, s.mesh())
				if p.err != nil {
					t.Fail("%v", p.err)
					return
				}
				for k, pl := range plans(sections(s, o, len(p.layers)), o) {
					all := map[string][]data.LayerPart{}
					area, sum := 0.0, 0.0
					var g region
					for _, a := range []string{"bottom", "top", "infill"} {
						all[a] = attr(t, p.layers[k], a)
						sum += partsArea(all[a])
						g = append(g, partsRegion(all[a])...)
					}
					if st.percent == 0 {
						if len(all["infill"]) > 0 {
							t.Fail("layer %d: infill without any infill percentage", k)
						}
						continue
					}
					// each point inside belongs to exactly one of them
					for _, q := range pl.overlap.lo.probes([]int64{8, 300, 701}) {
						if !pl.overlap.lo.has(q[0], q[1]) || pl.overlap.lo.borderDist2(q[0], q[1], true) < 7 {
							continue
						}
						n, near := 0, false
						for _, a := range []string{"bottom", "top", "infill"} {
							r := partsRegion(all[a])
							if r.has(q[0], q[1]) {
								n++
							}
							near = near || r.dist(q[0], q[1]) < 5
						}
						if n != 1 && !near {
							t.Fail("layer %d: the point (%.0f,%.0f) belongs to %d areas; bottom %s top %s infill %s", k, q[0], q[1], n, showParts(all["bottom"]), showParts(all["top"]), showParts(all["infill"]))
							return
						}
					}
					between{newCells(pl.overlap.lo.g), pl.overlap.hi}.checkRegion(t, fmt.Sprintf("layer %d: filled area", k), g, 7, func() string { return fmt.Sprint(all) })
					// there is no more area than the interior has
					area = pl.overlap.hi.area()
					per := 0.0
					for _, r := range pl.overlap.hi.outlines() {
						per += r.perimeter()
					}
					if sum > area+per*8+1 || sum < pl.overlap.lo.area()-per*8-1 {
						t.Fail("layer %d: the filled areas have together %.0f, want %.0f to %.0f", k, sum, pl.overlap.lo.area(), area)
					}
					if t.Failed() {
						t.Fail("section %v", pl.section.lo)
						return
					}
					t.Outcome(math.Round(sum/1000), pl.overlap.lo.String())
				}
			}
			set := func(k int) skinSet {
				if k %= len(sets) + 1; k < len(sets) {
					return sets[k]
				}
				return skinSet{2, 2, 2, 50, 400, 0, 400} // no infill
			}
			skinScenes(c, func(name string, n int, mk func(i int) *scene) {
				ns := c.Pick(2, len(sets)+1)
				c.Run(name, n*ns, func(t *T, i int) {
					st := set(i/n + i*c.Pick(1, 0))
					s := mk(i % n)
					t.Key("%v %+v", s, st)
					if s.empty() {
						return
					}
					one(t, s, st, st.opts())
				})
			})
			skinRaster(c, sets, true)
			bigScenes(c, func(name string, n int, mk func(i int, o *data.Options) *scene) {
				c.Run(name, n*c.Pick(1, len(sets)), func(t *T, i int) {
					st := set(i + i/n)
					o := st.opts()
					s := mk(i%n, &o)
					t.Key("%v %+v", s, st)
					one(t, s, st, o)
				})
			})
		}})
}
