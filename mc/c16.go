package main

import (
	"fmt"
	"math"

	"github.com/aligator/goslice/data"
)

type supSet struct {
	angle, gapLayers, iface int
	spacing, gap            float64
	brim                    int
}

func (s supSet) opts() data.Options {
	return baseOpts(func(o *data.Options) {
		o.Print.Support.Enabled = true
		o.Print.Support.ThresholdAngle = s.angle
		o.Print.Support.TopGapLayers = s.gapLayers
		o.Print.Support.InterfaceLayers = s.iface
		o.Print.Support.PatternSpacing = data.Millimeter(s.spacing)
		o.Print.Support.Gap = data.Millimeter(s.gap)
		o.Print.BrimSkirt.BrimCount = s.brim
		o.Print.LayerThickness = 300
	})
}

type supPlan struct{ full, iface, normal between }

// supportPlans derives the support of all layers from the sections.
func supportPlans(sec []cells, o data.Options) []supPlan {
	n := len(sec)
	sp := o.Print.Support
	d := int64(math.Round(float64(o.Print.LayerThickness) * math.Tan(float64(sp.ThresholdAngle)*math.Pi/180)))
	out := make([]supPlan, n)
	raw := make([]between, n)
	for k := range raw {
		raw[k] = nothing()
		out[k] = supPlan{nothing(), nothing(), nothing()}
	}
	grow := int64(sp.PatternSpacing*1000) * 3 / 2
	for l := sp.TopGapLayers; l <= n-2; l++ {
		over := exactly(sec[l+1]).sub(exactly(sec[l]).offset(d, 3))
		if !over.hi.empty() {
			raw[l-sp.TopGapLayers] = over.offset(grow, 4)
		}
	}
	last := nothing()
	for k := n - 2; k >= 0; k-- {
		last = last.union(raw[k]).sub(exactly(sec[k]).offset(int64(sp.Gap*1000), 4))
		out[k].full = last
		if sp.InterfaceLayers <= 0 {
			out[k].normal = last
			continue
		}
		above := out[min(k+sp.InterfaceLayers, n-1)].full
		out[k].iface = last.sub(above)
		out[k].normal = last.and(above)
	}
	return out
}

func init() {
	register(&Check{ID: "C16", Level: "exploration",
		Rule:   "one evaluation = one object with one setting, the support of each layer compared with the reference; distinct = different supports",
		Assume: []string{"orthogonal objects exactly, tilted and round ones on a raster of points; the shape of offset corners is left open between rounded and pointed"},
		Run: func(c *Ctx) {
			sets := []supSet{
				{60, 3, 2, 2.5, 0.6, 0}, {45, 1, 1, 2, 0.4, 0}, {60, 0, 2, 1.5, 0.6, 0}, {30, 2, 0, 2.5, 1, 0},
				{60, 1, 3, 1.2, 0, 3}, {80, 2, 9, 2.5, 0.3, 0}, {0, 1, 1, 1, 0.5, 1},
			}
			one := func(t *T, s *scene, st supSet, o data.Options) {
				p := runPipe(o, s.mesh())
				if p.err != nil {
					t.Fail("%v", p.err)
					return
				}
				sec := sections(s, o, len(p.layers))
				for k, pl := range supportPlans(sec, o) {
					normal, iface := attr(t, p.layers[k], "support"), attr(t, p.layers[k], "supportInterface")
					brim := nothing()
					if k == 0 && st.brim > 0 {
						// the brim is kept free of support; parts which are too thin for a wall may have none
						ew := int64(o.Printer.ExtrusionWidth)
						brim = between{
							exactly(sec[0].erode(ew/2+5, square)).filled().offset(ew*int64(st.brim)+ew/2, 10).lo,
							exactly(sec[0]).filled().offset(ew*int64(st.brim), 10).hi,
						}
						// it covers nothing inside of the outlines
						brim = brim.sub(exactly(sec[0].filled(false).bool(sec[0], subF)))
						pl.iface, pl.normal, pl.full = pl.iface.sub(brim), pl.normal.sub(brim), pl.full.sub(brim)
					}
					all := append(partsRegion(normal), partsRegion(iface)...)
					ok := pl.full.checkRegion(t, fmt.Sprintf("layer %d: support", k), all, 8, func() string { return showParts(normal) + " interface " + showParts(iface) })
					ok = ok && pl.iface.check(t, fmt.Sprintf("layer %d: support interface", k), iface, 8)
					ok = ok && pl.normal.check(t, fmt.Sprintf("layer %d: support without interface", k), normal, 8)
					if !ok {
						t.Fail("section %v", sec[k])
						return
					}
					if !pl.full.lo.empty() {
						t.Outcome(k, pl.full.lo.String(), partsArea(iface))
					}
				}
			}
			run := func(name string, n int, ns int, mk func(i int) *scene) {
				c.Run(name, n*ns, func(t *T, i int) {
					st := sets[(i/n+i*c.Pick(1, 0))%len(sets)]
					s := mk(i % n)
					t.Key("%v %+v", s, st)
					if s.empty() {
						return
					}
					one(t, s, st, st.opts())
					t.Sample(s.String())
				})
			}
			supportRaster(c, []supSet{{60, 3, 2, 2, 0.6, 0}, {45, 1, 1, 1.5, 0.4, 0}, {60, 0, 2, 1.5, 0.6, 0}, {70, 2, 0, 2, 1, 0}, {80, 2, 9, 2.5, 0.3, 0}})
			bigScenes(c, func(name string, n int, mk func(i int, o *data.Options) *scene) {
				c.Run(name, n*c.Pick(1, len(sets)), func(t *T, i int) {
					st := sets[(i+i/n)%len(sets)]
					o := st.opts()
					s := mk(i%n, &o)
					t.Key("%v %+v", s, st)
					one(t, s, st, o)
				})
			})
			g := &grid{xs: []int64{0, 4000, 4400, 8000, 14000}, ys: []int64{0, 5000}}
			run("4x1x3 blocks", c.Pick(819, 4095), c.Pick(3, len(sets)), func(i int) *scene {
				s := newScene(g, 0, 1000, 2350, 2800)
				m := c.Pick(5, 1)*i + 1
				for k := range s.slabs {
					s.slabs[k] = cellsFromMask(g, m>>uint(4*k)&15)
				}
				return s
			})
			// small steps around the threshold
			g2 := &grid{xs: []int64{0, 5000, 5165, 5300, 5490, 5550, 7500, 9500}, ys: []int64{0, 6000}}
			run("steps", 7*7*8*8, c.Pick(1, len(sets)), func(i int) *scene {
				s := newScene(g2, 0, 600, 1250, 2900)
				a, b := i%7+1, i/7%7+1
				for x := 0; x < 7; x++ {
					s.slabs[0].on[x] = x < a
					s.slabs[1].on[x] = x < b || x == i/49%8
					s.slabs[2].on[x] = x < i/49/8 || x == i/49%8
				}
				return s
			})
			g3 := &grid{xs: []int64{0, 3000, 8000}, ys: []int64{0, 4000, 12000}}
			run("2x2x4 blocks", c.Pick(1<<16/32, 1<<16), c.Pick(1, 2), func(i int) *scene {
				s := newScene(g3, 0, 950, 1300, 1900, 2250)
				m := i
				if !c.Thorough() {
					m = i<<5 | (i * 7 % 31)
				}
				for k := range s.slabs {
					s.slabs[k] = cellsFromMask(g3, m>>uint(4*k)&15)
				}
				return s
			})
			// bodies in the way of the support: it ends on them, and what is below of them gets no support
			g4 := &grid{xs: []int64{0, 3000, 6000, 9000, 12000}, ys: []int64{0, 3000, 6000, 9000}}
			run("bodies below overhangs", c.Pick(1365, 4096), c.Pick(1, len(sets)), func(i int) *scene {
				i *= c.Pick(3, 1)
				s := newScene(g4, 0, 900, 2100, 3300, 4500)
				pick := func(n int) int { k := i % n; i /= n; return k }
				at := func(slab, x, y int) *bool { return &s.slabs[slab].on[y*4+x] }
				plate, over, low := pick(4), pick(8), pick(16)
				mid := pick(8)
				for k := range s.slabs {
					*at(k, 1, 1) = true // the pillar
				}
				// what hangs over
				for x := 0; x < 4; x++ {
					for y := 0; y < 3; y++ {
						if (over&1 != 0 && y == 1) || (over&2 != 0 && x >= 1 && y == 2) || (over&4 != 0 && x <= 1 && y <= 1) {
							*at(3, x, y) = true
						}
					}
				}
				// the plate in the second slab reaches below some of it
				for x := 0; x < 4; x++ {
					for y := 0; y < 3; y++ {
						switch plate {
						case 1:
							*at(1, x, y) = true
						case 2:
							*at(1, x, y) = x >= 1 && y >= 1
						case 3:
							*at(1, x, y) = y == 1
						}
					}
				}
				*at(1, 1, 1) = true
				// bodies on the ground and in the middle
				for k, p := range [][2]int{{0, 0}, {2, 1}, {3, 1}, {2, 2}} {
					if low>>uint(k)&1 == 1 {
						*at(0, p[0], p[1]) = true
					}
				}
				for k, p := range [][2]int{{0, 1}, {3, 1}, {2, 2}} {
					if mid>>uint(k)&1 == 1 {
						*at(2, p[0], p[1]) = true
					}
				}
				return s
			})
			c.Run("disabled", c.Pick(1365, 4095), func(t *T, i int) {
				i *= c.Pick(3, 1)
				s := newScene(g, 0, 1000, 2350, 2800)
				for k := range s.slabs {
					s.slabs[k] = cellsFromMask(g, (i+1)>>uint(4*k)&15)
				}
				t.Key("%v", s)
				st := sets[i%len(sets)]
				o := st.opts()
				o.Print.Support.Enabled = false
				p := runPipe(o, s.mesh())
				if p.err != nil {
					t.Fail("%v", p.err)
					return
				}
				for k, l := range p.layers {
					if len(attr(t, l, "support")) > 0 || len(attr(t, l, "supportInterface")) > 0 {
						t.Fail("layer %d has support", k)
					}
				}
				for _, m := range parseGCode(p.gcode).types {
					if m.code == "SUPPORT" {
						t.Fail("line %d: support", m.line)
						return
					}
				}
				t.Outcome(s.String())
			})
		}})
}
