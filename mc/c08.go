package main

import (
	"math"

	"github.com/aligator/goslice/data"
)

// wallFacets lists the facets which stand upright.
func wallFacets(m mesh) []int {
	var out []int
	for i, f := range m {
		if f[0].z != f[1].z || f[1].z != f[2].z {
			out = append(out, i)
		}
	}
	return out
}

func init() {
	register(&Check{ID: "C08", Level: "exploration",
		Rule:   "one evaluation = one damaged mesh sliced, every layer compared; distinct = damage and section",
		Assume: []string{"damages do not touch each other unless they are smaller than half of the snap distance, walls at least 3 mm apart from each other"},
		Run: func(c *Ctx) {
			var disp []v3
			for _, d := range []int64{40, 100, 155} {
				disp = append(disp, v3{d, 0, 0}, v3{-d, 0, 0}, v3{0, d, 0}, v3{0, -d, 0})
			}
			disp = append(disp, v3{110, 110, 0}, v3{-110, 110, 0}, v3{110, -110, 0}, v3{-50, -90, 0})
			type job struct {
				s *scene
				f int
			}
			var jobs []job
			for mask := 1; mask < 16; mask++ {
				for diag := 0; diag < 2; diag++ {
					s := polycube(2, 2, 1, mask, 4000, []int64{0, 1000}, diag)
					if s.edgeContact() {
						continue
					}
					for _, f := range wallFacets(s.mesh()) {
						jobs = append(jobs, job{s, f})
					}
				}
			}
			for mask := 1; mask < 256; mask += c.Pick(16, 1) {
				s := polycube(2, 2, 2, mask, 4000, []int64{0, 500, 1000}, mask&1)
				if s.edgeContact() {
					continue
				}
				for _, f := range wallFacets(s.mesh()) {
					jobs = append(jobs, job{s, f})
				}
			}
			c.Run("one vertex of one facet displaced", len(jobs)*3*len(disp), func(t *T, i int) {
				d := disp[i%len(disp)]
				v := i / len(disp) % 3
				j := jobs[i/len(disp)/3]
				m := j.s.mesh()
				m[j.f][v] = m[j.f][v].add(d)
				t.Key("%v diag %d facet %d vertex %d by %v", j.s, j.s.diag, j.f, v, d)
				o := baseOpts(func(o *data.Options) { o.Print.InitialLayerThickness = 100; o.Print.LayerThickness = 220 })
				ls, om, err := slice(&o, m)
				if err != nil {
					t.Fail("%v", err)
					return
				}
				// the placement follows from the bounds of the damaged mesh
				lo, _ := m.bounds()
				w := scenePlacedBy(j.s, fromVec(om.Min()).sub(lo))
				tol := int64(math.Ceil(math.Hypot(float64(d.x), float64(d.y)))) + 8
				for k, l := range ls {
					z := 100 + int64(k)*220
					if !sameRegion(t, "layer at "+data.Micrometer(z).String(), l.LayerParts(), w.below(z), tol) {
						return
					}
					t.Outcome(w.below(z).String(), d)
				}
			})
			c08Several(c)
			c08Walls(c)
			fins := []int64{300, 1000, 2500}
			c.Run("one facet missing", len(jobs)*len(fins), func(t *T, i int) {
				j := jobs[i/len(fins)]
				fin := fins[i%len(fins)]
				m := j.s.mesh()
				f := m[j.f]
				m = append(append(mesh{}, m[:j.f]...), m[j.f+1:]...)
				t.Key("%v diag %d facet %d missing, finish distance %d", j.s, j.s.diag, j.f, fin)
				o := baseOpts(func(o *data.Options) {
					o.Print.InitialLayerThickness = 50
					o.Print.LayerThickness = 130
					o.Slicing.FinishPolygonSnapDistance = data.Micrometer(fin)
				})
				ls, om, err := slice(&o, m)
				if err != nil {
					t.Fail("%v", err)
					return
				}
				lo, _ := m.bounds()
				off := fromVec(om.Min()).sub(lo)
				w := scenePlacedBy(j.s, off)
				for k := range f {
					f[k] = f[k].add(off)
				}
				for k, l := range ls {
					z := 50 + int64(k)*130
					// the gap at this height
					var pts []fpt
					for a := range f {
						for b := range f {
							if f[a].z < z && f[b].z >= z {
								q := float64(z-f[a].z) / float64(f[b].z-f[a].z)
								pts = append(pts, fpt{float64(f[a].x) + q*float64(f[b].x-f[a].x), float64(f[a].y) + q*float64(f[b].y-f[a].y)})
							}
						}
					}
					want := w.below(z)
					gap := 0.0
					if len(pts) == 2 {
						gap = math.Hypot(pts[0].x-pts[1].x, pts[0].y-pts[1].y)
						if math.Abs(gap-float64(fin)) < 4 {
							continue
						}
						if gap > float64(fin) {
							// this contour cannot be closed: it disappears, all the others stay
							lab, _ := want.components(true, false)
							mx, my := (pts[0].x+pts[1].x)/2, (pts[0].y+pts[1].y)/2
							hit := -1
							for c := range lab {
								if lab[c] < 0 {
									continue
								}
								x, y := c%w.g.nx(), c/w.g.nx()
								if mx > float64(w.g.xs[x])-5 && mx < float64(w.g.xs[x+1])+5 && my > float64(w.g.ys[y])-5 && my < float64(w.g.ys[y+1])+5 {
									hit = lab[c]
								}
							}
							cut := newCells(w.g)
							for c := range lab {
								cut.on[c] = want.on[c] && lab[c] != hit
							}
							want = cut
						}
					}
					if !sameRegion(t, "layer at "+data.Micrometer(z).String(), l.LayerParts(), want, 9) {
						t.Fail("gap %.0f", gap)
						return
					}
					t.Outcome(want.String(), int(gap))
				}
			})
		}})
}

func scenePlacedBy(s *scene, d v3) *scene {
	r := &scene{g: s.g.shift(d.x, d.y), diag: s.diag}
	for _, z := range s.zs {
		r.zs = append(r.zs, z+d.z)
	}
	for _, c := range s.slabs {
		r.slabs = append(r.slabs, cells{r.g, c.on})
	}
	return r
}
