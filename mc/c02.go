package main

import (
	"fmt"

	"github.com/aligator/goslice/data"
)

// optVar is a named change of the options.
type optVar struct {
	name string
	f    func(o *data.Options)
}

func applyVars(o *data.Options, vs ...optVar) string {
	n := ""
	for _, v := range vs {
		v.f(o)
		if n != "" {
			n += ", "
		}
		n += v.name
	}
	return n
}

func noVar() optVar { return optVar{"defaults", func(o *data.Options) {}} }

// edgeVars are unusual but meaningful values of single options: zero counts, extremes, odd sizes.
func edgeVars() []optVar {
	return []optVar{
		noVar(),
		{"insets 0", func(o *data.Options) { o.Print.InsetCount = 0 }},
		{"insets 1", func(o *data.Options) { o.Print.InsetCount = 1 }},
		{"insets 9", func(o *data.Options) { o.Print.InsetCount = 9 }},
		{"infill 0", func(o *data.Options) { o.Print.InfillPercent = 0 }},
		{"infill 1", func(o *data.Options) { o.Print.InfillPercent = 1 }},
		{"infill 100", func(o *data.Options) { o.Print.InfillPercent = 100 }},
		{"bottom 0", func(o *data.Options) { o.Print.NumberBottomLayers = 0 }},
		{"bottom 50", func(o *data.Options) { o.Print.NumberBottomLayers = 50 }},
		{"top 0", func(o *data.Options) { o.Print.NumberTopLayers = 0 }},
		{"top 50", func(o *data.Options) { o.Print.NumberTopLayers = 50 }},
		{"overlap 0", func(o *data.Options) { o.Print.InfillOverlapPercent = 0 }},
		{"overlap 100", func(o *data.Options) { o.Print.InfillOverlapPercent = 100 }},
		{"additional overlap 0", func(o *data.Options) { o.Print.AdditionalInternalInfillOverlapPercent = 0 }},
		{"zigzag", func(o *data.Options) { o.Print.InfillZigZag = true }},
		{"rotation 0", func(o *data.Options) { o.Print.InfillRotationDegree = 0 }},
		{"rotation 400", func(o *data.Options) { o.Print.InfillRotationDegree = 400 }},
		{"rotation -30", func(o *data.Options) { o.Print.InfillRotationDegree = -30 }},
		{"support", func(o *data.Options) { o.Print.Support.Enabled = true }},
		{"support gap 0 layers 0", func(o *data.Options) {
			o.Print.Support.Enabled = true
			o.Print.Support.Gap = 0
			o.Print.Support.TopGapLayers = 0
			o.Print.Support.InterfaceLayers = 0
		}},
		{"support interface 99 gap 99", func(o *data.Options) {
			o.Print.Support.Enabled = true
			o.Print.Support.InterfaceLayers = 99
			o.Print.Support.TopGapLayers = 99
		}},
		{"support angle 0", func(o *data.Options) { o.Print.Support.Enabled = true; o.Print.Support.ThresholdAngle = 0 }},
		{"support angle 89", func(o *data.Options) { o.Print.Support.Enabled = true; o.Print.Support.ThresholdAngle = 89 }},
		{"support angle 90", func(o *data.Options) { o.Print.Support.Enabled = true; o.Print.Support.ThresholdAngle = 90 }},
		{"skirt 0", func(o *data.Options) { o.Print.BrimSkirt.SkirtCount = 0 }},
		{"skirt distance 0", func(o *data.Options) { o.Print.BrimSkirt.SkirtDistance = 0 }},
		{"brim 3", func(o *data.Options) { o.Print.BrimSkirt.BrimCount = 3 }},
		{"retraction 0", func(o *data.Options) { o.Filament.RetractionLength = 0; o.Filament.RetractionSpeed = 0 }},
		{"z hop", func(o *data.Options) { o.Filament.RetractionZHop = 0.5 }},
		{"multiplier 0", func(o *data.Options) { o.Filament.ExtrusionMultiplier = 0 }},
		{"temperature layers 0", func(o *data.Options) { o.Filament.InitialTemperatureLayerCount = 0 }},
		{"no fan", func(o *data.Options) { o.Filament.FanSpeed.LayerToSpeedLUT = nil }},
		{"thick 1000", func(o *data.Options) { o.Print.LayerThickness = 1000; o.Printer.ExtrusionWidth = 1200 }},
		{"thin 37", func(o *data.Options) { o.Print.LayerThickness = 137; o.Print.InitialLayerThickness = 251 }},
		{"initial 1", func(o *data.Options) { o.Print.InitialLayerThickness = 1 }},
		{"width 333", func(o *data.Options) { o.Printer.ExtrusionWidth = 333 }},
		{"width 3000", func(o *data.Options) { o.Printer.ExtrusionWidth = 3000 }},
		{"empty hunks", func(o *data.Options) {
			o.Printer.StartGCode = data.NewGCodeHunk(nil)
			o.Printer.EndGCode = data.NewGCodeHunk(nil)
		}},
		{"blank hunk lines", func(o *data.Options) {
			o.Printer.StartGCode = data.NewGCodeHunk([]string{"", " ", "G28"})
			o.Printer.EndGCode = data.NewGCodeHunk([]string{"", "M84"})
		}},
		{"center z 1mm", func(o *data.Options) { o.Printer.Center = data.NewMicroVec3(100000, 100000, 1000) }},
		{"center negative", func(o *data.Options) { o.Printer.Center = data.NewMicroVec3(-50001, -7, 0) }},
		{"snap 0", func(o *data.Options) {
			o.Slicing.JoinPolygonSnapDistance = 0
			o.Slicing.FinishPolygonSnapDistance = 0
		}},
		{"meld 1", func(o *data.Options) { o.Slicing.MeldDistance = 1 }},
	}
}

// robust runs the whole program; any end but an error or well formed G-code fails the case.
func robust(t *T, o data.Options, m data.Model, mustSlice bool) *pipe {
	p := runPipe(o, m)
	if p.err != nil {
		if mustSlice {
			t.Fail("the model is refused: %v", p.err)
		}
		t.Outcome("error", p.err)
		return p
	}
	g := parseGCode(p.gcode)
	g.check(t)
	if len(g.layers) != len(p.layers) {
		t.Fail("%d layers were sliced, the G-code announces %d", len(p.layers), len(g.layers))
	}
	ext := 0
	lim := int64(1e7)
	for _, mv := range g.moves {
		if abs64(mv.x1) > lim || abs64(mv.y1) > lim || abs64(mv.z1) > lim {
			t.Fail("line %d moves to %d %d %d", mv.line, mv.x1, mv.y1, mv.z1)
			break
		}
		if mv.extrudes() {
			ext++
		}
	}
	t.Outcome(len(p.layers), len(g.moves), ext, len(p.gcode))
	return p
}

func init() {
	register(&Check{ID: "C02", Level: "exploration",
		Rule:   "one evaluation = one model and one set of options through the whole program; distinct = different layer, move and extrusion counts or errors",
		Assume: []string{"a case that takes longer than 150 s counts as a hang"},
		Run: func(c *Ctx) {
			// all sets of triangles over the corners of a cube
			var corners []v3
			for i := int64(0); i < 8; i++ {
				corners = append(corners, v3{(i & 1) * 3000, (i >> 1 & 1) * 3000, (i >> 2 & 1) * 1500})
			}
			var tris []tri
			for a := 0; a < 8; a++ {
				for b := a + 1; b < 8; b++ {
					for d := b + 1; d < 8; d++ {
						tris = append(tris, tri{corners[a], corners[b], corners[d]})
					}
				}
			}
			c.Run("sets of up to two triangles", 1+len(tris)*(len(tris)+1)/2, func(t *T, i int) {
				var m mesh
				if i > 0 {
					k := i - 1
					a := 0
					for k > a {
						k -= a + 1
						a++
					}
					m = mesh{tris[a]}
					if k != a {
						m = append(m, tris[k])
					}
				}
				t.Key("%v", m)
				robust(t, baseOpts(func(o *data.Options) { o.Print.Support.Enabled = i%2 == 0; o.Print.BrimSkirt.BrimCount = i % 3 }), m, false)
				t.Sample(m)
			})
			n3 := 0
			var trip [][3]int
			for a := 0; a < len(tris); a++ {
				for b := a + 1; b < len(tris); b++ {
					for d := b + 1; d < len(tris); d++ {
						n3++
						if c.Thorough() || n3%11 == 0 {
							trip = append(trip, [3]int{a, b, d})
						}
					}
				}
			}
			c.Run("sets of three triangles", len(trip), func(t *T, i int) {
				m := mesh{tris[trip[i][0]], tris[trip[i][1]], tris[trip[i][2]]}
				if i%2 == 1 { // the other winding
					for k := range m {
						m[k][0], m[k][1] = m[k][1], m[k][0]
					}
				}
				t.Key("%v", m)
				robust(t, baseOpts(), m, false)
			})

			// all stacks of cells, with gaps and floating pieces
			nz := c.Pick(2, 3)
			stackVars := []optVar{noVar(), {"support, brim, zigzag", func(o *data.Options) {
				o.Print.Support.Enabled = true
				o.Print.BrimSkirt.BrimCount = 2
				o.Print.InfillZigZag = true
			}}}
			c.Run("stacks of 2x2 cells with a hole in the height", (1<<uint(4*nz)-1)*len(stackVars), func(t *T, i int) {
				v := stackVars[i%len(stackVars)]
				mask := i/len(stackVars) + 1
				g := &grid{xs: []int64{0, 3000, 7001}, ys: []int64{0, 2500, 6000}}
				// an empty slab between the lowest one and the rest
				zs := []int64{0, 800, 1400, 2000, 2900}[:nz+2]
				s := newScene(g, zs...)
				for k := 0; k < nz; k++ {
					z := k
					if k > 0 {
						z++
					}
					for j := 0; j < 4; j++ {
						s.slabs[z].on[j] = mask>>uint(k*4+j)&1 == 1
					}
				}
				t.Key("%s %v", v.name, s)
				o := baseOpts()
				applyVars(&o, v)
				robust(t, o, s.mesh(), true)
			})

			// all pairs of unusual options
			scenes := []*scene{
				sceneFromRows(4000, []int64{0, 600, 1300, 2000}, "##/#.", "##/##", "../##"),
				sceneFromRows(2000, []int64{0, 900, 1700, 2500}, "###/#.#/###", ".../.../...", "###/#.#/###"),
			}
			ev := edgeVars()
			type pr struct{ a, b int }
			var prs []pr
			for a := range ev {
				for b := a; b < len(ev); b++ {
					if a == 0 || b > a {
						prs = append(prs, pr{a, b})
					}
				}
			}
			c.Run("pairs of unusual options", len(prs)*len(scenes), func(t *T, i int) {
				s := scenes[i%len(scenes)]
				q := prs[i/len(scenes)]
				o := baseOpts()
				n := applyVars(&o, ev[q.a], ev[q.b])
				t.Key("%s; scene %d", n, i%len(scenes))
				robust(t, o, s.mesh(), true)
				t.Sample(n)
			})

			// values out of any sensible range: an error or well formed G-code
			type set = func(o *data.Options, v int)
			bad := []struct {
				name string
				vals []int
				set  set
			}{
				{"meld distance", []int{0, -1, -30}, func(o *data.Options, v int) { o.Slicing.MeldDistance = data.Micrometer(v) }},
				{"join distance", []int{-1}, func(o *data.Options, v int) { o.Slicing.JoinPolygonSnapDistance = data.Micrometer(v) }},
				{"finish distance", []int{-1}, func(o *data.Options, v int) { o.Slicing.FinishPolygonSnapDistance = data.Micrometer(v) }},
				{"layer thickness", []int{0, -1, -200}, func(o *data.Options, v int) { o.Print.LayerThickness = data.Micrometer(v) }},
				{"initial layer thickness", []int{0, -1, -200, -500}, func(o *data.Options, v int) { o.Print.InitialLayerThickness = data.Micrometer(v) }},
				{"extrusion width", []int{0, -1, -400, 9999, 10000, 10001, 25000}, func(o *data.Options, v int) { o.Printer.ExtrusionWidth = data.Micrometer(v) }},
				{"insets", []int{-1, 40}, func(o *data.Options, v int) { o.Print.InsetCount = v }},
				{"infill", []int{-1, -100, 101, 250, 1000000, 1000000000}, func(o *data.Options, v int) { o.Print.InfillPercent = v }},
				{"overlap", []int{-1, -100, 101, 200, 400}, func(o *data.Options, v int) { o.Print.InfillOverlapPercent = v }},
				{"additional overlap", []int{-1, -100, 101, 500}, func(o *data.Options, v int) { o.Print.AdditionalInternalInfillOverlapPercent = v }},
				{"bottom layers", []int{-1, 1000000000}, func(o *data.Options, v int) { o.Print.NumberBottomLayers = v }},
				{"top layers", []int{-1, 1000000000}, func(o *data.Options, v int) { o.Print.NumberTopLayers = v }},
				{"infill rotation", []int{-1, 90, 360, 1000000007}, func(o *data.Options, v int) { o.Print.InfillRotationDegree = v }},
				{"support angle", []int{-90, -1, 90, 91, 180, 270}, func(o *data.Options, v int) { o.Print.Support.ThresholdAngle = v }},
				{"support spacing", []int{0, -1, -20}, func(o *data.Options, v int) { o.Print.Support.PatternSpacing = data.Millimeter(v) }},
				{"support gap", []int{-1, 50}, func(o *data.Options, v int) { o.Print.Support.Gap = data.Millimeter(v) }},
				{"interface layers", []int{-1, -2, -100, 1000000000}, func(o *data.Options, v int) { o.Print.Support.InterfaceLayers = v }},
				{"skirts", []int{-1}, func(o *data.Options, v int) { o.Print.BrimSkirt.SkirtCount = v }},
				{"skirt distance", []int{-1, -30}, func(o *data.Options, v int) { o.Print.BrimSkirt.SkirtDistance = data.Millimeter(v) }},
				{"brims", []int{-1}, func(o *data.Options, v int) { o.Print.BrimSkirt.BrimCount = v }},
				{"filament diameter", []int{0, -1, -1750}, func(o *data.Options, v int) { o.Filament.FilamentDiameter = data.Micrometer(v) }},
				{"multiplier", []int{-1, -100, 100000}, func(o *data.Options, v int) { o.Filament.ExtrusionMultiplier = v }},
				{"temperature layers", []int{-1, 1000000000}, func(o *data.Options, v int) { o.Filament.InitialTemperatureLayerCount = v }},
				{"retraction length", []int{-1}, func(o *data.Options, v int) { o.Filament.RetractionLength = data.Millimeter(v) }},
				{"retraction speed", []int{-1}, func(o *data.Options, v int) { o.Filament.RetractionSpeed = data.Millimeter(v) }},
				{"hop", []int{-1}, func(o *data.Options, v int) { o.Filament.RetractionZHop = data.Millimeter(v) }},
			}
			type badCase struct{ k, v int }
			var bads []badCase
			for k, b := range bad {
				for _, v := range b.vals {
					bads = append(bads, badCase{k, v})
				}
			}
			badVars := []optVar{noVar(),
				{"support", func(o *data.Options) { o.Print.Support.Enabled = true }},
				{"support, brim, zigzag", func(o *data.Options) {
					o.Print.Support.Enabled = true
					o.Print.BrimSkirt.BrimCount = 2
					o.Print.InfillZigZag = true
				}},
				{"insets 0", func(o *data.Options) { o.Print.InsetCount = 0; o.Print.Support.Enabled = true }},
			}
			wide := sceneFromRows(40000, []int64{0, 600, 1300, 2000}, "#.", "#.", "##")
			c.Run("options out of range", len(bads)*len(badVars)*(len(scenes)+1), func(t *T, i int) {
				v := badVars[i%len(badVars)]
				b := bads[i/len(badVars)%len(bads)]
				s := append(scenes[:len(scenes):len(scenes)], wide)[i/len(badVars)/len(bads)]
				o := baseOpts()
				applyVars(&o, v)
				bad[b.k].set(&o, b.v)
				t.Key("%s %d; %s; scene %d", bad[b.k].name, b.v, v.name, i/len(badVars)/len(bads))
				robust(t, o, s.mesh(), false)
			})

			// support below an overhang which begins just below the top or just above the plate
			gapsN, ifaces, froms, lens := 3, []int{0, 1, 2, 3, 4, 7}, 4, 4
			if c.Thorough() {
				gapsN, ifaces, froms, lens = 5, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12}, 6, 6
			}
			c.Run("support near the top and the plate", gapsN*len(ifaces)*froms*lens*2, func(t *T, i int) {
				gap, k := i%gapsN, i/gapsN
				iface := ifaces[k%len(ifaces)]
				k /= len(ifaces)
				from, n := int64(k%froms+1), int64(k/froms%lens+1)
				brim := k / froms / lens * 2
				s := sceneFromRows(3000, []int64{0, 200 * from, 200 * (from + n)}, "#.", "##")
				t.Key("top gap %d interface %d overhang from layer %d for %d layers brim %d", gap, iface, from, n, brim)
				robust(t, baseOpts(func(o *data.Options) {
					o.Print.Support.Enabled = true
					o.Print.Support.TopGapLayers = gap
					o.Print.Support.InterfaceLayers = iface
					o.Print.BrimSkirt.BrimCount = brim
				}), s.mesh(), true)
			})

			// all heights around the first layers
			hs := c.Pick(700, 2500)
			inits := []int64{1, 100, 200, 300}
			thick := []int64{100, 200, 333}
			c.Run("heights of a plate", hs*len(inits)*len(thick), func(t *T, i int) {
				in, th := inits[i%len(inits)], thick[i/len(inits)%len(thick)]
				h := int64(i/len(inits)/len(thick) + 1)
				s := sceneFromRows(2500, []int64{0, h}, "#")
				t.Key("height %d initial %d layer %d", h, in, th)
				p := robust(t, baseOpts(func(o *data.Options) {
					o.Print.InitialLayerThickness = data.Micrometer(in)
					o.Print.LayerThickness = data.Micrometer(th)
				}), s.mesh(), h >= in)
				if p.err == nil && h < in {
					for _, l := range p.layers {
						if len(l.LayerParts()) > 0 {
							t.Fail("a model lower than the first layer gets material")
						}
					}
				}
			})
			// heights of the base above or below the plate
			bz := []int64{-3000, -1999, -1000, -200, -1, 1, 100, 199, 200, 201, 1000, 5000}
			c.Run("base above or below the plate", len(bz)*len(scenes)*3, func(t *T, i int) {
				s := scenes[i%len(scenes)]
				z := bz[i/len(scenes)%len(bz)]
				v := []optVar{noVar(), {"support", func(o *data.Options) { o.Print.Support.Enabled = true }}, {"brim", func(o *data.Options) { o.Print.BrimSkirt.BrimCount = 2 }}}[i/len(scenes)/len(bz)]
				o := baseOpts(func(o *data.Options) { o.Printer.Center = data.NewMicroVec3(100000, 100000, data.Micrometer(z)) })
				applyVars(&o, v)
				t.Key("z %d %s scene %d", z, v.name, i%len(scenes))
				robust(t, o, s.mesh(), s.top()+z >= int64(o.Print.InitialLayerThickness))
			})
			// sloped bodies, with corners, ridges and floors exactly on the height of a layer
			tets := allTets(2500, 3001, 400)
			tetVars := []optVar{noVar(), {"support, brim", func(o *data.Options) {
				o.Print.Support.Enabled = true
				o.Print.BrimSkirt.BrimCount = 2
			}}, {"zigzag, three insets", func(o *data.Options) {
				o.Print.InfillZigZag = true
				o.Print.InsetCount = 3
			}}}
			tstep := c.Pick(3, 1)
			c.Run("tetrahedra", (len(tets)+tstep-1)/tstep*len(tetVars), func(t *T, i int) {
				v := tetVars[i%len(tetVars)]
				// the quick tier runs every tetrahedron with one of the sets of options
				k := i/len(tetVars)*tstep + i%len(tetVars)%tstep
				if k >= len(tets) {
					return
				}
				t.Key("%v %s", tets[k], v.name)
				o := baseOpts()
				applyVars(&o, v)
				robust(t, o, tetraMesh(tets[k]).rotate(k%3), true)
			})
			// needles, slivers and tiny bodies
			sizes := []int64{1, 2, 5, 29, 30, 31, 100, 399, 400, 401, 800, 801, 1000, 3000}
			c.Run("boxes of all small sizes", len(sizes)*len(sizes), func(t *T, i int) {
				w, d := sizes[i%len(sizes)], sizes[i/len(sizes)]
				s := sceneOnGrid(&grid{xs: []int64{0, w}, ys: []int64{0, d}}, []int64{0, 1000}, "#")
				t.Key("%d x %d", w, d)
				robust(t, baseOpts(func(o *data.Options) { o.Print.BrimSkirt.BrimCount = 2; o.Print.Support.Enabled = true }), s.mesh(), false)
			})
			slopes(c, func(name string, n int, mk func(i int) shape) {
				c.Run("unusual options of "+name, n*3, func(t *T, i int) {
					v := ev[(i%3*len(ev)/3+i/3)%len(ev)]
					s := mk(i / 3)
					o := baseOpts()
					n := applyVars(&o, v)
					t.Key("%s; %s", s.name, n)
					robust(t, o, s.m, true)
				})
			})
			c.Extra("unusual options", fmt.Sprint(len(ev)))
		}})
}
