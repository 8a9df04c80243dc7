package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"

	goslice "github.com/aligator/goslice"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/slicer"
)

// sameRegion compares layer parts with the expected cells: point by point on a lattice which
// hits each cell and the neighbourhood of each border (except closer than tol), and by the area.
func sameRegion(t *T, what string, parts []data.LayerPart, want cells, tol int64) bool {
	g := partsRegion(parts).scanner()
	offs := []int64{tol + 2, 3*tol + 50, 500}
	for _, p := range want.probes(offs) {
		if want.borderDist(p[0], p[1]) <= float64(tol) {
			continue
		}
		if a, b := g.has(p[0], p[1]), want.has(p[0], p[1]); a != b {
			t.Fail("%s: the point (%.0f,%.0f) is inside=%v, want %v; cells %v grid %v %v; parts %s", what, p[0], p[1], a, b, want, want.g.xs, want.g.ys, showParts(parts))
			return false
		}
	}
	per := 0.0
	for _, r := range want.outlines() {
		per += r.perimeter()
	}
	if a, b := partsArea(parts), want.area(); math.Abs(a-b) > per*float64(tol)+1 {
		t.Fail("%s: the area is %.0f, want %.0f; cells %v; parts %s", what, a, b, want, showParts(parts))
		return false
	}
	return true
}

func diffLine(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range la {
		if i >= len(lb) || la[i] != lb[i] {
			o := "(end)"
			if i < len(lb) {
				o = lb[i]
			}
			return fmt.Sprintf("line %d: %q instead of %q", i+1, o, la[i])
		}
	}
	return fmt.Sprintf("%d lines instead of %d", len(lb), len(la))
}

// polycube i of an nx*ny*nz block.
func polycube(nx, ny, nz int, mask int, size int64, zs []int64, diag int) *scene {
	g := uniGrid(nx, ny, size)
	s := newScene(g, zs...)
	s.diag = diag
	for k := 0; k < nz; k++ {
		s.slabs[k] = cellsFromMask(g, mask>>uint(k*nx*ny)&(1<<uint(nx*ny)-1))
	}
	return s
}

// edgeContact tells if two cubes touch only along an edge or at a corner (the mesh is no manifold then).
func (s *scene) edgeContact() bool {
	nx, ny, nz := s.g.nx(), s.g.ny(), len(s.slabs)
	for x := -1; x < nx; x++ {
		for y := -1; y < ny; y++ {
			for z := -1; z < nz; z++ {
				var c [8]bool
				for k := range c {
					c[k] = s.at(x+k&1, y+k>>1&1, z+k>>2&1)
				}
				// edges in x, y and z direction
				for _, q := range [][4]int{{0, 2, 4, 6}, {1, 3, 5, 7}, {0, 1, 4, 5}, {2, 3, 6, 7}, {0, 1, 2, 3}, {4, 5, 6, 7}} {
					if c[q[0]] == c[q[3]] && c[q[1]] == c[q[2]] && c[q[0]] != c[q[1]] {
						return true
					}
				}
				for k := 0; k < 4; k++ {
					if c[k] == c[7-k] {
						n := 0
						for i := range c {
							if c[i] == c[k] {
								n++
							}
						}
						if n == 2 {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func slice(o *data.Options, m data.Model) ([]data.PartitionedLayer, data.OptimizedModel, error) {
	om, err := optimize(o, m)
	if err != nil {
		return nil, nil, err
	}
	ls, err := slicer.NewSlicer(o).Slice(om)
	return ls, om, err
}

func init() {
	register(&Check{ID: "C05", Level: "exploration",
		Rule:   "one evaluation = one object sliced completely in at least two ways; distinct = different G-code",
		Assume: []string{"orthogonal objects, even sums of the bounds so that centring is exact"},
		Run: func(c *Ctx) {
			rich := []data.Options{
				baseOpts(),
				baseOpts(func(o *data.Options) {
					o.Print.Support.Enabled = true
					o.Print.BrimSkirt.BrimCount = 2
					o.Print.InfillZigZag = true
				}),
			}
			c.Run("the same model again", 255*len(rich), func(t *T, i int) {
				o := rich[i/255]
				s := polycube(2, 2, 2, i%255+1, 4000, []int64{0, 1000, 2000}, i&1)
				t.Key("2x2x2 mask %d options %d", i%255+1, i/255)
				a := runPipe(o, s.mesh())
				if a.err != nil {
					t.Fail("%v", a.err)
					return
				}
				for k := 0; k < 3; k++ {
					b := runPipe(o, s.mesh())
					if b.gcode != a.gcode {
						t.Fail("another run gives different G-code: %s", diffLine(a.gcode, b.gcode))
						return
					}
				}
				t.Outcome(a.gcode)
			})
			moves := []v3{{1000, 0, 0}, {0, -34000, 0}, {0, 0, 777}, {-250002, 99998, -1}, {2, 2, 31}, {-8, 6, -500000}}
			bigScenes(c, func(name string, n int, mk func(i int, o *data.Options) *scene) {
				c.Run("again: "+name, n, func(t *T, i int) {
					o := baseOpts()
					s := mk(i, &o)
					t.Key("%v", s)
					a, b := runPipe(o, s.mesh()), runPipe(o, s.mesh().shift(moves[i/2%len(moves)].mul(int64(i%2))))
					if a.gcode != b.gcode || (a.err == nil) != (b.err == nil) {
						t.Fail("the second run (moved or not) differs: %s", diffLine(a.gcode, b.gcode))
					}
					t.Outcome(a.gcode)
				})
			})
			c.Run("the model at another place", 255*len(moves), func(t *T, i int) {
				d := moves[i/255]
				s := polycube(2, 2, 2, i%255+1, 4000, []int64{0, 1000, 2000}, 0)
				t.Key("2x2x2 mask %d moved by %v", i%255+1, d)
				o := rich[1]
				a, b := runPipe(o, s.mesh()), runPipe(o, s.mesh().shift(d))
				if a.err != nil || b.err != nil {
					t.Fail("%v %v", a.err, b.err)
					return
				}
				if a.gcode != b.gcode {
					t.Fail("the G-code of the moved model differs: %s", diffLine(a.gcode, b.gcode))
				}
				t.Outcome(a.gcode)
			})
			// the first vertex of a facet has no meaning
			var base []*scene
			for m := 1; m < 256; m++ {
				s := polycube(2, 2, 2, m, 4000, []int64{0, 1000, 2000}, 0)
				if !s.edgeContact() {
					base = append(base, s)
				}
			}
			c.Run("other first vertices", len(base)*3, func(t *T, i int) {
				s := base[i/3]
				m := s.mesh()
				r := make(mesh, len(m))
				for k, f := range m {
					n := 0
					switch i % 3 {
					case 0:
						n = 1
					case 1:
						n = k % 3
					case 2:
						n = (k/2 + 2) % 3
					}
					r[k] = tri{f[n%3], f[(n+1)%3], f[(n+2)%3]}
				}
				t.Key("%v rotation %d", s, i%3)
				o := baseOpts()
				// the vertices of the contours must be the same, whichever vertex a facet starts with
				la, _, e1 := slice(&o, m)
				lb, _, e2 := slice(&o, r)
				if e1 != nil || e2 != nil {
					t.Fail("%v %v", e1, e2)
					return
				}
				for k := range la {
					if x, y := showParts(la[k].LayerParts()), showParts(lb[k].LayerParts()); x != y {
						t.Fail("layer %d is %s instead of %s", k, y, x)
						return
					}
				}
				t.Outcome(len(la), showParts(la[0].LayerParts()))
			})
			eachRound(c, "again: round shapes", len(rich), func(t *T, r ring, variant int) {
				var even ring
				for _, p := range r {
					even = append(even, pt{p.x &^ 1, p.y &^ 1})
				}
				o := rich[variant]
				o.Print.InfillPercent = 10
				m := turned(even, []int64{0, 500, 1100}, []int64{1000, 950, 700})
				a, b := runPipe(o, m), runPipe(o, m)
				if a.gcode != b.gcode || (a.err == nil) != (b.err == nil) {
					t.Fail("the second run differs: %s", diffLine(a.gcode, b.gcode))
				}
				near := false
				for i, p := range even {
					q := even[(i+1)%len(even)]
					near = near || (p.x-q.x)*(p.x-q.x)+(p.y-q.y)*(p.y-q.y) < 150*150
				}
				// (which vertices are melded may depend on their position)
				d := moves[len(r)%len(moves)]
				if b = runPipe(o, m.shift(d)); !near && (a.gcode != b.gcode || (a.err == nil) != (b.err == nil)) {
					t.Fail("the same model moved by %v differs: %s", d, diffLine(a.gcode, b.gcode))
				}
				t.Outcome(a.gcode)
			})
			c05Circumstances(c)
			c.Run("the file formats", 255, func(t *T, i int) {
				s := polycube(2, 2, 2, i+1, 4000, []int64{0, 1000, 2000}, 0)
				t.Key("2x2x2 mask %d", i+1)
				dir, err := os.MkdirTemp(os.Getenv("MC_SCRATCH"), "c05")
				if err != nil {
					t.Fail("%v", err)
					return
				}
				defer os.RemoveAll(dir)
				f := s.mesh().floats()
				var outs []string
				for k, b := range [][]byte{stlBinary(f, "model"), stlASCII(f, "model"), stlBinary(f, "solid model")} {
					p := filepath.Join(dir, fmt.Sprintf("%d.stl", k))
					if err := os.WriteFile(p, b, 0o644); err != nil {
						t.Fail("%v", err)
						return
					}
					o := baseOpts()
					o.GoSlice.InputFilePath = p
					gs := goslice.NewGoSlice(o)
					if err := gs.Process(); err != nil {
						t.Fail("format %d: %v", k, err)
						return
					}
					g, err := os.ReadFile(p + ".gcode")
					if err != nil {
						t.Fail("format %d: %v", k, err)
						return
					}
					outs = append(outs, string(g))
				}
				for k := range outs {
					if outs[k] != outs[0] {
						t.Fail("format %d differs: %s", k, diffLine(outs[0], outs[k]))
					}
				}
				p := runPipe(baseOpts(), s.mesh())
				if p.gcode != outs[0] {
					t.Fail("the file differs from the model in memory: %s", diffLine(p.gcode, outs[0]))
				}
				t.Outcome(outs[0])
			})
		}})

	register(&Check{ID: "C06", Level: "exploration",
		Rule:   "one evaluation = one object with one setting of the layer thicknesses; distinct = different layer counts and heights",
		Assume: []string{"orthogonal objects; heights in the G-code are rounded to 0.01 mm"},
		Run: func(c *Ctx) {
			inits := []int64{20, 50, 100, 199, 200, 201, 300, 333, 500, 1000}
			ts := []int64{50, 99, 100, 200, 201, 300, 700}
			tops := []int64{40, 199, 200, 201, 299, 399, 400, 401, 999, 1000, 1001, 1400, 1999}
			if c.Thorough() {
				inits, ts, tops = nil, nil, nil
				for v := int64(20); v <= 420; v += 16 {
					inits = append(inits, v)
				}
				for v := int64(40); v <= 440; v += 16 {
					ts = append(ts, v)
				}
				for v := int64(40); v <= 1240; v += 13 {
					tops = append(tops, v)
				}
			}
			c.Run("layers of a block", len(inits)*len(ts)*len(tops), func(t *T, i int) {
				in, th, top := inits[i%len(inits)], ts[i/len(inits)%len(ts)], tops[i/len(inits)/len(ts)]
				t.Key("initial %d thickness %d top %d", in, th, top)
				s := sceneOnGrid(&grid{xs: []int64{0, 5000}, ys: []int64{0, 4000}}, []int64{0, top}, "#")
				o := baseOpts(func(o *data.Options) {
					o.Print.InitialLayerThickness = data.Micrometer(in)
					o.Print.LayerThickness = data.Micrometer(th)
				})
				p := runPipe(o, s.mesh())
				if top < in {
					if p.err == nil {
						t.Fail("no error although the object is lower than the first layer")
					}
					t.Outcome("low")
					return
				}
				want := int((top-in)/th) + 1
				checkLayers(t, p, in, th, want, nil)
			})
			// objects of many layers, with a gap near the top or without
			c.Run("high objects", c.Pick(300, 1200)*3, func(t *T, i int) {
				n := i/3 + 1
				in, th := []int64{200, 350, 100}[i%3], []int64{200, 100, 250}[i%3]
				s := sceneOnGrid(&grid{xs: []int64{0, 3000}, ys: []int64{0, 2000}}, []int64{0, in + int64(n-1)*th + int64(i%5)*th/5}, "#")
				if n > 9 && i%2 == 1 {
					at := in + int64(n-1-n/3)*th + th/2
					s = sceneOnGrid(&grid{xs: []int64{0, 3000}, ys: []int64{0, 2000}}, []int64{0, at, at + 3*th, in + int64(n-1)*th + int64(i%5)*th/5}, "#", ".", "#")
				}
				t.Key("%v first layer %d thickness %d", s, in, th)
				o := baseOpts(func(o *data.Options) {
					o.Print.InitialLayerThickness, o.Print.LayerThickness = data.Micrometer(in), data.Micrometer(th)
					o.Print.InfillPercent = 0
					o.Print.BrimSkirt.SkirtCount = 0
				})
				checkLayers(t, runPipe(o, s.mesh()), in, th, n, s.placed(o.Printer.Center))
			})
			// stacks with empty heights between: all patterns of up to 5 slabs
			g := &grid{xs: []int64{0, 5000, 9000}, ys: []int64{0, 4000}}
			lift := []int64{0, 1, 150, 200, 450}
			c.Run("stacks above the plate", 1023*len(lift), func(t *T, i int) {
				s := newScene(g, 0, 310, 600, 990, 1060, 1450)
				for k := range s.slabs {
					s.slabs[k] = cellsFromMask(g, ((i%1023)+1)>>uint(2*k)&3)
				}
				cz := lift[i/1023]
				t.Key("%v base %d", s, cz)
				o := baseOpts(func(o *data.Options) {
					o.Print.InitialLayerThickness = 150
					o.Print.LayerThickness = 110
					o.Printer.Center = data.NewMicroVec3(10000, 10000, data.Micrometer(cz))
				})
				w := s.placed(o.Printer.Center)
				p := runPipe(o, s.mesh())
				n := int((w.top()-150)/110) + 1
				if w.top() < 150 {
					n = 0
					if p.err == nil {
						t.Fail("no error although the object is lower than the first layer")
					}
					return
				}
				checkLayers(t, p, 150, 110, n, w)
			})
		}})
}

// checkLayers checks the number, the order and the heights of the layers.
func checkLayers(t *T, p *pipe, in, th int64, want int, w *scene) {
	if p.err != nil {
		t.Fail("%v", p.err)
		return
	}
	if len(p.sliced) != want || len(p.layers) != want {
		t.Fail("%d layers, want %d", len(p.sliced), want)
		return
	}
	pr := parseGCode(p.gcode)
	pr.check(t)
	if len(pr.layers) != want {
		t.Fail("the G-code has %d layers, want %d", len(pr.layers), want)
		return
	}
	for k, l := range pr.layers {
		if l != k {
			t.Fail("layer %d of the G-code is called %d", k, l)
			return
		}
	}
	seen := make([]bool, want)
	for _, m := range pr.moves {
		if m.custom || m.layer < 0 {
			continue
		}
		z := in + int64(m.layer)*th
		if m.extrudes() {
			seen[m.layer] = true
			if abs64(m.z0-z) > 5 || abs64(m.z1-z) > 5 {
				t.Fail("line %d: layer %d prints at %d to %d, want %d", m.line, m.layer, m.z0, m.z1, z)
				return
			}
		}
	}
	for k := range seen {
		full := true
		if w != nil {
			full = !w.below(in + int64(k)*th).empty()
		}
		if seen[k] != full {
			t.Fail("layer %d is printed: %v, want %v", k, seen[k], full)
			return
		}
	}
	t.Outcome(want, in, th, seen)
	t.Sample(map[string]interface{}{"layers": want, "first": in, "thickness": th})
}
