package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/aligator/goslice/data"
)

// ---- C28: vectors, paths and units are exact values ----

// regs is the state of the reference machine: registers which hold values, never references.
type regs [2][3]int64

// vecOp is one operation of the machine; three-dimensional and two-dimensional form.
type vecOp struct {
	name string
	ref  func(r *regs)
	vec  func(r *[2]data.MicroVec3)
	pnt  func(r *[2]data.MicroPoint)
}

func vecOps() []vecOp {
	var ops []vecOp
	for d := 0; d < 2; d++ {
		d := d
		for a := 0; a < 2; a++ {
			d, a := d, a
			for b := 0; b < 2; b++ {
				b := b
				if a == 1 && b == 0 && d == 1 {
					continue
				}
				ops = append(ops,
					vecOp{fmt.Sprintf("r%d=r%d+r%d", d, a, b), func(r *regs) {
						x, y := r[a], r[b]
						for k := range r[d] {
							r[d][k] = x[k] + y[k]
						}
					}, func(r *[2]data.MicroVec3) { r[d] = r[a].Add(r[b]) }, func(r *[2]data.MicroPoint) { r[d] = r[a].Add(r[b]) }},
					vecOp{fmt.Sprintf("r%d=r%d-r%d", d, a, b), func(r *regs) {
						x, y := r[a], r[b]
						for k := range r[d] {
							r[d][k] = x[k] - y[k]
						}
					}, func(r *[2]data.MicroVec3) { r[d] = r[a].Sub(r[b]) }, func(r *[2]data.MicroPoint) { r[d] = r[a].Sub(r[b]) }})
			}
			for _, f := range []int64{-3, 2} {
				f := f
				ops = append(ops, vecOp{fmt.Sprintf("r%d=r%d*%d", d, a, f), func(r *regs) {
					for k := range r[d] {
						r[d][k] = r[a][k] * f
					}
				}, func(r *[2]data.MicroVec3) { r[d] = r[a].Mul(data.Micrometer(f)) }, func(r *[2]data.MicroPoint) { r[d] = r[a].Mul(data.Micrometer(f)) }})
			}
			for _, f := range []int64{2, -3} {
				f := f
				ops = append(ops, vecOp{fmt.Sprintf("r%d=r%d/%d", d, a, f), func(r *regs) {
					for k := range r[d] {
						r[d][k] = r[a][k] / f
					}
				}, func(r *[2]data.MicroVec3) { r[d] = r[a].Div(data.Micrometer(f)) }, func(r *[2]data.MicroPoint) { r[d] = r[a].Div(data.Micrometer(f)) }})
			}
			if a != d {
				ops = append(ops, vecOp{fmt.Sprintf("r%d=copy r%d", d, a), func(r *regs) { r[d] = r[a] },
					func(r *[2]data.MicroVec3) { r[d] = r[a].Copy() }, func(r *[2]data.MicroPoint) { r[d] = r[a].Copy() }})
			}
		}
		ops = append(ops, vecOp{fmt.Sprintf("r%d.x=7", d), func(r *regs) { r[d][0] = 7 },
			func(r *[2]data.MicroVec3) { r[d].SetX(7) }, func(r *[2]data.MicroPoint) { r[d].SetX(7) }})
		ops = append(ops, vecOp{fmt.Sprintf("r%d.y=-5", d), func(r *regs) { r[d][1] = -5 },
			func(r *[2]data.MicroVec3) { r[d].SetY(-5) }, func(r *[2]data.MicroPoint) { r[d].SetY(-5) }})
		ops = append(ops, vecOp{fmt.Sprintf("r%d.z=9", d), func(r *regs) { r[d][2] = 9 },
			func(r *[2]data.MicroVec3) { r[d].SetZ(9) }, func(r *[2]data.MicroPoint) {}})
		ops = append(ops, vecOp{fmt.Sprintf("r%d turned by 90", d), func(r *regs) { r[d] = [3]int64{-r[d][1], r[d][0], r[d][2]} },
			func(r *[2]data.MicroVec3) {
				p := r[d].PointXY()
				q := p.Rotate(90)
				p.SetX(123456)
				r[d] = data.NewMicroVec3(q.X(), q.Y(), r[d].Z())
			}, func(r *[2]data.MicroPoint) { r[d] = r[d].Rotate(90) }})
	}
	return ops
}

func bigSquareSum(v ...int64) *big.Int {
	s := new(big.Int)
	for _, x := range v {
		b := big.NewInt(x)
		s.Add(s, b.Mul(b, b))
	}
	return s
}

// lengthIs tells if got is the integer part of the length of the vector (or the one next to it).
func lengthIs(got int64, v ...int64) bool {
	if got < 0 {
		return false
	}
	s := bigSquareSum(v...)
	return bigSquareSum(got).Cmp(new(big.Int).Add(s, new(big.Int).Rsh(s, 50))) <= 0 && bigSquareSum(got+1).Cmp(s) > 0
}

func init() {
	register(&Check{ID: "C28", Level: "model_checking",
		Rule: "one evaluation = one start value with all operation sequences of the stated depth, one vector with all others of a lattice, one set of points or one range of lengths; " +
			"a state = one pair of register values, a transition = one operation",
		Assume: []string{"lengths of less than about 1 m, so that squares fit into 64 bits"},
		Run: func(c *Ctx) {
			ops := vecOps()
			starts := []regs{
				{{0, 0, 0}, {1, -1, 2}}, {{5, -7, 11}, {-2, 3, -9}}, {{100000, 250001, -3}, {-99999, 4, 200000}}, {{-1, -1, -1}, {-1, 1, 1}},
			}
			depth := c.Pick(4, 5)
			c.Run("operation sequences", len(starts)*len(ops), func(t *T, i int) {
				start := starts[i/len(ops)]
				first := i % len(ops)
				t.Key("start %v first %s", start, ops[first].name)
				states := map[regs]struct{}{}
				trans, traces := 0, 0
				var seq []int
				// replay runs the sequence on fresh objects and compares all registers at the end and all
				// registers which are not written after each step.
				replay := func() bool {
					ref := start
					var v [2]data.MicroVec3
					var p [2]data.MicroPoint
					for k := range start {
						v[k] = data.NewMicroVec3(data.Micrometer(start[k][0]), data.Micrometer(start[k][1]), data.Micrometer(start[k][2]))
						p[k] = data.NewMicroPoint(data.Micrometer(start[k][0]), data.Micrometer(start[k][1]))
					}
					for n, o := range seq {
						was := v
						wasP := p
						before := ref
						ops[o].ref(&ref)
						ops[o].vec(&v)
						ops[o].pnt(&p)
						trans++
						for k := range ref {
							if int64(v[k].X()) != ref[k][0] || int64(v[k].Y()) != ref[k][1] || int64(v[k].Z()) != ref[k][2] {
								t.Fail("start %v, %s: vector %d is (%d, %d, %d) instead of %v", start, opNames(ops, seq[:n+1]), k, v[k].X(), v[k].Y(), v[k].Z(), ref[k])
								return false
							}
							if int64(p[k].X()) != ref[k][0] || int64(p[k].Y()) != ref[k][1] {
								t.Fail("start %v, %s: point %d is (%d, %d) instead of %v", start, opNames(ops, seq[:n+1]), k, p[k].X(), p[k].Y(), ref[k])
								return false
							}
							// an object whose register has been replaced keeps its value
							if was[k] != v[k] && (int64(was[k].X()) != before[k][0] || int64(was[k].Y()) != before[k][1] || int64(was[k].Z()) != before[k][2]) {
								t.Fail("start %v, %s: the last operation changed its operand to (%d, %d, %d)", start, opNames(ops, seq[:n+1]), was[k].X(), was[k].Y(), was[k].Z())
								return false
							}
							if wasP[k] != p[k] && (int64(wasP[k].X()) != before[k][0] || int64(wasP[k].Y()) != before[k][1]) {
								t.Fail("start %v, %s: the last operation changed its operand to (%d, %d)", start, opNames(ops, seq[:n+1]), wasP[k].X(), wasP[k].Y())
								return false
							}
						}
					}
					states[ref] = struct{}{}
					traces++
					return true
				}
				idx := make([]int, depth)
				idx[0] = first
				seq = idx
				for {
					if !replay() {
						return
					}
					k := depth - 1
					for k > 0 && idx[k] == len(ops)-1 {
						idx[k] = 0
						k--
					}
					if k == 0 {
						break
					}
					idx[k]++
				}
				t.States(len(states), trans)
				t.Traces(traces)
				t.Outcome(len(states))
				t.Sample(map[string]interface{}{"start": start, "last sequence": opNames(ops, seq), "sequences": traces})
			})

			vals := []int64{-200000, -70001, -1000, -3, -1, 0, 1, 2, 4, 999, 12000, 70000, 140000, 300000}
			if c.Thorough() {
				vals = append(vals, -450000, -5, -2, 3, 5, 12, 13, 60000, 80000, 100000, 450000)
			}
			c.Run("lengths of vectors", len(vals)*len(vals), func(t *T, i int) {
				x, y := vals[i%len(vals)], vals[i/len(vals)]
				t.Key("%d %d", x, y)
				p := data.NewMicroPoint(data.Micrometer(x), data.Micrometer(y))
				if !lengthIs(int64(p.Size()), x, y) {
					t.Fail("the length of (%d, %d) is said to be %d", x, y, p.Size())
				}
				if int64(p.Size2()) != x*x+y*y {
					t.Fail("the squared length of (%d, %d) is said to be %d", x, y, p.Size2())
				}
				if mm, want := float64(p.SizeMM()), math.Hypot(float64(x), float64(y))/1000; math.Abs(mm-want) > 1e-6*want {
					t.Fail("the length of (%d, %d) is said to be %g mm", x, y, mm)
				}
				n := 0
				for _, z := range vals {
					v := data.NewMicroVec3(data.Micrometer(x), data.Micrometer(y), data.Micrometer(z))
					if !lengthIs(int64(v.Size()), x, y, z) {
						t.Fail("the length of (%d, %d, %d) is said to be %d", x, y, z, v.Size())
					}
					if int64(v.Size2()) != x*x+y*y+z*z {
						t.Fail("the squared length of (%d, %d, %d) is said to be %d", x, y, z, v.Size2())
					}
					if int64(v.Max()) != max(x, y, z) {
						t.Fail("the largest coordinate of (%d, %d, %d) is said to be %d", x, y, z, v.Max())
					}
					l := int64(math.Sqrt(float64(x*x + y*y + z*z)))
					l2 := int64(math.Sqrt(float64(x*x + y*y)))
					for _, d := range []int64{0, 1, 2, 1000, 500000, l - 1, l, l + 1, l2 - 1, l2, l2 + 1, abs64(x), abs64(y), abs64(z)} {
						if d < 0 {
							continue
						}
						if v.ShorterThanOrEqual(data.Micrometer(d)) != (x*x+y*y+z*z <= d*d) {
							t.Fail("(%d, %d, %d) is said to be shorter than %d: %v", x, y, z, d, !(x*x+y*y+z*z <= d*d))
						}
						if p.ShorterThanOrEqual(data.Micrometer(d)) != (x*x+y*y <= d*d) {
							t.Fail("(%d, %d) is said to be shorter than %d: %v", x, y, d, !(x*x+y*y <= d*d))
						}
						n++
					}
					// points and vectors are independent of each other
					q := v.PointXY()
					q.SetX(77)
					q.SetY(78)
					if int64(v.X()) != x || int64(v.Y()) != y || int64(v.Z()) != z {
						t.Fail("a change of the projection of (%d, %d, %d) changed the vector", x, y, z)
					}
				}
				for _, z := range vals {
					if int64(data.Max(data.Micrometer(x), data.Micrometer(z))) != max(x, z) || int64(data.Min(data.Micrometer(x), data.Micrometer(z))) != min(x, z) {
						t.Fail("the larger or smaller one of %d and %d is wrong", x, z)
					}
				}
				t.States(n, n)
				t.Outcome(p.Size(), p.Size2())
			})

			angles := []float64{0, 90, -90, 180, 270, 360, 45, -45, 30, 60, 135, 1, 0.5, -179.5, 12.345, 720.25}
			c.Run("rotations", len(angles), func(t *T, i int) {
				deg := angles[i]
				t.Key("%g degrees", deg)
				s, k := math.Sincos(deg * math.Pi / 180)
				n := 0
				for _, x := range vals {
					for _, y := range vals {
						p := data.NewMicroPoint(data.Micrometer(x), data.Micrometer(y))
						r := p.Rotate(deg)
						wx, wy := float64(x)*k-float64(y)*s, float64(x)*s+float64(y)*k
						if math.Abs(float64(r.X())-wx) > 0.5001 || math.Abs(float64(r.Y())-wy) > 0.5001 {
							t.Fail("(%d, %d) turned by %g is (%d, %d) instead of (%.2f, %.2f)", x, y, deg, r.X(), r.Y(), wx, wy)
						}
						if int64(p.X()) != x || int64(p.Y()) != y {
							t.Fail("turning (%d, %d) by %g changed it to (%d, %d)", x, y, deg, p.X(), p.Y())
						}
						r.SetX(1)
						if int64(p.X()) != x && x != 1 {
							t.Fail("the turned point is the same object as (%d, %d)", x, y)
						}
						// paths: each point of a path is turned once, also if the path contains the same object twice
						a, b := data.NewMicroPoint(data.Micrometer(x), data.Micrometer(y)), data.NewMicroPoint(data.Micrometer(y-x), 17)
						path := data.Path{a, b, a}
						other := data.Paths{{a, b}, {}, {b, b, a}}
						b2x, b2y := float64(y-x)*k-17*s, float64(y-x)*s+17*k
						near := func(p data.MicroPoint, x, y float64) bool {
							return math.Abs(float64(p.X())-x) < 0.5001 && math.Abs(float64(p.Y())-y) < 0.5001
						}
						path.Rotate(deg)
						if len(path) != 3 || !near(path[0], wx, wy) || !near(path[1], b2x, b2y) || !near(path[2], wx, wy) {
							t.Fail("the path of (%d, %d), (%d, 17), (%d, %d) turned by %g is %v", x, y, y-x, x, y, deg, showPath(path))
						}
						if other[0][0] != a || int64(a.X()) != x || int64(a.Y()) != y {
							t.Fail("turning one path by %g turned the points of another path, too", deg)
						}
						other.Rotate(deg)
						for j, q := range []data.MicroPoint{other[0][0], other[0][1], other[2][0], other[2][1], other[2][2]} {
							if j == 0 || j == 4 {
								if !near(q, wx, wy) {
									t.Fail("paths turned by %g: point %d is (%d, %d) instead of (%.1f, %.1f)", deg, j, q.X(), q.Y(), wx, wy)
								}
							} else if !near(q, b2x, b2y) {
								t.Fail("paths turned by %g: point %d is (%d, %d) instead of (%.1f, %.1f)", deg, j, q.X(), q.Y(), b2x, b2y)
							}
						}
						n++
					}
				}
				t.States(n, n)
				t.Outcome(deg)
			})

			// bounds of all paths of up to three points and their groupings
			bv := []int64{-200000, -7, 0, 5, 150000}
			var bp []pt
			for _, x := range bv {
				for _, y := range bv {
					bp = append(bp, pt{x, y})
				}
			}
			c.Run("bounds", len(bp), func(t *T, i int) {
				t.Key("first %v", bp[i])
				n := 0
				check := func(what string, lo, hi data.MicroPoint, ps ...pt) {
					n++
					x0, y0, x1, y1 := ps[0].x, ps[0].y, ps[0].x, ps[0].y
					for _, p := range ps {
						x0, y0, x1, y1 = min(x0, p.x), min(y0, p.y), max(x1, p.x), max(y1, p.y)
					}
					if int64(lo.X()) != x0 || int64(lo.Y()) != y0 || int64(hi.X()) != x1 || int64(hi.Y()) != y1 {
						t.Fail("%s of %v: (%d, %d) to (%d, %d)", what, ps, lo.X(), lo.Y(), hi.X(), hi.Y())
					}
				}
				np := func(p pt) data.MicroPoint { return data.NewMicroPoint(data.Micrometer(p.x), data.Micrometer(p.y)) }
				a := bp[i]
				for _, b := range bp {
					for _, d := range bp {
						path := data.Path{np(a), np(b), np(d)}
						lo, hi := path.Bounds()
						check("bounds of a path", lo, hi, a, b, d)
						lo.SetX(99)
						hi.SetY(98)
						if !samePoint(path[0], [2]int64{a.x, a.y}) || !samePoint(path[1], [2]int64{b.x, b.y}) || !samePoint(path[2], [2]int64{d.x, d.y}) {
							t.Fail("a change of the bounds changed the path %v %v %v", a, b, d)
						}
						for _, ps := range []data.Paths{{{np(a)}, {np(b), np(d)}}, {{}, {np(a), np(b)}, {}, {np(d)}}, {{np(a), np(b), np(d)}, {}}} {
							lo, hi = ps.Bounds()
							check("bounds of paths", lo, hi, a, b, d)
						}
						layer := data.NewPartitionedLayer([]data.LayerPart{
							data.NewBasicLayerPart(data.Path{np(a), np(b)}, data.Paths{{np(b)}}),
							data.NewBasicLayerPart(data.Path{np(d)}, nil),
						})
						lo, hi = layer.Bounds()
						check("bounds of a layer", lo, hi, a, b, d)
						for _, dist := range []int64{0, 7, 12, 200007, 500000} {
							dx, dy := d.x-a.x, d.y-a.y
							if path.IsAlmostFinished(data.Micrometer(dist)) != (dx*dx+dy*dy <= dist*dist) {
								t.Fail("the path %v %v %v is said to be finished within %d: %v", a, b, d, dist, dx*dx+dy*dy > dist*dist)
							}
						}
						// products and distances
						pa, pb, pd := np(a), np(b), np(d)
						if int64(data.DotProduct(pa, pb)) != a.x*b.x+a.y*b.y {
							t.Fail("the dot product of %v and %v is said to be %d", a, b, data.DotProduct(pa, pb))
						}
						if k := int64(1); abs64(a.x-b.x) < 30 && abs64(a.y-b.y) < 30 && abs64(a.x-d.x) < 30 && abs64(a.y-d.y) < 30 {
							abx, aby, apx, apy := b.x-a.x, b.y-a.y, d.x-a.x, d.y-a.y
							got := float64(data.PerpendicularDistance2(pa, pb, pd))
							want := float64(apx*apx + apy*apy)
							if l := abx*abx + aby*aby; l > 0 {
								cr := float64(abx*apy - aby*apx)
								want = cr * cr / float64(l)
							}
							if math.Abs(got-want) > float64(k) {
								t.Fail("the squared distance of %v from the line %v %v is said to be %g instead of %g", d, a, b, got, want)
							}
						}
					}
				}
				t.States(n, n)
				t.Outcome(n)
			})

			// units: all lengths up to some meters
			const block = 20000
			blocks := c.Pick(200, 800)
			c.Run("units", blocks, func(t *T, i int) {
				lo := int64(i-blocks/2) * block
				t.Key("%d to %d um", lo, lo+block)
				for u := lo; u < lo+block; u++ {
					mm := data.Micrometer(u).ToMillimeter()
					if math.Abs(float64(mm)*1000-float64(u)) > math.Abs(float64(u))*1.2e-7 {
						t.Fail("%d um are said to be %g mm", u, float64(mm))
						return
					}
					if got := mm.ToMicrometer(); int64(got) != u {
						t.Fail("%d um become %d um", u, got)
						return
					}
					for _, f := range []float32{0.2, -0.3, 0.45} {
						m := data.Millimeter((float32(u) + f) / 1000)
						if got := m.ToMicrometer(); math.Abs(float64(got)-float64(m)*1000) > 0.5+math.Abs(float64(u))*1.2e-7 {
							t.Fail("%.9g mm become %d um", float64(m), got)
							return
						}
					}
				}
				t.States(block, block)
				t.Outcome(lo)
			})
		}})
}

func opNames(ops []vecOp, seq []int) []string {
	var r []string
	for _, o := range seq {
		r = append(r, ops[o].name)
	}
	return r
}
