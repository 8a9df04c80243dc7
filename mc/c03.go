package main

import (
	"math"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/optimizer"
)

func optimize(o *data.Options, m data.Model) (data.OptimizedModel, error) {
	return optimizer.NewOptimizer(o).Optimize(m)
}

func faceOf(m data.Model, i int) tri {
	p := m.Face(i).Points()
	return tri{fromVec(p[0]), fromVec(p[1]), fromVec(p[2])}
}

// checkPlacement compares the optimized model with the faces that have to remain.
// Every vertex may differ by tol from the same vertex of the input after one common translation.
func checkPlacement(t *T, m mesh, keep mesh, om data.OptimizedModel, center v3) (off v3, ok bool) {
	lo, hi := m.bounds()
	if om.FaceCount() != len(keep) {
		t.Fail("%d faces remain, want %d", om.FaceCount(), len(keep))
		return off, false
	}
	if s := fromVec(om.Size()); s != hi.sub(lo) {
		t.Fail("the size is %v, want %v", s, hi.sub(lo))
	}
	if len(keep) == 0 {
		return off, true
	}
	off = faceOf(om, 0)[0].sub(keep[0][0])
	for i := range keep {
		f := faceOf(om, i)
		for j := range f {
			if f[j] != keep[i][j].add(off) {
				t.Fail("face %d vertex %d is at %v, want %v", i, j, f[j], keep[i][j].add(off))
				return off, false
			}
		}
		if g := om.OptimizedFace(i); g.MinZ() != data.Micrometer(min(f[0].z, f[1].z, f[2].z)) || g.MaxZ() != data.Micrometer(max(f[0].z, f[1].z, f[2].z)) {
			t.Fail("face %d: heights %d to %d", i, g.MinZ(), g.MaxZ())
		}
	}
	l, h := lo.add(off), hi.add(off)
	if l.z != center.z {
		t.Fail("the base is at %d, want %d", l.z, center.z)
	}
	if d := l.x + h.x - 2*center.x; d < -1 || d > 1 {
		t.Fail("x reaches from %d to %d, the centre has to be %d", l.x, h.x, center.x)
	}
	if d := l.y + h.y - 2*center.y; d < -1 || d > 1 {
		t.Fail("y reaches from %d to %d, the centre has to be %d", l.y, h.y, center.y)
	}
	kl, kh := keep.bounds()
	if fromVec(om.Min()) != kl.add(off) || fromVec(om.Max()) != kh.add(off) {
		t.Fail("bounds %v %v, want %v %v", fromVec(om.Min()), fromVec(om.Max()), kl.add(off), kh.add(off))
	}
	return off, true
}

// keepFaces drops degenerate and repeated faces.
func keepFaces(m mesh) mesh {
	var out mesh
	seen := map[[3]v3]bool{}
	less := func(a, b v3) bool {
		if a.x != b.x {
			return a.x < b.x
		}
		if a.y != b.y {
			return a.y < b.y
		}
		return a.z < b.z
	}
	for _, f := range m {
		if f[0] == f[1] || f[1] == f[2] || f[0] == f[2] {
			continue
		}
		k := f
		if less(k[1], k[0]) {
			k[0], k[1] = k[1], k[0]
		}
		if less(k[2], k[1]) {
			k[1], k[2] = k[2], k[1]
		}
		if less(k[1], k[0]) {
			k[0], k[1] = k[1], k[0]
		}
		if seen[[3]v3(k)] {
			continue
		}
		seen[[3]v3(k)] = true
		out = append(out, f)
	}
	return out
}

func dist2(a, b v3) int64 {
	d := a.sub(b)
	return d.x*d.x + d.y*d.y + d.z*d.z
}

func init() {
	register(&Check{ID: "C03", Level: "exploration",
		Rule:   "one evaluation = one model placed by the optimizer; distinct = different translations and face counts",
		Assume: []string{"coordinates within +-300 mm, vertices either equal or farther apart than the meld distance"},
		Run: func(c *Ctx) {
			ends := []int64{-250000, -100001, -7, -1, 0, 1, 2, 31, 4999, 5000, 99999, 200001}
			lens := []int64{1000, 1001, 3333, 60000, 250000}
			centers := []v3{{100000, 100000, 0}, {0, 0, 0}, {-50001, 7, 1}, {1, -1, -500}, {99999, 100001, 12345}}
			// each axis: all positions and sizes, for each axis combined with two other settings of the remaining axes
			n := len(ends) * len(lens)
			c.Run("boxes at all positions", n*n*len(centers), func(t *T, i int) {
				ce := centers[i%len(centers)]
				a, b := i/len(centers)%n, i/len(centers)/n
				x, lx := ends[a%len(ends)], lens[a/len(ends)]
				y, ly := ends[b%len(ends)], lens[b/len(ends)]
				z, lz := ends[(a+b)%len(ends)], lens[(a+2*b)%len(lens)]
				t.Key("box %d %d %d size %d %d %d center %v", x, y, z, lx, ly, lz, ce)
				s := sceneOnGrid(&grid{xs: []int64{x, x + lx}, ys: []int64{y, y + ly}}, []int64{z, z + lz}, "#")
				o := baseOpts(func(o *data.Options) { o.Printer.Center = ce.vec() })
				m := s.mesh()
				om, err := optimize(&o, m)
				if err != nil {
					t.Fail("%v", err)
					return
				}
				off, _ := checkPlacement(t, m, m, om, ce)
				if fromVec(o.Printer.Center) != ce {
					t.Fail("the option Center was changed to %v", fromVec(o.Printer.Center))
				}
				t.Outcome(off)
				t.Sample(off)
			})
			farModels(c)
			// all short sequences of faces over few points, with repetitions and degenerate faces
			pts := []v3{{0, 0, 0}, {2001, 0, 0}, {0, 1000, 500}, {-1000, 300, 1501}}
			var tr []tri
			for a := range pts {
				for b := range pts {
					for d := range pts {
						tr = append(tr, tri{pts[a], pts[b], pts[d]})
					}
				}
			}
			k := len(tr)
			total := k + k*k + k*k*k
			if c.Thorough() {
				total += k * k * k * k
			}
			c.Run("sequences of faces", total, func(t *T, i int) {
				var m mesh
				switch {
				case i < k:
					m = mesh{tr[i]}
				case i < k+k*k:
					j := i - k
					m = mesh{tr[j%k], tr[j/k]}
				case i < k+k*k+k*k*k:
					j := i - k - k*k
					m = mesh{tr[j%k], tr[j/k%k], tr[j/k/k]}
				default:
					j := i - k - k*k - k*k*k
					m = mesh{tr[j%k], tr[j/k%k], tr[j/k/k%k], tr[j/k/k/k]}
				}
				t.Key("%v", m)
				ce := centers[i%len(centers)]
				o := baseOpts(func(o *data.Options) { o.Printer.Center = ce.vec() })
				om, err := optimize(&o, m)
				if err != nil {
					t.Fail("%v", err)
					return
				}
				keep := keepFaces(m)
				off, _ := checkPlacement(t, m, keep, om, ce)
				t.Outcome(off, len(keep))
			})
			repeatedFaces(c, centers)
			// the placed model arrives at this place in the G-code as well
			c.Run("outer walls in the G-code", n*len(centers), func(t *T, i int) {
				ce := centers[i%len(centers)]
				a := i / len(centers)
				x, lx := ends[a%len(ends)], min(lens[a/len(ends)], 20000)
				t.Key("x %d size %d center %v", x, lx, ce)
				ce.z = 0
				s := sceneOnGrid(&grid{xs: []int64{x, x + lx}, ys: []int64{-x, -x + 3000}}, []int64{0, 600}, "#")
				o := baseOpts(func(o *data.Options) { o.Printer.Center = ce.vec() })
				p := runPipe(o, s.mesh())
				if p.err != nil {
					t.Fail("%v", p.err)
					return
				}
				pl := s.placed(o.Printer.Center)
				half := int64(o.Printer.ExtrusionWidth) / 2
				var lo, hi pt
				first := true
				for _, mv := range parseGCode(p.gcode).moves {
					if mv.typ != "WALL-OUTER" || !mv.extrudes() {
						continue
					}
					if first {
						lo, hi, first = pt{mv.x1, mv.y1}, pt{mv.x1, mv.y1}, false
					}
					lo = pt{min(lo.x, mv.x1), min(lo.y, mv.y1)}
					hi = pt{max(hi.x, mv.x1), max(hi.y, mv.y1)}
				}
				want := [4]int64{pl.g.xs[0] + half, pl.g.xs[1] - half, pl.g.ys[0] + half, pl.g.ys[1] - half}
				got := [4]int64{lo.x, hi.x, lo.y, hi.y}
				for k := range want {
					if abs64(want[k]-got[k]) > 8 {
						t.Fail("the outer walls span %v, want %v", got, want)
						break
					}
				}
				t.Outcome(got)
			})
		}})

	register(&Check{ID: "C04", Level: "exploration",
		Rule:   "one evaluation = one set of faces through the optimizer; distinct = different adjacency tables",
		Assume: []string{"up to 4 faces over up to 7 points, and closed blocky meshes; three meld distances"},
		Run: func(c *Ctx) {
			type conf struct {
				meld int64
				near []v3
			}
			// the second point of each pair of points is displaced
			var deltas []v3
			for _, d := range []int64{0, 1, 5, 14, 16, 29, 30, 31, 45, 61} {
				deltas = append(deltas, v3{d, 0, 0}, v3{0, -d, 0}, v3{0, 0, d}, v3{d / 2, d / 2, -d / 2})
			}
			melds := []int64{1, 30, 31}
			base := []v3{{-4, 7, 0}, {3001, 2, 0}, {15, 3000, 3}, {1000, 1014, 2000}}
			var sets [][][3]int
			// points 0..3 and the displaced copies 4 (of 0), 5 (of 1): all triangles
			var tr [][3]int
			for a := 0; a < 6; a++ {
				for b := 0; b < 6; b++ {
					for d := 0; d < 6; d++ {
						if a < b && b < d {
							tr = append(tr, [3]int{a, b, d}, [3]int{b, a, d})
						}
					}
				}
			}
			for a := range tr {
				sets = append(sets, [][3]int{tr[a]})
				for b := range tr {
					sets = append(sets, [][3]int{tr[a], tr[b]})
					if c.Thorough() {
						for d := range tr {
							if (a+b+d)%7 == 0 {
								sets = append(sets, [][3]int{tr[a], tr[b], tr[d]})
							}
						}
					}
				}
			}
			c.Run("faces with near points", len(sets)*len(deltas)*len(melds), func(t *T, i int) {
				meld := melds[i%len(melds)]
				d := deltas[i/len(melds)%len(deltas)]
				set := sets[i/len(melds)/len(deltas)]
				pts := append(append([]v3{}, base...), base[0].add(d), base[1].sub(d))
				var m mesh
				for _, s := range set {
					m = append(m, tri{pts[s[0]], pts[s[1]], pts[s[2]]})
				}
				t.Key("meld %d delta %v %v", meld, d, set)
				checkMeld(t, m, meld)
			})
			// two vertices at every place relative to the grid of the meld distance
			nearMelds := []int64{1, 2, 30, 31, 50}
			if c.Thorough() {
				nearMelds = append(nearMelds, 3, 7, 100, 333)
			}
			c.Run("near vertices", len(nearMelds)*51, func(t *T, i int) {
				meld := nearMelds[i%len(nearMelds)]
				r := int64(i / len(nearMelds))
				t.Key("meld %d at %d", meld, r)
				n := 0
				for _, p := range []v3{{120000 + r, 4 * meld, 0}, {90001, 60000 + r, 5 * meld}, {600*meld + meld/2, 30000 * meld, 1000 + r}} {
					for _, k := range []int64{0, 1, meld / 2, meld/2 + 1, meld - 1, meld, meld + 1, 2 * meld} {
						for _, d := range []v3{{k, 0, 0}, {0, k, 0}, {0, 0, k}, {k, k, 0}, {k, 0, -k}, {0, -k, k}, {k, k, k}, {-k, k, k}, {-k, k / 2, 0}, {k / 2, k / 3, -k}} {
							q := p.add(d)
							if q.x < 0 || q.y < 0 || q.z < 0 {
								continue
							}
							n++
							checkNear(t, p, q, meld)
						}
					}
				}
				t.States(n, n)
				t.Outcome(meld, r)
			})
			// vertices which are far apart, in particular by powers of two of the meld distance
			steps := []int64{0, 1, 2, 3, 31, 32, 255, 256, 511, 512, 513, 1023, 1024, 1025, 2048, 4096, 65536}
			c.Run("far vertices", len(steps)*len(steps)*3, func(t *T, i int) {
				meld := []int64{1, 30, 20}[i/len(steps)/len(steps)]
				a, b := steps[i%len(steps)]*meld, steps[i/len(steps)%len(steps)]*meld
				t.Key("meld %d distances %d %d", meld, a, b)
				for _, p := range []v3{{0, 0, 0}, {333, 777 * meld, 1000 * meld}} {
					for _, d := range steps {
						d *= meld
						for _, q := range []v3{{a, b, d}, {-a, b, d}, {a, -b, d}, {a, b, -d}} {
							checkNear(t, p, p.add(q), meld)
						}
					}
				}
				t.Outcome(i)
			})
			clusters(c)
			c.Run("many faces at one vertex", 60*3, func(t *T, i int) {
				n := i/3 + 3
				t.Key("%d faces, kind %d", n, i%3)
				var m mesh
				at := func(k int) v3 {
					w := 2 * math.Pi * float64(k%n) / float64(n)
					return v3{int64(30000 * math.Cos(w)), int64(30000 * math.Sin(w)), int64(k % n % 5 * 2000)}
				}
				top := v3{100, -200, 40000}
				for k := 0; k < n; k++ {
					switch i % 3 {
					case 0: // closed fan
						m = append(m, tri{top, at(k), at(k + 1)})
					case 1: // open fan with another order of the vertices in each face
						if k > 0 {
							m = append(m, tri{at(k), top, at(k - 1)})
							m = m.rotate(k % 3)
						}
					case 2: // all faces at one edge
						m = append(m, tri{top, {0, 0, 0}, at(k)})
					}
				}
				checkMeld(t, m, 30)
			})
			hugeMeshes(c)
			c.Run("plates of many faces", 14*2, func(t *T, i int) {
				n := i/2 + 1
				t.Key("%d by %d squares", n, n)
				s := newScene(uniGrid(n, n, 1024*30/int64(n)), 0, 960)
				for k := range s.slabs[0].on {
					s.slabs[0].on[k] = i%2 == 0 || k%3 != 1
				}
				m := s.mesh()
				checkMeld(t, m, 30)
			})
			c.Run("closed meshes", 255*2, func(t *T, i int) {
				s := newScene(&grid{xs: []int64{0, 1000, 2500}, ys: []int64{0, 1300, 2000}}, 0, 500, 1100)
				s.diag = i % 2
				for k := 0; k < 8; k++ {
					s.slabs[k/4].on[k%4] = (i/2+1)>>uint(k)&1 == 1
				}
				t.Key("%v", s)
				checkMeld(t, s.mesh(), 30)
			})
		}})
}

// checkNear judges two vertices of otherwise far apart faces.
func checkNear(t *T, p, q v3, meld int64) {
	o := baseOpts(func(o *data.Options) { o.Slicing.MeldDistance = data.Micrometer(meld) })
	far := v3{200000, 150000, 90000}
	m := mesh{{p, p.add(v3{7000, 0, 0}), p.add(v3{0, 9000, 4000})}, {q, far, far.add(v3{5000, 1000, 0})}}
	om, err := optimize(&o, m)
	if err != nil || om.FaceCount() != 2 {
		t.Fail("two faces with the vertices %v and %v: %v", p, q, err)
		return
	}
	a, b := faceOf(om, 0)[0], faceOf(om, 1)[0]
	cell := func(v v3) v3 {
		return v3{floorDiv(v.x+meld/2, meld), floorDiv(v.y+meld/2, meld), floorDiv(v.z+meld/2, meld)}
	}
	near := dist2(p, q) <= meld*meld
	if near && cell(p) == cell(q) && a != b {
		t.Fail("meld distance %d: the near vertices %v and %v have become %v and %v", meld, p, q, a, b)
	}
	if !near && b.sub(a) != q.sub(p) {
		t.Fail("meld distance %d: the vertices %v and %v, which are not near, have become %v and %v", meld, p, q, a, b)
	}
}

// checkMeld checks the melding and the adjacency table of one model.
func checkMeld(t *T, m mesh, meld int64) {
	o := baseOpts(func(o *data.Options) { o.Slicing.MeldDistance = data.Micrometer(meld) })
	om, err := optimize(&o, m)
	if err != nil {
		t.Fail("%v", err)
		return
	}
	lo, hi := m.bounds()
	ce := fromVec(o.Printer.Center)
	off := v3{ce.x - (lo.x+hi.x)/2, ce.y - (lo.y+hi.y)/2, ce.z - lo.z}
	n := om.FaceCount()
	// every face of the result stands for a face of the file, in the order of the file, with vertices moved at most by the meld distance
	src := make([]int, n)
	k := 0
	// the parity of odd sums may be rounded either way
	within := func(a, b v3) bool {
		for _, dx := range []int64{0, -1, 1} {
			for _, dy := range []int64{0, -1, 1} {
				if dist2(a.sub(off), b.add(v3{dx, dy, 0})) <= meld*meld {
					return true
				}
			}
		}
		return false
	}
	out := make([]tri, n)
	for i := 0; i < n; i++ {
		out[i] = faceOf(om, i)
		for ; k < len(m); k++ {
			if within(out[i][0], m[k][0]) && within(out[i][1], m[k][1]) && within(out[i][2], m[k][2]) {
				break
			}
		}
		if k == len(m) {
			t.Fail("face %d %v stems from no face of the model in order", i, out[i])
			return
		}
		src[i] = k
		k++
		if out[i][0] == out[i][1] || out[i][1] == out[i][2] || out[i][0] == out[i][2] {
			t.Fail("face %d is degenerate: %v", i, out[i])
		}
		for j := 0; j < i; j++ {
			if sameSet(out[i], out[j]) {
				t.Fail("the faces %d and %d have the same vertices", j, i)
			}
		}
	}
	// equal points of the file have become one point
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			for a := 0; a < 3; a++ {
				for b := 0; b < 3; b++ {
					p, q := m[src[i]][a], m[src[j]][b]
					if p == q && out[i][a] != out[j][b] {
						t.Fail("the same vertex %v has become %v and %v", p, out[i][a], out[j][b])
						return
					}
				}
			}
		}
	}
	// touching faces
	for i := 0; i < n; i++ {
		touch := om.OptimizedFace(i).TouchingFaceIndices()
		for e := 0; e < 3; e++ {
			a, b := out[i][e], out[i][(e+1)%3]
			var cand []int
			for j := 0; j < n; j++ {
				if j != i && hasVertex(out[j], a) && hasVertex(out[j], b) {
					cand = append(cand, j)
				}
			}
			ok := touch[e] == -1 && len(cand) == 0
			for _, j := range cand {
				if touch[e] == j {
					ok = true
				}
			}
			if !ok {
				t.Fail("edge %d of face %d touches face %d, the faces with this edge are %v", e, i, touch[e], cand)
			}
		}
		t.Outcome(touch)
	}
	t.Outcome(n)
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func hasVertex(f tri, v v3) bool { return f[0] == v || f[1] == v || f[2] == v }

func sameSet(a, b tri) bool {
	return hasVertex(a, b[0]) && hasVertex(a, b[1]) && hasVertex(a, b[2]) && hasVertex(b, a[0]) && hasVertex(b, a[1]) && hasVertex(b, a[2])
}
