package main

import (
	"fmt"
	"math"

	"github.com/aligator/goslice/data"
)

// ---- C03: models far away from the origin ----

func farModels(c *Ctx) {
	far := []int64{0, 1, 8388607, 16777215, 16777217, 33554435, 100000001, 1<<31 - 1, 1<<31 + 1, 1<<32 + 3, 1<<40 + 7}
	var ends []int64
	for _, f := range far {
		ends = append(ends, f, -f)
	}
	lens := []int64{1000, 1001, 60003, 16777217}
	centers := []v3{{100000, 100000, 0}, {-16777217, 33554433, 3}, {1<<31 + 5, -7, 1<<32 + 1}}
	n := len(ends) * len(lens)
	c.Run("models far away", n*len(ends)*len(centers), func(t *T, i int) {
		ce := centers[i%len(centers)]
		a, b := i/len(centers)%n, i/len(centers)/n
		x, lx := ends[a%len(ends)], lens[a/len(ends)]
		y, ly := ends[b], lens[(a+b)%len(lens)]
		z, lz := ends[(a+3*b)%len(ends)], lens[(a+2*b)%len(lens)]
		t.Key("box %d %d %d size %d %d %d center %v", x, y, z, lx, ly, lz, ce)
		s := sceneOnGrid(&grid{xs: []int64{x, x + lx}, ys: []int64{y, y + ly}}, []int64{z, z + lz}, "#")
		o := baseOpts(func(o *data.Options) { o.Printer.Center = ce.vec() })
		m := s.mesh()
		om, err := optimize(&o, m)
		if err != nil {
			t.Fail("%v", err)
			return
		}
		off, _ := checkPlacement(t, m, m, om, ce)
		t.Outcome(off)
	})
}

// ---- C04: several vertices near to each other ----

// cluster judges a number of vertices of otherwise far apart faces.
func cluster(t *T, pts []v3, meld int64) {
	o := baseOpts(func(o *data.Options) { o.Slicing.MeldDistance = data.Micrometer(meld) })
	far := v3{200000, 150000, 90000}
	m := mesh{{v3{300000, 0, 0}, far, far.add(v3{7000, 1000, 0})}}
	for k, p := range pts {
		d := v3{0, int64(k) * 4000, 0}
		m = append(m, tri{p, far.add(d).add(v3{9000, 0, 5000}), far.add(d).add(v3{17000, 1000, 0})})
	}
	om, err := optimize(&o, m)
	if err != nil || om.FaceCount() != len(m) {
		t.Fail("faces with the vertices %v: %v", pts, err)
		return
	}
	off := faceOf(om, 0)[1].sub(far)
	out := make([]v3, len(pts))
	for k := range pts {
		out[k] = faceOf(om, k+1)[0].sub(off)
	}
	cell := func(v v3) v3 {
		return v3{floorDiv(v.x+meld/2, meld), floorDiv(v.y+meld/2, meld), floorDiv(v.z+meld/2, meld)}
	}
	for a := range pts {
		if dist2(pts[a], out[a]) > meld*meld {
			t.Fail("meld distance %d: of %v the vertex %v has become %v", meld, pts, pts[a], out[a])
			return
		}
		found := false
		for b := 0; b <= a; b++ {
			found = found || out[a] == pts[b]
			if pts[a] == pts[b] && out[a] != out[b] {
				t.Fail("meld distance %d: of %v the same vertex %v has become %v and %v", meld, pts, pts[a], out[a], out[b])
				return
			}
			if out[a] != out[b] && cell(out[a]) == cell(out[b]) && dist2(out[a], out[b]) <= meld*meld {
				t.Fail("meld distance %d: of %v the near vertices %v and %v have become %v and %v", meld, pts, pts[a], pts[b], out[a], out[b])
				return
			}
		}
		if !found {
			t.Fail("meld distance %d: of %v the vertex %v has become %v, which is none of them", meld, pts, pts[a], out[a])
			return
		}
	}
	t.Outcome(fmt.Sprint(len(pts)), out)
}

func clusters(c *Ctx) {
	// all sequences of points of a lattice which fills one cell of the meld grid, and those around it
	lattice := func(meld int64, steps []int64) (out []v3) {
		base := v3{100 * meld, 200 * meld, 30 * meld}
		for _, x := range steps {
			for _, y := range steps {
				for _, z := range steps {
					out = append(out, base.add(v3{x, y, z}))
				}
			}
		}
		return
	}
	m := int64(30)
	l3 := lattice(m, []int64{-15, 0, 14})
	n3 := len(l3)
	c.Run("three vertices in a cell", n3*n3*n3, func(t *T, i int) {
		pts := []v3{l3[i%n3], l3[i/n3%n3], l3[i/n3/n3]}
		t.Key("%v", pts)
		cluster(t, pts, m)
	})
	var l2 []v3
	for _, z := range []int64{-15, 14} {
		for _, y := range []int64{-15, 14} {
			for _, x := range []int64{-15, 14} {
				l2 = append(l2, v3{100*m + x, 200*m + y, 30*m + z})
			}
		}
	}
	l2 = append(l2, v3{100 * m, 200 * m, 30 * m})
	n2 := len(l2)
	c.Run("four and five vertices in a cell", n2*n2*n2*n2*c.Pick(1, n2), func(t *T, i int) {
		pts := []v3{l2[i%n2], l2[i/n2%n2], l2[i/n2/n2%n2], l2[i/n2/n2/n2%n2]}
		if c.Thorough() {
			pts = append(pts, l2[i/n2/n2/n2/n2])
		}
		t.Key("%v", pts)
		cluster(t, pts, m)
	})
	lb := lattice(m, []int64{-31, -1, 14, 29})
	nb := len(lb)
	c.Run("three vertices in neighbouring cells", nb*nb*c.Pick(8, nb), func(t *T, i int) {
		pts := []v3{lb[i%nb], lb[i/nb%nb], lb[(i/nb/nb*nb/c.Pick(8, nb)+i)%nb]}
		t.Key("%v", pts)
		cluster(t, pts, m)
	})
}

// repeatedFaces repeats one face of a fan or a strip at any later place.
func repeatedFaces(c *Ctx, centers []v3) {
	n := c.Pick(40, 120)
	c.Run("repeated faces", n*n*3, func(t *T, i int) {
		count, which, kind := i%n+1, i/n%n, i/n/n
		if which >= count {
			return
		}
		t.Key("face %d of %d, kind %d", which, count, kind)
		at := func(k int) v3 {
			w := 2 * math.Pi * float64(k) / float64(count+2)
			return v3{int64(30000 * math.Cos(w)), int64(30000 * math.Sin(w)), int64(k % 5 * 2000)}
		}
		var m mesh
		for k := 0; k < count; k++ {
			switch kind {
			case 0:
				m = append(m, tri{{100, -200, 40000}, at(k), at(k + 1)})
			case 1:
				m = append(m, tri{{}, {300, -700, 9000}, at(k)})
			case 2:
				x := int64(k) * 500
				m = append(m, tri{{x, int64(k%2) * 2000, 0}, {x + 500, int64((k+1)%2) * 2000, 0}, {x + 1000, int64(k%2) * 2000, 300}})
			}
		}
		f := m[which]
		for r := 0; r < 6; r++ {
			g := tri{f[r%3], f[(r+1)%3], f[(r+2)%3]}
			if r >= 3 {
				g[1], g[2] = g[2], g[1]
			}
			d := append(append(mesh{}, m...), g)
			if r%2 == 1 {
				d = append(append(mesh{g}, m...), m...)
			}
			ce := centers[(i+r)%len(centers)]
			o := baseOpts(func(o *data.Options) { o.Printer.Center = ce.vec() })
			om, err := optimize(&o, d)
			if err != nil {
				t.Fail("%v", err)
				return
			}
			keep := keepFaces(d)
			if _, ok := checkPlacement(t, d, keep, om, ce); !ok {
				return
			}
		}
		t.Outcome(count, which, kind)
	})
}

// hugeMeshes have more vertices and faces than fit in 16 bits, with all vertices far apart.
func hugeMeshes(c *Ctx) {
	c.Run("huge meshes", 5, func(t *T, i int) {
		var m mesh
		name := []string{"separate triangles", "a plate", "a plate with many holes", "a strip of 80000 faces", "a fan of 70000 faces"}[i]
		t.Key("%s", name)
		switch i {
		case 0:
			for k := int64(0); k < 24000; k++ {
				x, y := k%200*1000, k/200*1000
				m = append(m, tri{{x, y, 0}, {x + 500, y, 0}, {x, y + 500, 0}})
			}
		case 1, 2:
			n := 190
			s := newScene(uniGrid(n, n, 1000), 0, 960)
			for k := range s.slabs[0].on {
				s.slabs[0].on[k] = i == 1 || k/n%2 == 0 || k%n%2 == 0
			}
			m = s.mesh()
		case 3:
			at := func(k int64) v3 { return v3{k / 2 % 400 * 1000, k/800*3000 + k%2*1500, k / 2 % 7 * 100} }
			for k := int64(0); k < 80000; k++ {
				m = append(m, tri{at(k), at(k + 1), at(k + 2)})
			}
		case 4:
			// separate fans of seven faces each
			for k := int64(0); k < 10000; k++ {
				a := v3{k % 100 * 5000, k / 100 * 5000, 0}
				for w := 0; w < 7; w++ {
					p := func(w int) v3 {
						f := float64(w%7) * 2 * math.Pi / 7
						return a.add(v3{int64(2000 * math.Cos(f)), int64(2000 * math.Sin(f)), 500})
					}
					m = append(m, tri{a, p(w), p(w + 1)})
				}
			}
		}
		o := baseOpts(func(*data.Options) {})
		om, err := optimize(&o, m)
		if err != nil {
			t.Fail("%v", err)
			return
		}
		if _, ok := checkPlacement(t, m, m, om, fromVec(o.Printer.Center)); !ok {
			return
		}
		type edge [2]v3
		key := func(a, b v3) edge {
			if a.x > b.x || a.x == b.x && (a.y > b.y || a.y == b.y && a.z > b.z) {
				a, b = b, a
			}
			return edge{a, b}
		}
		faces := map[edge][]int{}
		for k, f := range m {
			for e := range f {
				faces[key(f[e], f[(e+1)%3])] = append(faces[key(f[e], f[(e+1)%3])], k)
			}
		}
		for k, f := range m {
			touch := om.OptimizedFace(k).TouchingFaceIndices()
			for e := range f {
				cand := faces[key(f[e], f[(e+1)%3])]
				ok := touch[e] == -1 && len(cand) == 1
				for _, j := range cand {
					ok = ok || j != k && j == touch[e]
				}
				if !ok {
					t.Fail("edge %d of face %d touches face %d, the faces with this edge are %v", e, k, touch[e], cand)
					return
				}
			}
		}
		t.Outcome(len(m))
	})
}
