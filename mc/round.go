package main

import (
	"math"
)

// roundKinds is the number of kinds of roundRing.
const roundKinds = 6

// roundRing is a contour with n corners and about the given radius around 0,0, which sees all of the contour.
func roundRing(kind, n int, r float64) ring {
	at := func(f, l float64) pt {
		return pt{int64(math.Round(l * math.Cos(2*math.Pi*f))), int64(math.Round(l * math.Sin(2*math.Pi*f)))}
	}
	var out ring
	for i := 0; i < n; i++ {
		f := float64(i) / float64(n)
		p := at(f, r)
		switch kind {
		case 1: // long
			p.x, p.y = p.x*3/2, p.y/2
		case 2: // gear
			if i%2 == 1 {
				p = at(f, r*0.8)
			}
		case 3: // waves
			p = at(f, r*(1+0.15*math.Sin(2*math.Pi*f*5)))
		case 4: // a straight side with many corners
			p = at(f/2, r)
			if i > n/2 {
				f = float64(i-n/2) / float64(n-n/2)
				p = pt{int64(math.Round(r * (2*f - 1))), int64(-r / 3)}
			}
		case 5: // corners of different density
			p = at(f*f, r)
		}
		if len(out) == 0 || p != out[len(out)-1] {
			out = append(out, p)
		}
	}
	return out
}

// eachRound explores round contours with few and many corners and of several sizes.
func eachRound(c *Ctx, name string, variants int, f func(t *T, r ring, variant int)) {
	ns := []int{12, 101, 160, 520}
	rs := []float64{2503, 40009}
	if c.Thorough() {
		ns = []int{9, 13, 25, 37, 64, 80, 101, 120, 128, 130, 160, 180, 201, 257, 300, 400, 520, 700}
		rs = []float64{1501, 2503, 5002, 9001, 20003, 40009}
	}
	c.Run(name, roundKinds*len(ns)*len(rs)*variants, func(t *T, i int) {
		kind := i % roundKinds
		n := ns[i/roundKinds%len(ns)]
		r := rs[i/roundKinds/len(ns)%len(rs)]
		v := i / roundKinds / len(ns) / len(rs)
		if kind == 2 && r*math.Pi/float64(n) < 300 {
			return // (no sensible teeth)
		}
		t.Key("round kind %d with %d corners, radius %.0f, variant %d", kind, n, r, v)
		f(t, roundRing(kind, n, r), v)
	})
}

// turned is a closed surface whose sections are scaled copies of a ring: scale[i] (in thousandth) at the height z[i].
// The ring has to see 0,0.
func turned(r ring, z []int64, scale []int64) (m mesh) {
	at := func(i, k int) v3 {
		p := r[i%len(r)]
		return v3{p.x * scale[k] / 1000, p.y * scale[k] / 1000, z[k]}
	}
	add := func(t tri) {
		if t[0] != t[1] && t[1] != t[2] && t[2] != t[0] {
			m = append(m, t)
		}
	}
	top := len(z) - 1
	for i := range r {
		for k := 0; k < top; k++ {
			add(tri{at(i, k), at(i+1, k), at(i+1, k+1)})
			add(tri{at(i, k), at(i+1, k+1), at(i, k+1)})
		}
		add(tri{{0, 0, z[0]}, at(i+1, 0), at(i, 0)})
		add(tri{{0, 0, z[top]}, at(i, top), at(i+1, top)})
	}
	return
}
