package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strconv"

	"github.com/aligator/goslice/data"
)

type v3 struct{ x, y, z int64 }

func (v v3) vec() data.MicroVec3 {
	return data.NewMicroVec3(data.Micrometer(v.x), data.Micrometer(v.y), data.Micrometer(v.z))
}

func fromVec(v data.MicroVec3) v3 { return v3{int64(v.X()), int64(v.Y()), int64(v.Z())} }

func (v v3) add(w v3) v3 { return v3{v.x + w.x, v.y + w.y, v.z + w.z} }
func (v v3) sub(w v3) v3 { return v3{v.x - w.x, v.y - w.y, v.z - w.z} }

func (v v3) mul(n int64) v3 { return v3{v.x * n, v.y * n, v.z * n} }

type tri [3]v3

// mesh implements data.Model.
type mesh []tri

type meshFace tri

func (f meshFace) Points() [3]data.MicroVec3 {
	return [3]data.MicroVec3{f[0].vec(), f[1].vec(), f[2].vec()}
}

func (m mesh) FaceCount() int       { return len(m) }
func (m mesh) Face(i int) data.Face { return meshFace(m[i]) }
func (m mesh) Min() data.MicroVec3  { a, _ := m.bounds(); return a.vec() }
func (m mesh) Max() data.MicroVec3  { _, b := m.bounds(); return b.vec() }
func (m mesh) bounds() (lo, hi v3) {
	if len(m) == 0 {
		return
	}
	lo, hi = m[0][0], m[0][0]
	for _, t := range m {
		for _, v := range t {
			lo = v3{min(lo.x, v.x), min(lo.y, v.y), min(lo.z, v.z)}
			hi = v3{max(hi.x, v.x), max(hi.y, v.y), max(hi.z, v.z)}
		}
	}
	return
}

func (m mesh) shift(d v3) mesh {
	out := make(mesh, len(m))
	for i, t := range m {
		for j := range t {
			out[i][j] = t[j].add(d)
		}
	}
	return out
}

// scene is a stack of slabs of cells: the reference model for blocky objects.
type scene struct {
	g     *grid
	zs    []int64
	slabs []cells
	diag  int // which diagonal splits the quads
	rot   int // which corner of each facet comes first
}

func newScene(g *grid, zs ...int64) *scene {
	s := &scene{g: g, zs: zs}
	for i := 0; i+1 < len(zs); i++ {
		s.slabs = append(s.slabs, newCells(g))
	}
	return s
}

// sceneFromRows draws the slabs from bottom to top; the rows of a slab are separated by '/', first row = highest y.
func sceneFromRows(size int64, zs []int64, slabs ...string) *scene {
	rows := splitRows(slabs[0])
	g := uniGrid(len(rows[0]), len(rows), size)
	return sceneOnGrid(g, zs, slabs...)
}

func sceneOnGrid(g *grid, zs []int64, slabs ...string) *scene {
	s := newScene(g, zs...)
	for k, sl := range slabs {
		rows := splitRows(sl)
		for r, row := range rows {
			for x, ch := range row {
				s.slabs[k].on[(g.ny()-1-r)*g.nx()+x] = ch == '#'
			}
		}
	}
	return s
}

func splitRows(s string) []string {
	var out []string
	cur := ""
	for _, ch := range s {
		if ch == '/' {
			out = append(out, cur)
			cur = ""
		} else {
			cur += string(ch)
		}
	}
	return append(out, cur)
}

func (s *scene) at(x, y, z int) bool {
	if z < 0 || z >= len(s.slabs) {
		return false
	}
	return s.slabs[z].at(x, y)
}

func (s *scene) empty() bool {
	for _, c := range s.slabs {
		if !c.empty() {
			return false
		}
	}
	return true
}

// mesh builds the closed surface of the scene, normals outside.
func (s *scene) mesh() mesh {
	var m mesh
	quad := func(a, b, c, d v3) { // counter clockwise seen from outside
		if s.diag == 0 {
			m = append(m, tri{a, b, c}, tri{a, c, d})
		} else {
			m = append(m, tri{b, c, d}, tri{b, d, a})
		}
	}
	for k := range s.slabs {
		for j := 0; j < s.g.ny(); j++ {
			for i := 0; i < s.g.nx(); i++ {
				if !s.at(i, j, k) {
					continue
				}
				x0, x1, y0, y1, z0, z1 := s.g.xs[i], s.g.xs[i+1], s.g.ys[j], s.g.ys[j+1], s.zs[k], s.zs[k+1]
				if !s.at(i-1, j, k) {
					quad(v3{x0, y0, z0}, v3{x0, y0, z1}, v3{x0, y1, z1}, v3{x0, y1, z0})
				}
				if !s.at(i+1, j, k) {
					quad(v3{x1, y0, z0}, v3{x1, y1, z0}, v3{x1, y1, z1}, v3{x1, y0, z1})
				}
				if !s.at(i, j-1, k) {
					quad(v3{x0, y0, z0}, v3{x1, y0, z0}, v3{x1, y0, z1}, v3{x0, y0, z1})
				}
				if !s.at(i, j+1, k) {
					quad(v3{x0, y1, z0}, v3{x0, y1, z1}, v3{x1, y1, z1}, v3{x1, y1, z0})
				}
				if !s.at(i, j, k-1) {
					quad(v3{x0, y0, z0}, v3{x0, y1, z0}, v3{x1, y1, z0}, v3{x1, y0, z0})
				}
				if !s.at(i, j, k+1) {
					quad(v3{x0, y0, z1}, v3{x1, y0, z1}, v3{x1, y1, z1}, v3{x0, y1, z1})
				}
			}
		}
	}
	return m.rotate(s.rot)
}

// rotate changes which corner of each facet comes first, the surface stays the same.
func (m mesh) rotate(n int) mesh {
	for i := range m {
		for k := 0; k < n; k++ {
			m[i] = tri{m[i][1], m[i][2], m[i][0]}
		}
	}
	return m
}

// placed returns the scene as it has to stand on the build plate: centred at the
// x and y of center, with its base at the z of center.
func (s *scene) placed(center data.MicroVec3) *scene {
	lo, hi := s.mesh().bounds()
	dx := int64(center.X()) - (lo.x+hi.x)/2
	dy := int64(center.Y()) - (lo.y+hi.y)/2
	dz := int64(center.Z()) - lo.z
	r := &scene{g: s.g.shift(dx, dy), diag: s.diag, rot: s.rot}
	for _, z := range s.zs {
		r.zs = append(r.zs, z+dz)
	}
	for _, c := range s.slabs {
		r.slabs = append(r.slabs, cells{r.g, c.on})
	}
	return r
}

// below returns the cross-section just below the height z.
func (s *scene) below(z int64) cells {
	for k := range s.slabs {
		if s.zs[k] < z && z <= s.zs[k+1] {
			return s.slabs[k]
		}
	}
	return newCells(s.g)
}

func (s *scene) top() int64 {
	_, hi := s.mesh().bounds()
	return hi.z
}

func (s *scene) String() string {
	out := fmt.Sprint("xs", s.g.xs, " ys", s.g.ys, " zs", s.zs)
	for _, c := range s.slabs {
		out += " " + c.String()
	}
	return out
}

// stlBinary writes a binary STL file with coordinates in mm.
func stlBinary(m [][3][3]float32, header string) []byte {
	var b bytes.Buffer
	h := make([]byte, 80)
	copy(h, header)
	b.Write(h)
	binary.Write(&b, binary.LittleEndian, uint32(len(m)))
	for _, t := range m {
		binary.Write(&b, binary.LittleEndian, [3]float32{0, 0, 1})
		for _, v := range t {
			binary.Write(&b, binary.LittleEndian, v)
		}
		binary.Write(&b, binary.LittleEndian, uint16(0))
	}
	return b.Bytes()
}

func stlASCII(m [][3][3]float32, name string) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "solid %s\n", name)
	for _, t := range m {
		fmt.Fprintf(&b, "  facet normal 0 0 1\n    outer loop\n")
		for _, v := range t {
			fmt.Fprintf(&b, "      vertex %s %s %s\n", f32(v[0]), f32(v[1]), f32(v[2]))
		}
		fmt.Fprintf(&b, "    endloop\n  endfacet\n")
	}
	fmt.Fprintf(&b, "endsolid %s\n", name)
	return b.Bytes()
}

func f32(f float32) string { return strconv.FormatFloat(float64(f), 'g', -1, 32) }

func (m mesh) floats() [][3][3]float32 {
	out := make([][3][3]float32, len(m))
	for i, t := range m {
		for j, v := range t {
			out[i][j] = [3]float32{float32(float64(v.x) / 1000), float32(float64(v.y) / 1000), float32(float64(v.z) / 1000)}
		}
	}
	return out
}
