package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/reader"
)

// scratchDir is a directory which only this run uses; run.sh removes it.
func scratchDir() string {
	d := os.Getenv("MC_SCRATCH")
	if d == "" {
		d = os.TempDir()
	}
	p := filepath.Join(d, "files")
	os.MkdirAll(p, 0o755)
	return p
}

var fileNr int
var fileMu sync.Mutex

// tempFile writes the content to a fresh file and returns its path.
func tempFile(b []byte, suffix string) string {
	fileMu.Lock()
	fileNr++
	n := fileNr
	fileMu.Unlock()
	p := filepath.Join(scratchDir(), fmt.Sprintf("f%d%s", n, suffix))
	if err := os.WriteFile(p, b, 0o644); err != nil {
		panic(err)
	}
	return p
}

func readBytes(b []byte, suffix string) (data.Model, error) {
	p := tempFile(b, suffix)
	defer os.Remove(p)
	o := baseOpts()
	return reader.Reader(&o).Read(p)
}

// near tells if the micrometers are the millimeters to the nearest micrometer, within the precision of a float32.
func nearMicro(mm float32, um data.Micrometer) bool {
	exact := float64(mm) * 1000
	return math.Abs(float64(um)-exact) <= 0.5+math.Abs(exact)/(1<<24)
}

func sameModel(t *T, m data.Model, want [][3][3]float32) {
	if m.FaceCount() != len(want) {
		t.Fail("the model has %d faces, the file has %d", m.FaceCount(), len(want))
		return
	}
	for i, w := range want {
		ps := m.Face(i).Points()
		for j := range w {
			got := [3]data.Micrometer{ps[j].X(), ps[j].Y(), ps[j].Z()}
			for k := range got {
				if !nearMicro(w[j][k], got[k]) {
					t.Fail("face %d vertex %d coordinate %d: %v mm was read as %d micrometers", i, j, k, w[j][k], got[k])
				}
			}
		}
	}
	if len(want) == 0 {
		return
	}
	lo, hi := m.Min(), m.Max()
	wlo, whi := [3]float64{1e18, 1e18, 1e18}, [3]float64{-1e18, -1e18, -1e18}
	for i := range want {
		for _, p := range m.Face(i).Points() {
			for k, v := range [3]data.Micrometer{p.X(), p.Y(), p.Z()} {
				wlo[k] = math.Min(wlo[k], float64(v))
				whi[k] = math.Max(whi[k], float64(v))
			}
		}
	}
	for k, v := range [3]data.Micrometer{lo.X(), lo.Y(), lo.Z()} {
		if float64(v) != wlo[k] {
			t.Fail("Min coordinate %d is %d, want %v", k, v, wlo[k])
		}
	}
	for k, v := range [3]data.Micrometer{hi.X(), hi.Y(), hi.Z()} {
		if float64(v) != whi[k] {
			t.Fail("Max coordinate %d is %d, want %v", k, v, whi[k])
		}
	}
}

// c01Soup returns n triangles with pairwise different coordinates.
func c01Soup(n int, vals []float32) [][3][3]float32 {
	var out [][3][3]float32
	k := 0
	for i := 0; i < n; i++ {
		var tr [3][3]float32
		for a := range tr {
			for b := range tr[a] {
				tr[a][b] = vals[k%len(vals)] + float32(k)*0.25
				k++
			}
		}
		out = append(out, tr)
	}
	return out
}

var asciiVariants = []struct {
	name string
	f    func(s string) string
}{
	{"plain", func(s string) string { return s }},
	{"crlf", func(s string) string { return strings.ReplaceAll(s, "\n", "\r\n") }},
	{"flat", func(s string) string { return strings.ReplaceAll(s, "  ", "") }},
	{"tabs", func(s string) string { return strings.ReplaceAll(s, "  ", "\t") }},
	{"blank lines", func(s string) string { return strings.ReplaceAll(s, "\n", "\n\n") }},
	{"no final newline", func(s string) string { return strings.TrimRight(s, "\n") }},
}

func init() {
	register(&Check{ID: "C01", Level: "fault_enumeration",
		Rule: "one evaluation = one STL file read through reader.Reader; distinct = different resulting models or errors",
		Assume: []string{"files are read from a local file system which returns what was written",
			"coordinates up to 16 m; malformed files are truncations and single broken tokens"},
		Run: func(c *Ctx) {
			// every float32 which is a coordinate of up to 16 m
			const maxBits = 0x467A0000 // 16000.0
			const chunk = 1 << 20
			nch := (maxBits + chunk) / chunk
			stride := uint32(c.Pick(7, 1))
			c.Run("all float32 coordinates", nch*2, func(t *T, i int) {
				neg := uint32(i%2) << 31
				base := uint32(i/2) * chunk
				t.Key("bits %#x sign %d stride %d", base, i%2, stride)
				n := 0
				for b := base; b < base+chunk && b <= maxBits; b += stride {
					f := math.Float32frombits(b | neg)
					u := data.Millimeter(f).ToMicrometer()
					if !nearMicro(f, u) {
						t.Fail("%v mm (%#x) is converted to %d micrometers", f, b|neg, u)
						if t.Failed() && n > 3 {
							return
						}
					}
					n++
				}
				t.States(n, n)
				t.Outcome(base, neg)
			})

			vals := []float32{0, 1, -1, 0.0004, 0.0005, 0.0006, -0.0005, 12.345678, -99.9995, 100.0005, 250.125, 1e-20, 3999.5, -9000.002, -8388.609}
			c.Run("coordinates through files", len(vals)*len(vals)*2, func(t *T, i int) {
				a, b := vals[i/2%len(vals)], vals[i/2/len(vals)]
				tr := [][3][3]float32{{{a, b, 1}, {b, 2, a}, {3, a, b}}, {{b, a, 4}, {a, 5, b}, {6, b, a}}}
				t.Key("%v %v binary=%v", a, b, i%2 == 0)
				bs := stlBinary(tr, "x")
				if i%2 == 1 {
					bs = stlASCII(tr, "x")
				}
				m, err := readBytes(bs, ".stl")
				if err != nil {
					t.Fail("a valid file is refused: %v", err)
					return
				}
				sameModel(t, m, tr)
				t.Outcome(fromVec(m.Face(0).Points()[0]), fromVec(m.Face(1).Points()[2]))
				t.Sample(map[string]interface{}{"mm": []float32{a, b}, "read": fmt.Sprint(fromVec(m.Face(0).Points()[0]))})
			})

			// every pair of facets over a few points, with equal vertices, equal facets and facets without area
			corner := [][3]float32{{0, 0, 0}, {0.0001, 0, 0}, {1, 0, 0}, {-1, 2, 3}}
			c.Run("all pairs of facets over four points", 64*64*2, func(t *T, i int) {
				facet := func(k int) [3][3]float32 { return [3][3]float32{corner[k%4], corner[k/4%4], corner[k/16%4]} }
				tr := [][3][3]float32{facet(i / 2 % 64), facet(i / 128)}
				t.Key("%v binary=%v", tr, i%2 == 0)
				bs := stlBinary(tr, "x")
				if i%2 == 1 {
					bs = stlASCII(tr, "x")
				}
				m, err := readBytes(bs, ".stl")
				if err != nil {
					t.Fail("a valid file is refused: %v", err)
					return
				}
				sameModel(t, m, tr)
				t.Outcome(i / 2)
			})

			headers := []string{"", "solid", "solid name", "binary stl", "facet normal", strings.Repeat("x", 80)}
			counts := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 100, 1000, 1023, 1025, 5000, 10007}
			c.Run("binary files", len(headers)*len(counts), func(t *T, i int) {
				h, n := headers[i%len(headers)], counts[i/len(headers)]
				t.Key("header %q faces %d", h, n)
				tr := c01Soup(n, []float32{0.5, -3.25, 17})
				m, err := readBytes(stlBinary(tr, h), ".stl")
				if err != nil {
					t.Fail("a valid file is refused: %v", err)
					return
				}
				sameModel(t, m, tr)
				t.Outcome(n)
			})
			names := []string{"x", "", "my part", "a b c"}
			c.Run("ascii files", len(asciiVariants)*len(names)*len(counts), func(t *T, i int) {
				v := asciiVariants[i%len(asciiVariants)]
				name := names[i/len(asciiVariants)%len(names)]
				n := counts[i/len(asciiVariants)/len(names)]
				t.Key("%s name %q faces %d", v.name, name, n)
				tr := c01Soup(n, []float32{0.5, -3.25, 17})
				m, err := readBytes([]byte(v.f(string(stlASCII(tr, name)))), ".stl")
				if err != nil {
					t.Fail("a valid file is refused: %v", err)
					return
				}
				sameModel(t, m, tr)
				t.Outcome(n)
			})

			// the outermost vertex at any place of the file
			sizes := []int{1, 2, 3, 7, 64, 129, 500, 1001, 1023, 2050, 4097, 10007}
			c.Run("outermost vertices", len(sizes)*18, func(t *T, i int) {
				n := sizes[i/18]
				j, k, sign := i%3, i/3%3, float32(i/9%2*2-1)
				t.Key("%d faces, coordinate %d of vertex %d, sign %v", n, k, j, sign)
				var at []int
				for p := 0; p < n; p++ {
					if p < 20 || p >= n-20 || p%(n/16+1) == 0 || p&(p-1) == 0 || p&(p+1) == 0 {
						at = append(at, p)
					}
				}
				if n > 2500 && !c.Thorough() {
					at = append(at[:6:6], at[len(at)-6:]...)
				}
				tr := c01Soup(n, []float32{0.5, -3.25, 17})
				for f := range tr {
					for a := range tr[f] {
						for b := range tr[f][a] {
							tr[f][a][b] = float32(math.Mod(float64(tr[f][a][b]), 300))
						}
					}
				}
				for _, p := range at {
					old := tr[p][j][k]
					tr[p][j][k] = sign * 777.5
					m, err := readBytes(stlBinary(tr, "x"), ".stl")
					if err != nil {
						t.Fail("a valid file is refused: %v", err)
						return
					}
					if sameModel(t, m, tr); t.Failed() {
						t.Fail("outermost vertex in face %d", p)
						return
					}
					tr[p][j][k] = old
				}
				t.States(len(at), len(at))
				t.Outcome(i)
			})

			// every truncation point
			for _, kind := range []string{"binary", "ascii"} {
				for _, n := range []int{1, 3} {
					tr := c01Soup(n, []float32{0.5, -3.25, 17})
					full := stlBinary(tr, "part")
					end := len(full)
					if kind == "ascii" {
						full = stlASCII(tr, "part")
						end = bytes.LastIndex(full, []byte("endsolid")) + len("endsolid")
					}
					kind, n := kind, n
					c.Run(fmt.Sprintf("truncated %s file with %d faces", kind, n), len(full)+1, func(t *T, i int) {
						t.Key("first %d of %d bytes", i, len(full))
						m, err := readBytes(full[:i], ".stl")
						if i < end && err == nil {
							t.Fail("a file which ends after %d of %d bytes is read without an error as a model with %d of %d faces", i, len(full), m.FaceCount(), n)
						}
						if i >= end {
							if err != nil {
								t.Fail("a complete file is refused: %v", err)
							} else {
								sameModel(t, m, tr)
							}
						}
						t.Outcome(i < end, err != nil, err)
					})
				}
			}
			// a triangle count which does not fit to the size of the file
			c.Run("wrong triangle count", 41, func(t *T, i int) {
				tr := c01Soup(4, []float32{0.5, -3.25, 17})
				b := stlBinary(tr, "part")
				b[80] = byte(i)
				t.Key("count %d for 4 faces", i)
				m, err := readBytes(b, ".stl")
				if i > 4 && err == nil {
					t.Fail("a file which announces %d faces but has 4 is read without an error (%d faces)", i, m.FaceCount())
				}
				if i == 4 && err != nil {
					t.Fail("refused: %v", err)
				}
				t.Outcome(i > 4, err != nil)
			})
			// each number of an ASCII file broken
			broken := []string{"x", "1.2.3", "--1", "1,5", "0x", "1e", "vertex"}
			soup := c01Soup(2, []float32{0.5, -3.25, 17})
			ascii := string(stlASCII(soup, "part"))
			var fields []int // byte offsets of vertex numbers
			for pos := 0; ; {
				k := strings.Index(ascii[pos:], "vertex ")
				if k < 0 {
					break
				}
				pos += k + len("vertex ")
				p := pos
				for f := 0; f < 3; f++ {
					fields = append(fields, p)
					p += strings.IndexAny(ascii[p:], " \n") + 1
				}
			}
			c.Run("unreadable numbers", len(fields)*len(broken), func(t *T, i int) {
				f, w := fields[i/len(broken)], broken[i%len(broken)]
				e := f + strings.IndexAny(ascii[f:], " \n")
				s := ascii[:f] + w + ascii[e:]
				t.Key("number %d = %q", i/len(broken), w)
				m, err := readBytes([]byte(s), ".stl")
				if err == nil {
					t.Fail("a file with the number %q is read without an error as %d faces", w, m.FaceCount())
				}
				t.Outcome(err)
			})
			// several solids in one ASCII file
			solids := func(ns []int) (file string, all [][3][3]float32) {
				for k, n := range ns {
					tr := c01Soup(n, []float32{0.5 + float32(100*k), -3.25, 17})
					all = append(all, tr...)
					file += string(stlASCII(tr, fmt.Sprintf("part %d", k)))
				}
				return
			}
			c.Run("several solids", 81*len(asciiVariants), func(t *T, i int) {
				v := asciiVariants[i%len(asciiVariants)]
				k := i / len(asciiVariants)
				ns := []int{k % 3, k / 3 % 3, k / 9 % 3, k / 27}[:2+k%3]
				t.Key("%s, faces %v", v.name, ns)
				s, tr := solids(ns)
				m, err := readBytes([]byte(v.f(s)), ".stl")
				if err != nil {
					t.Fail("a valid file is refused: %v", err)
					return
				}
				sameModel(t, m, tr)
				t.Outcome(len(tr))
			})
			two, twoFaces := solids([]int{2, 1})
			one, oneFaces := solids([]int{2})
			c.Run("truncated file with two solids", len(two)+1, func(t *T, i int) {
				t.Key("first %d of %d bytes", i, len(two))
				m, err := readBytes([]byte(two[:i]), ".stl")
				oneEnd := strings.Index(one, "endsolid") + len("endsolid")
				twoEnd := strings.LastIndex(two, "endsolid") + len("endsolid")
				want := [][3][3]float32(nil)
				switch {
				case i >= twoEnd:
					want = twoFaces
				case i >= oneEnd && i <= len(one):
					want = oneFaces // (nothing of the second one is there)
				}
				switch {
				case want == nil && err == nil:
					t.Fail("a file which ends after %d of %d bytes is read without an error as a model with %d faces", i, len(two), m.FaceCount())
				case want != nil && err != nil:
					t.Fail("a complete file is refused: %v", err)
				case want != nil:
					sameModel(t, m, want)
				}
				t.Outcome(len(want), err)
			})
			// coordinates which cannot be represented as micrometers
			nan := float32(math.NaN())
			inf := float32(math.Inf(1))
			wrong := []float32{nan, inf, -inf, 1e16, -1e16, 1e20, -3e38, 3e38}
			words := []string{"nan", "NaN", "inf", "-inf", "+Inf", "infinity", "1e16", "-1e17", "3e38", "1e39", "-1e400"}
			c.Run("coordinates which cannot be represented", len(fields)*(len(wrong)+len(words)), func(t *T, i int) {
				f, k := i%len(fields), i/len(fields)
				var m data.Model
				var err error
				if k < len(wrong) {
					t.Key("binary, number %d = %v", f, wrong[k])
					tr := c01Soup(2, []float32{0.5, -3.25, 17})
					tr[f/9][f/3%3][f%3] = wrong[k]
					m, err = readBytes(stlBinary(tr, "part"), ".stl")
				} else {
					w := words[k-len(wrong)]
					t.Key("ascii, number %d = %s", f, w)
					e := fields[f] + strings.IndexAny(ascii[fields[f]:], " \n")
					m, err = readBytes([]byte(ascii[:fields[f]]+w+ascii[e:]), ".stl")
				}
				if err == nil {
					t.Fail("read without an error as a model from %v to %v", fromVec(m.Min()), fromVec(m.Max()))
				}
				t.Outcome(err)
			})
			// paths which are no STL file
			c.Run("paths", 5, func(t *T, i int) {
				dir, _ := os.MkdirTemp(scratchDir(), "d")
				defer os.RemoveAll(dir)
				o := baseOpts()
				p := filepath.Join(dir, "missing.stl")
				name := "missing file"
				switch i {
				case 1:
					p, name = filepath.Join(dir, "a", "b.stl"), "missing folder"
				case 2:
					p, name = dir, "a folder"
				case 3:
					p, name = filepath.Join(dir, "empty.stl"), "empty file"
					os.WriteFile(p, nil, 0o644)
				case 4:
					p, name = filepath.Join(dir, "f", "x.stl"), "a file as folder"
					os.WriteFile(filepath.Join(dir, "f"), nil, 0o644)
				}
				t.Key(name)
				m, err := reader.Reader(&o).Read(p)
				if err == nil {
					t.Fail("%s: no error, %d faces", name, m.FaceCount())
				}
				t.Outcome(name, err != nil)
			})
		}})
}
