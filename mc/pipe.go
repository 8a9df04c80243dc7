package main

import (
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"strconv"
	"strings"

	goslice "github.com/aligator/goslice"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/handler"
)

var quietLog = log.New(io.Discard, "", 0)

// baseOpts are the default options with a silent logger.
func baseOpts(mods ...func(o *data.Options)) data.Options {
	o := data.DefaultOptions()
	o.GoSlice.Logger = quietLog
	for _, m := range mods {
		m(&o)
	}
	return o
}

type memReader struct{ m data.Model }

func (r memReader) Read(string) (data.Model, error) { return r.m, nil }

type memWriter struct {
	gcode string
	n     int
}

func (w *memWriter) Write(g string, dest string) error { w.gcode = g; w.n++; return nil }

type optTap struct {
	handler.ModelOptimizer
	om data.OptimizedModel
}

func (o *optTap) Optimize(m data.Model) (data.OptimizedModel, error) {
	om, err := o.ModelOptimizer.Optimize(m)
	o.om = om
	return om, err
}

type slicerTap struct {
	handler.ModelSlicer
	layers []data.PartitionedLayer
}

func (o *slicerTap) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
	l, err := o.ModelSlicer.Slice(m)
	o.layers = append([]data.PartitionedLayer{}, l...)
	return l, err
}

type layerTap struct {
	layers []data.PartitionedLayer
}

func (l *layerTap) GetName() string            { return "tap" }
func (l *layerTap) Init(m data.OptimizedModel) {}
func (l *layerTap) Modify(ls []data.PartitionedLayer) error {
	l.layers = append([]data.PartitionedLayer{}, ls...)
	return nil
}

// pipe is one run of the whole program from a model in memory to G-code in memory.
type pipe struct {
	o      data.Options
	om     data.OptimizedModel
	sliced []data.PartitionedLayer // as the slicer made them
	layers []data.PartitionedLayer // with all attributes
	gcode  string
	err    error
}

func runPipe(o data.Options, m data.Model) *pipe {
	s := goslice.NewGoSlice(o)
	s.Reader = memReader{m}
	ot := &optTap{ModelOptimizer: s.Optimizer}
	s.Optimizer = ot
	st := &slicerTap{ModelSlicer: s.Slicer}
	s.Slicer = st
	lt := &layerTap{}
	s.Modifiers = append(s.Modifiers, lt)
	w := &memWriter{}
	s.Writer = w
	err := s.Process()
	if f := os.Getenv("MC_DUMP"); f != "" { // for looking into a single case
		_ = os.WriteFile(f, []byte(w.gcode), 0o644)
	}
	return &pipe{o: o, om: ot.om, sliced: st.layers, layers: lt.layers, gcode: w.gcode, err: err}
}

// move is one G0 or G1 line; coordinates in micrometers.
type move struct {
	line                   int
	layer                  int
	typ                    string
	g                      int
	x0, y0, z0, x1, y1, z1 int64
	hasE                   bool
	e, eTotal              float64
	f                      float64 // feed rate in force
	hasXY, hasZ            bool
	known                  bool // the position before the move was known
	custom                 bool // stems from the start or end hunk
}

func (m move) length() float64 { return math.Hypot(float64(m.x1-m.x0), float64(m.y1-m.y0)) }

// extrudes tells if the move pushes out material while moving in the plane.
func (m move) extrudes() bool { return m.hasE && m.e > 0 && (m.x0 != m.x1 || m.y0 != m.y1) }

type gline struct {
	line  int
	layer int
	text  string
	code  string
}

// prog is an interpreted G-code program.
type prog struct {
	moves  []move
	cmds   []gline // every line which is no comment
	layers []int
	errs   []string
	lines  []string
	types  []gline
}

func parseGCode(s string) *prog {
	p := &prog{}
	layer := -1
	typ := ""
	var x, y, z int64
	kx, ky, kz := false, false, false
	e := 0.0
	f := 0.0
	custom := false
	p.lines = strings.Split(s, "\n")
	for n, raw := range p.lines {
		line := strings.TrimSpace(raw)
		if line == "" {
			continue
		}
		if strings.HasPrefix(line, ";") {
			c := line[1:]
			switch {
			case strings.HasPrefix(c, "LAYER:"):
				v, err := strconv.Atoi(c[6:])
				if err != nil {
					p.errs = append(p.errs, fmt.Sprintf("line %d: %q", n+1, raw))
				}
				layer = v
				typ = ""
				p.layers = append(p.layers, v)
			case strings.HasPrefix(c, "TYPE:"):
				typ = c[5:]
				p.types = append(p.types, gline{n, layer, c, typ})
			case c == "BOTTOM-FILL" || c == "TOP-FILL" || c == "INTERNAL-FILL":
				typ = c
				p.types = append(p.types, gline{n, layer, c, typ})
			case c == "START GCODE":
				custom = true
			case c == "END_GCODE":
				custom = true
			}
			continue
		}
		body := line
		if i := strings.Index(body, ";"); i >= 0 {
			body = strings.TrimSpace(body[:i])
		}
		fs := strings.Fields(body)
		if len(fs) == 0 {
			continue
		}
		code := fs[0]
		p.cmds = append(p.cmds, gline{n, layer, line, code})
		switch code {
		case "G0", "G1":
			m := move{line: n + 1, layer: layer, typ: typ, x0: x, y0: y, z0: z, x1: x, y1: y, z1: z, known: kx && ky && kz, custom: custom}
			if code == "G1" {
				m.g = 1
			}
			for _, w := range fs[1:] {
				v, err := strconv.ParseFloat(w[1:], 64)
				if err != nil || math.IsNaN(v) || math.IsInf(v, 0) {
					p.errs = append(p.errs, fmt.Sprintf("line %d: %q", n+1, raw))
					continue
				}
				u := int64(math.Round(v * 1000))
				switch w[0] {
				case 'X':
					m.x1, kx, m.hasXY = u, true, true
				case 'Y':
					m.y1, ky, m.hasXY = u, true, true
				case 'Z':
					m.z1, kz, m.hasZ = u, true, true
				case 'E':
					m.hasE = true
					m.e = v - e
					e = v
				case 'F':
					f = v
				default:
					p.errs = append(p.errs, fmt.Sprintf("line %d: %q", n+1, raw))
				}
			}
			m.f = f
			m.eTotal = e
			x, y, z = m.x1, m.y1, m.z1
			p.moves = append(p.moves, m)
		case "G92":
			for _, w := range fs[1:] {
				if w[0] == 'E' {
					e, _ = strconv.ParseFloat(w[1:], 64)
					custom = false
				}
			}
		}
	}
	return p
}

// firstErr is a helper which reports the syntax errors of a program.
func (p *prog) check(t *T) {
	for _, e := range p.errs {
		t.Fail("the G-code is malformed: %s", e)
	}
}
