package main

import (
	"fmt"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"sync"

	goslice "github.com/aligator/goslice"
	"github.com/aligator/goslice/clip"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/handler"
)

// ---- C26: independence of instances ----

// yielder is one thread of the controlled scheduler: it only runs between resume and the next point.
type yielder struct {
	resume chan struct{}
	points chan bool // true: at a point, false: finished
	n      int
}

func newYielder() *yielder {
	return &yielder{resume: make(chan struct{}), points: make(chan bool)}
}

// point hands the control back to the scheduler.
func (y *yielder) point() {
	if y == nil {
		return
	}
	y.points <- true
	<-y.resume
}

func (y *yielder) Write(b []byte) (int, error) {
	y.point()
	return len(b), nil
}

// start runs f as a thread which waits for its first resume.
func (y *yielder) start(err *error, f func() error) {
	go func() {
		<-y.resume
		defer func() {
			if r := recover(); r != nil {
				*err = fmt.Errorf("panic: %v", r)
			}
			y.points <- false
		}()
		*err = f()
	}()
}

// step lets the thread run up to its next point; false if it has ended.
func (y *yielder) step() bool {
	y.resume <- struct{}{}
	y.n++
	return <-y.points
}

type yLayer struct {
	data.PartitionedLayer
	y *yielder
}

func (l yLayer) LayerParts() []data.LayerPart {
	l.y.point()
	return l.PartitionedLayer.LayerParts()
}

type yReader struct {
	handler.ModelReader
	y *yielder
}

func (r yReader) Read(n string) (data.Model, error) {
	r.y.point()
	m, err := r.ModelReader.Read(n)
	r.y.point()
	return m, err
}

type yOptimizer struct {
	handler.ModelOptimizer
	y *yielder
}

func (r yOptimizer) Optimize(m data.Model) (data.OptimizedModel, error) {
	o, err := r.ModelOptimizer.Optimize(m)
	r.y.point()
	return o, err
}

type ySlicer struct {
	handler.ModelSlicer
	y    *yielder
	fine bool
}

func (r ySlicer) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
	ls, err := r.ModelSlicer.Slice(m)
	if r.fine {
		for i := range ls {
			ls[i] = yLayer{ls[i], r.y}
		}
	}
	r.y.point()
	return ls, err
}

type yModifier struct {
	handler.LayerModifier
	y *yielder
}

func (r yModifier) Init(m data.OptimizedModel) {
	r.LayerModifier.Init(m)
	r.y.point()
}

func (r yModifier) Modify(l []data.PartitionedLayer) error {
	err := r.LayerModifier.Modify(l)
	r.y.point()
	return err
}

type yGenerator struct {
	handler.GCodeGenerator
	y *yielder
}

func (r yGenerator) Init(m data.OptimizedModel) {
	r.GCodeGenerator.Init(m)
	r.y.point()
}

func (r yGenerator) Generate(l []data.PartitionedLayer) (string, error) {
	g, err := r.GCodeGenerator.Generate(l)
	r.y.point()
	return g, err
}

// job is one instance: a model and options.
type job struct {
	name  string
	model mesh
	opts  data.Options
	solo  string
	n     [2]int // number of points, coarse and fine
}

// instance builds the program; y may be nil.
func (j *job) instance(y *yielder, fine bool) (*goslice.GoSlice, *memWriter) {
	o := j.opts
	o.GoSlice.Logger = quietLog
	if y != nil {
		o.GoSlice.Logger = log.New(y, "", 0)
	}
	s := goslice.NewGoSlice(o)
	s.Reader = memReader{j.model}
	if y != nil {
		s.Reader = yReader{s.Reader, y}
		s.Optimizer = yOptimizer{s.Optimizer, y}
		s.Slicer = ySlicer{s.Slicer, y, fine}
		for i := range s.Modifiers {
			s.Modifiers[i] = yModifier{s.Modifiers[i], y}
		}
		s.Generator = yGenerator{s.Generator, y}
	}
	w := &memWriter{}
	s.Writer = w
	return s, w
}

func c26Jobs() []*job {
	base := data.DefaultOptions()
	base.GoSlice.Logger = quietLog
	mk := func(name string, m mesh, f func(o *data.Options)) *job {
		o := base // shares the maps, slices and the center of the base on purpose
		f(&o)
		return &job{name: name, model: m, opts: o}
	}
	table := sceneFromRows(3000, []int64{0, 400, 600}, "#..\n#..", "###\n#.#").mesh()
	tower := sceneFromRows(3000, []int64{0, 300, 700}, "##\n#.", ".#\n##").mesh().shift(v3{777, -555, 0})
	ring := sceneFromRows(3000, []int64{0, 200, 400}, "###\n#.#\n###", "#..\n...\n..#").mesh()
	return []*job{
		mk("table", table, func(o *data.Options) {
			o.Print.Support.Enabled = true
			o.Print.Support.TopGapLayers = 1
			o.Print.BrimSkirt.BrimCount = 2
		}),
		mk("tower", tower, func(o *data.Options) {
			o.Printer.ExtrusionWidth = 600
			o.Print.LayerThickness = 100
			o.Print.InitialLayerThickness = 300
			o.Print.InfillZigZag = true
			o.Print.InfillPercent = 50
			o.Print.InfillRotationDegree = 30
			o.Filament.RetractionZHop = 1
			o.Filament.RetractionLength = 3
			o.Print.InsetCount = 1
			o.Print.NumberTopLayers = 1
			o.Print.NumberBottomLayers = 1
			o.Printer.Center = data.NewMicroVec3(50000, 70000, 0)
		}),
		mk("ring", ring, func(o *data.Options) {
			o.Printer.HasHeatedBed = false
			o.Print.LayerSpeed = 33
			o.Print.OuterPerimeterSpeed = 11
			o.Filament.FanSpeed = data.FanSpeedOptions{LayerToSpeedLUT: map[int]int{0: 9, 1: 200}}
			o.Filament.ExtrusionMultiplier = 90
			o.Filament.FilamentDiameter = 2850
			o.Print.InfillOverlapPercent = 0
			o.Printer.StartGCode = data.NewGCodeHunk([]string{"G28"})
		}),
	}
}

// prepare runs each job alone, without and with points.
func prepare(jobs []*job) error {
	for _, j := range jobs {
		s, w := j.instance(nil, false)
		if err := s.Process(); err != nil {
			return fmt.Errorf("%s: %v", j.name, err)
		}
		j.solo = w.gcode
		for f := 0; f < 2; f++ {
			y := newYielder()
			s, w := j.instance(y, f == 1)
			var err error
			y.start(&err, s.Process)
			for y.step() {
			}
			if err != nil || w.gcode != j.solo {
				return fmt.Errorf("%s: the result is another one the second time (%v)", j.name, err)
			}
			j.n[f] = y.n
		}
	}
	return nil
}

// schedule lets two instances run: segs are the numbers of steps before each preemption,
// starting with thread first; after the last preemption the other thread runs to its end.
func schedule(t *T, jobs [2]*job, fine bool, first int, segs []int) {
	var ys [2]*yielder
	var ws [2]*memWriter
	var errs [2]error
	var opts [2]map[string]string
	for k := range jobs {
		k := k
		opts[k] = leafValues(jobs[k].opts)
		ys[k] = newYielder()
		s, w := jobs[k].instance(ys[k], fine)
		ws[k] = w
		ys[k].start(&errs[k], s.Process)
	}
	alive := [2]bool{true, true}
	cur := first
	for _, n := range segs {
		for ; n > 0 && alive[cur]; n-- {
			alive[cur] = ys[cur].step()
		}
		cur = 1 - cur
	}
	for alive[0] || alive[1] {
		if !alive[cur] {
			cur = 1 - cur
		}
		alive[cur] = ys[cur].step()
	}
	f := 0
	if fine {
		f = 1
	}
	for k, j := range jobs {
		if errs[k] != nil {
			t.Fail("%s first, switches after %v: %s ends with %v", jobs[first].name, segs, j.name, errs[k])
		}
		if ws[k].gcode != j.solo {
			t.Fail("%s first, switches after %v: the result of %s differs from the one it has alone: %s", jobs[first].name, segs, j.name, firstDiff(ws[k].gcode, j.solo))
		}
		if ys[k].n != j.n[f] {
			t.Fail("%s first, switches after %v: %s takes %d steps, alone %d", jobs[first].name, segs, j.name, ys[k].n, j.n[f])
		}
		if !reflect.DeepEqual(opts[k], leafValues(j.opts)) {
			t.Fail("the options of %s have been changed", j.name)
		}
	}
	t.States(ys[0].n+ys[1].n, ys[0].n+ys[1].n)
	t.Traces(1)
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			o := ""
			if i < len(y) {
				o = y[i]
			}
			return fmt.Sprintf("line %d is %q instead of %q", i+1, x[i], o)
		}
	}
	return fmt.Sprintf("%d instead of %d lines", len(x), len(y))
}

func init() {
	// runs many instances at once without any control (built with the race detector)
	helpers["race"] = func(args []string) int {
		jobs := c26Jobs()
		for _, j := range jobs {
			s, w := j.instance(nil, false)
			if err := s.Process(); err != nil {
				fmt.Println("SKIP", err)
				return 0
			}
			j.solo = w.gcode
		}
		for r := 0; r < 4; r++ {
			var wg sync.WaitGroup
			for k := 0; k < 6; k++ {
				j := jobs[k%len(jobs)]
				wg.Add(1)
				go func() {
					defer wg.Done()
					for n := 0; n < 3; n++ {
						s, w := j.instance(nil, false)
						if err := s.Process(); err != nil || w.gcode != j.solo {
							fmt.Println("DIFFERENT", j.name, err)
						}
					}
				}()
			}
			wg.Wait()
		}
		fmt.Println("DONE")
		return 0
	}

	register(&Check{ID: "C26", Level: "model_checking",
		Rule:   "one evaluation = all schedules with the same pair, first thread and first preemption, or one history of runs; states and transitions = steps between two scheduling points",
		Assume: []string{"scheduling points are the log lines and the calls of the stages (coarse), and each access to the parts of a layer (fine)", "unsynchronized accesses between two points are left to a free run with the race detector"},
		Run: func(c *Ctx) {
			jobs := c26Jobs()
			var prepErr error
			func() {
				defer func() {
					if r := recover(); r != nil {
						prepErr = fmt.Errorf("%v", r)
					}
				}()
				prepErr = prepare(jobs)
			}()
			c.Run("alone", 1, func(t *T, i int) {
				t.Key("each job alone")
				if prepErr != nil {
					t.Fail("%v", prepErr)
				}
				var n []interface{}
				for _, j := range jobs {
					n = append(n, j.name, j.n, len(j.solo))
				}
				t.Sample(n)
				t.Outcome(n...)
			})
			if prepErr != nil {
				return
			}
			var pairs [][2]int
			for a := range jobs {
				for b := range jobs {
					if a <= b {
						pairs = append(pairs, [2]int{a, b})
					}
				}
			}
			for f, name := range []string{"stages and log lines", "accesses to layers"} {
				f := f
				type start struct{ p, first, s1 int }
				var starts []start
				for p, ab := range pairs {
					for first := 0; first < 2; first++ {
						for s := 0; s < jobs[ab[first]].n[f]; s++ {
							starts = append(starts, start{p, first, s})
						}
					}
				}
				bound := 3
				if f == 1 {
					bound = c.Pick(1, 2)
				} else if !c.Thorough() {
					bound = 2
				}
				c.Run(fmt.Sprintf("schedules of %s, up to %d preemptions", name, bound), len(starts), func(t *T, i int) {
					s := starts[i]
					ab := pairs[s.p]
					js := [2]*job{jobs[ab[0]], jobs[ab[1]]}
					t.Key("%s and %s, thread %d first, %d steps", js[0].name, js[1].name, s.first, s.s1)
					nOther, nFirst := js[1-s.first].n[f], js[s.first].n[f]
					schedule(t, js, f == 1, s.first, []int{s.s1})
					if s.s1 == 0 {
						t.Outcome(s)
						return // the same as the other thread first
					}
					bound := bound
					if !c.Thorough() && ab[0] == ab[1] {
						bound = 1
					}
					for s2 := 1; bound >= 2 && s2 < nOther && !t.Failed(); s2++ {
						schedule(t, js, f == 1, s.first, []int{s.s1, s2})
						for s3 := 1; bound >= 3 && s3 < nFirst-s.s1 && !t.Failed(); s3++ {
							schedule(t, js, f == 1, s.first, []int{s.s1, s2, s3})
						}
					}
					t.Outcome(s)
				})
			}

			hl := c.Pick(5, 7)
			hn := 1
			for k := 0; k < hl; k++ {
				hn *= len(jobs)
			}
			c.Run("histories of instances used again", hn, func(t *T, i int) {
				var ss []*goslice.GoSlice
				var ws []*memWriter
				for _, j := range jobs {
					s, w := j.instance(nil, false)
					ss, ws = append(ss, s), append(ws, w)
				}
				var h []string
				m := i
				for k := 0; k < hl; k++ {
					x := m % len(jobs)
					m /= len(jobs)
					h = append(h, jobs[x].name)
					ws[x].gcode = ""
					err := ss[x].Process()
					if err != nil || ws[x].gcode != jobs[x].solo {
						t.Fail("after %v: %s (%v)", h, firstDiff(ws[x].gcode, jobs[x].solo), err)
						break
					}
				}
				t.States(hl, hl)
				t.Traces(1)
				t.Key("%v", h)
				t.Outcome(h)
			})

			// one instance with changing models: nothing of the last model may be left
			c.Run("histories of models in one instance", len(jobs)*hn, func(t *T, i int) {
				j := jobs[i%len(jobs)]
				m := i / len(jobs)
				s, w := j.instance(nil, false)
				var h []string
				for k := 0; k < hl; k++ {
					x := jobs[m%len(jobs)]
					m /= len(jobs)
					h = append(h, x.name)
					s.Reader = memReader{x.model}
					w.gcode = ""
					err := s.Process()
					ref := crossSolo(j, x)
					if err != nil || w.gcode != ref {
						t.Fail("options of %s, after %v: %s (%v)", j.name, h, firstDiff(w.gcode, ref), err)
						break
					}
				}
				t.States(hl, hl)
				t.Traces(1)
				t.Key("options of %s: %v", j.name, h)
				t.Outcome(j.name, h)
			})

			patternHistories(c)
			processHistories(c)

			c.Run("free run with the race detector", 1, func(t *T, i int) {
				t.Key("race")
				bin := filepath.Join(scratchDir(), "mcrace")
				cmd := exec.Command("go", "build", "-race", "-buildvcs=false", "-o", bin, ".")
				cmd.Dir = filepath.Join(verifDir(), "mc")
				if out, err := cmd.CombinedOutput(); err != nil {
					// no race detector here: only this section is lost
					t.Sample("not available: " + string(out))
					return
				}
				cmd = exec.Command(bin, "helper", "race")
				cmd.Env = append(os.Environ(), "GORACE=exitcode=66 halt_on_error=1")
				b, err := cmd.CombinedOutput()
				out := string(b)
				switch {
				case strings.Contains(out, "DATA RACE"):
					t.Fail("instances which run at the same time access the same memory: %s", raceSummary(out))
				case strings.Contains(out, "DIFFERENT"):
					t.Fail("instances which run at the same time have other results: %.300s", out)
				case err != nil && strings.Contains(out, "fatal error: concurrent"):
					t.Fail("instances which run at the same time: %.200s", out)
				case err != nil && strings.Contains(out, "panic:"):
					t.Fail("instances which run at the same time panic: %.300s", out)
				}
				t.Outcome(strings.Contains(out, "DONE"))
			})
		}})
}

// raceSummary picks the functions of the program out of a report.
func raceSummary(out string) string {
	var fs []string
	for _, l := range strings.Split(out, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "github.com/aligator") {
			fs = append(fs, l)
		}
		if len(fs) == 4 {
			break
		}
	}
	return strings.Join(fs, ", ")
}

var crossMu sync.Mutex
var crossMap = map[string]string{}

// crossSolo is the result of the model of x with the options of j in a fresh instance.
func crossSolo(j, x *job) string {
	crossMu.Lock()
	defer crossMu.Unlock()
	k := j.name + "/" + x.name
	if r, ok := crossMap[k]; ok {
		return r
	}
	s, w := j.instance(nil, false)
	s.Reader = memReader{x.model}
	if err := s.Process(); err != nil {
		w.gcode = "error " + err.Error()
	}
	crossMap[k] = w.gcode
	return w.gcode
}

// patternHistories uses clippers and patterns again and again.
func patternHistories(c *Ctx) {
	g := uniGrid(3, 3, 3000)
	areas := []cells{cellsFromMask(g, 0x1ff), cellsFromMask(g, 0x1ef), cellsFromMask(g, 0x055), cellsFromMask(g, 0x049)}
	var ops []func(cl clip.Clipper, pats []clip.Pattern) string
	for a := range areas {
		a := a
		for p := 0; p < 2; p++ {
			p := p
			ops = append(ops, func(cl clip.Clipper, pats []clip.Pattern) string {
				r := ""
				for _, part := range areas[a].parts() {
					ps, err := pats[p].Fill(a, part)
					r += fmt.Sprint(showPaths(ps), err)
				}
				return r
			})
		}
	}
	ops = append(ops, func(cl clip.Clipper, pats []clip.Pattern) string {
		ps, ok := cl.Difference(areas[0].parts(), areas[2].parts())
		return fmt.Sprint(showParts(ps), ok)
	}, func(cl clip.Clipper, pats []clip.Pattern) string {
		ps, ok := cl.Union(areas[2].parts(), areas[3].parts())
		return fmt.Sprint(showParts(ps), ok)
	}, func(cl clip.Clipper, pats []clip.Pattern) string {
		ps := cl.InsetLayer(areas[1].parts(), 400, 2, 200)
		return fmt.Sprint(len(ps), showParts(ps.ToOneDimension()))
	}, func(cl clip.Clipper, pats []clip.Pattern) string {
		h, ok := cl.Hull(areas[2].parts())
		return fmt.Sprint(showPath(h), ok)
	})
	mk := func() (clip.Clipper, []clip.Pattern) {
		return clip.NewClipper(), []clip.Pattern{
			clip.NewLinearPattern(400, 1000, data.NewMicroPoint(0, 0), data.NewMicroPoint(9000, 9000), 45, true, true),
			clip.NewLinearPattern(300, 300, data.NewMicroPoint(0, 0), data.NewMicroPoint(9000, 9000), 0, false, false),
		}
	}
	var want []string
	n := len(ops)
	bad := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				bad = fmt.Sprint(r)
			}
		}()
		for _, f := range ops {
			cl, pats := mk()
			want = append(want, f(cl, pats))
		}
	}()
	depth := c.Pick(3, 4)
	total := n
	for k := 1; k < depth; k++ {
		total *= n
	}
	c.Run(fmt.Sprintf("sequences of %d operations of clippers and patterns", depth), total, func(t *T, i int) {
		if bad != "" {
			t.Fail("%s", bad)
			return
		}
		cl, pats := mk()
		var h []int
		m := i
		for k := 0; k < depth; k++ {
			h = append(h, m%n)
			if got := ops[m%n](cl, pats); got != want[m%n] {
				t.Fail("operation %d after %v has another result than alone", m%n, h[:k])
				break
			}
			m /= n
		}
		t.States(depth, depth)
		t.Traces(1)
		t.Key("%v", h)
		t.Outcome(h)
	})
}

func showPaths(ps data.Paths) string {
	r := ""
	for _, p := range ps {
		r += fmt.Sprint(showPath(p))
	}
	return r
}
