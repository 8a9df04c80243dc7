package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/aligator/goslice"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/gcode"
)

// Runs of GoSlice which only consist of own steps: each of them is run exactly once, in its order,
// with the results of the steps before.

type runLog struct {
	calls  []string
	model  data.Model
	om     data.OptimizedModel
	layers []data.PartitionedLayer
	o      *data.Options
	fail   string
}

func (l *runLog) call(format string, a ...interface{}) error {
	s := fmt.Sprintf(format, a...)
	l.calls = append(l.calls, s)
	if s == l.fail {
		return errors.New("own error")
	}
	return nil
}

// same tells whether the layers are the ones of the run.
func (l *runLog) same(ls []data.PartitionedLayer) string {
	if len(ls) != len(l.layers) {
		return fmt.Sprintf("%d layers", len(ls))
	}
	for i := range ls {
		if !reflect.DeepEqual(ls[i], l.layers[i]) {
			return fmt.Sprintf("another layer %d", i)
		}
	}
	return "layers"
}

func (l *runLog) sameModel(om data.OptimizedModel) string {
	if !reflect.DeepEqual(om, l.om) {
		return "another model"
	}
	return "model"
}

type ownReader struct{ l *runLog }

func (r ownReader) Read(file string) (data.Model, error) {
	if err := r.l.call("read %s", file); err != nil {
		return nil, err
	}
	return r.l.model, nil
}

type ownOptimizer struct{ l *runLog }

func (r ownOptimizer) Optimize(m data.Model) (data.OptimizedModel, error) {
	what := "model"
	if !reflect.DeepEqual(m, r.l.model) {
		what = "another model"
	}
	if err := r.l.call("optimize %s", what); err != nil {
		return nil, err
	}
	return r.l.om, nil
}

type ownSlicer struct{ l *runLog }

func (r ownSlicer) Slice(om data.OptimizedModel) ([]data.PartitionedLayer, error) {
	if err := r.l.call("slice %s", r.l.sameModel(om)); err != nil {
		return nil, err
	}
	return append([]data.PartitionedLayer{}, r.l.layers...), nil
}

// ownModifier adds an attribute to all layers which tells what was done so far.
type ownModifier struct {
	name string
	l    *runLog
}

func (m ownModifier) GetName() string { return m.name }
func (m ownModifier) Init(om data.OptimizedModel) {
	m.l.call("init %s with %s", m.name, m.l.sameModel(om))
}
func (m ownModifier) Modify(ls []data.PartitionedLayer) error {
	if err := m.l.call("modify %s with %s", m.name, m.l.same(ls)); err != nil {
		return err
	}
	for i, l := range ls {
		done, _ := l.Attributes()["done"].(string)
		m.l.layers[i] = ownLayer{l, map[string]interface{}{"done": done + m.name + ";"}}
		ls[i] = m.l.layers[i]
	}
	return nil
}

type ownGenerator struct{ l *runLog }

func (g ownGenerator) Init(om data.OptimizedModel) {
	g.l.call("init generator with %s", g.l.sameModel(om))
}
func (g ownGenerator) Generate(ls []data.PartitionedLayer) (string, error) {
	if err := g.l.call("generate %s", g.l.same(ls)); err != nil {
		return "", err
	}
	return "own gcode", nil
}

type ownWriter struct{ l *runLog }

func (w ownWriter) Write(g, file string) error { return w.l.call("write %q to %s", g, file) }

type ownRenderer struct {
	name string
	l    *runLog
}

func (r ownRenderer) Init(om data.OptimizedModel) {
	r.l.call("init %s with %s", r.name, r.l.sameModel(om))
}
func (r ownRenderer) Render(b *gcode.Builder, layerNr, maxLayer int, layer data.PartitionedLayer, z data.Micrometer, o *data.Options) error {
	what := "layer"
	if layerNr < 0 || layerNr >= len(r.l.layers) || !reflect.DeepEqual(layer, r.l.layers[layerNr]) {
		what = "another layer"
	}
	if !reflect.DeepEqual(o, r.l.o) {
		what += " other options"
	}
	b.AddComment("%s %d", r.name, layerNr)
	return r.l.call("render %s %s %d of %d at %d", r.name, what, layerNr, maxLayer, z)
}

// nameLists are all lists of up to n of the names.
func nameLists(n int, names ...string) (out [][]string) {
	out = [][]string{nil}
	for from := 0; n > 0; n-- {
		to := len(out)
		for _, l := range out[from:to] {
			for _, x := range names {
				out = append(out, append(l[:len(l):len(l)], x))
			}
		}
		from = to
	}
	return out
}

func list[T any](x ...T) []T { return x }

// difference of the calls; each Init only has to come before the first call of its step.
func callsDiffer(want, got []string) string {
	split := func(calls []string) (rest, inits []string) {
		for _, s := range calls {
			if strings.HasPrefix(s, "init ") {
				inits = append(inits, s)
			} else {
				rest = append(rest, s)
			}
		}
		return
	}
	w, _ := split(want)
	g, _ := split(got)
	if fmt.Sprint(w) != fmt.Sprint(g) {
		return fmt.Sprintf("the steps are %q instead of %q", g, w)
	}
	// before each step there are as many calls of its Init as there are steps of the name so far, at the end not more than wanted
	inits, steps := map[string]int{}, map[string]int{}
	for _, s := range got {
		f := strings.SplitN(s, " with ", 2)
		switch {
		case strings.HasPrefix(s, "init "):
			if f[1] != "model" {
				return s
			}
			inits[f[0][5:]]++
		case strings.HasPrefix(s, "modify "):
			name := f[0][7:]
			steps[name]++
			if inits[name] < steps[name] {
				return fmt.Sprintf("%q is run before its initialization", name)
			}
		case strings.HasPrefix(s, "generate "):
			if inits["generator"] != 1 {
				return "the generator is not initialized exactly once"
			}
		}
	}
	return ""
}

func ownRuns(c *Ctx) {
	sc := stepScenes()[0]
	lists := nameLists(4, "", "A", "Perimeter")
	// fails: 0 none, 1 reader, 2 optimizer, 3 slicer, 4 generator, 5 writer, from 6 the modifiers
	c.Run("runs of own steps", len(lists)*2*10, func(t *T, i int) {
		names, out, fail := lists[i%len(lists)], i/len(lists)%2, i/len(lists)/2
		t.Key("modifiers %q, output path given: %v, failing: %d", names, out == 1, fail)
		if fail-6 >= len(names) {
			t.Outcome("no such modifier")
			return
		}
		o := baseOpts()
		o.GoSlice.InputFilePath = "model.stl"
		target := "model.stl.gcode"
		if out == 1 {
			o.GoSlice.OutputFilePath = "other.gcode"
			target = "other.gcode"
		}
		om, ls, err := sliceFor(&o, sc)
		if err != nil {
			t.Fail("%v", err)
			return
		}
		l := &runLog{model: sc.mesh(), om: om, layers: append([]data.PartitionedLayer{}, ls...), o: &o}
		s := goslice.NewGoSlice(o)
		s.Reader, s.Optimizer, s.Slicer, s.Generator, s.Writer = ownReader{l}, ownOptimizer{l}, ownSlicer{l}, ownGenerator{l}, ownWriter{l}
		s.Modifiers = nil
		want := []string{"read model.stl", "optimize model", "slice model"}
		all, used := "", map[string]bool{}
		for k, n := range names {
			s.Modifiers = append(s.Modifiers, ownModifier{n, l})
			all += n + ";"
			call := fmt.Sprintf("modify %s with layers", n)
			want = append(want, call)
			if k == fail-6 && used[call] {
				// the first one of this name fails in another case
				t.Outcome("same name")
				return
			}
			used[call] = true
		}
		want = append(want, "generate layers", fmt.Sprintf("write %q to %s", "own gcode", target))
		if fail > 0 {
			k := []int{0, 1, 2, len(want) - 2, len(want) - 1}
			for m := range names {
				k = append(k, 3+m)
			}
			l.fail = want[k[fail-1]]
			want = want[:k[fail-1]+1]
		}
		err = s.Process()
		if fail == 0 && err != nil || fail > 0 && (err == nil || !strings.Contains(err.Error(), "own error")) {
			t.Fail("the result is %v", err)
		}
		if d := callsDiffer(want, l.calls); d != "" {
			t.Fail("%s", d)
		}
		if fail == 0 || fail == 4 || fail == 5 {
			for k, ly := range l.layers {
				if done, _ := ly.Attributes()["done"].(string); done != all {
					t.Fail("layer %d was modified by %q", k, done)
				}
			}
		}
		t.Outcome(len(names), fail, err != nil)
	})

	rlists := nameLists(4, "A", "B")
	thick := [][2]data.Micrometer{{200, 200}, {350, 130}}
	c.Run("own renderers", len(rlists)*4*len(thick)*9, func(t *T, i int) {
		names, count, th, fail := rlists[i%len(rlists)], i/len(rlists)%4, thick[i/len(rlists)/4%len(thick)], i/len(rlists)/4/len(thick)
		t.Key("renderers %q, %d layers of %v, failing: %d", names, count, th, fail)
		o := baseOpts(func(o *data.Options) { o.Print.InitialLayerThickness, o.Print.LayerThickness = th[0], th[1] })
		om, ls, err := sliceFor(&o, sc)
		if err != nil {
			t.Fail("%v", err)
			return
		}
		ls = nil
		for k := 0; k < count; k++ {
			ls = append(ls, ownLayer{data.NewPartitionedLayer(nil), map[string]interface{}{"number": k}})
		}
		l := &runLog{om: om, layers: append([]data.PartitionedLayer{}, ls[:count]...), o: &o}
		opts := list(gcode.WithRenderer(ownRenderer{"A", l}))[:0]
		for _, n := range names {
			opts = append(opts, gcode.WithRenderer(ownRenderer{n, l}))
		}
		var want []string
		text := ""
		for k := 0; k < count; k++ {
			for _, n := range names {
				want = append(want, fmt.Sprintf("render %s layer %d of %d at %d", n, k, count-1, th[0]+data.Micrometer(k)*th[1]))
				text += fmt.Sprintf(";%s %d\n", n, k)
			}
		}
		if fail > 0 {
			if fail > len(want) {
				t.Outcome("no such call")
				return
			}
			l.fail = want[fail-1]
			for k, x := range want {
				if x == l.fail {
					want = want[:k+1]
					break
				}
			}
		}
		g := gcode.NewGenerator(&o, opts...)
		g.Init(om)
		got, err := g.Generate(append([]data.PartitionedLayer{}, ls[:count]...))
		if fail == 0 && (err != nil || got != text) || fail > 0 && (err == nil || got != "" || !strings.Contains(err.Error(), "own error")) {
			t.Fail("the result is %q, %v", got, err)
		}
		inits := map[string]int{}
		var rest []string
		for _, s := range l.calls {
			if strings.HasPrefix(s, "init ") {
				inits[s]++
				if len(rest) > 0 {
					t.Fail("%s after rendering", s)
				}
			} else {
				rest = append(rest, s)
			}
		}
		for _, n := range names {
			inits["init "+n+" with model"]--
		}
		for s, k := range inits {
			if k != 0 {
				t.Fail("%s: %d times too often", s, k)
			}
		}
		if fmt.Sprint(rest) != fmt.Sprint(want) {
			t.Fail("the steps are %q instead of %q", rest, want)
		}
		t.Outcome(len(names), count, fail, err != nil)
	})
}
