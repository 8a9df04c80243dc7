package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/aligator/goslice/clip"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/gcode"
	"github.com/aligator/goslice/gcode/renderer"
	"github.com/aligator/goslice/handler"
	"github.com/aligator/goslice/modifier"
	"github.com/aligator/goslice/slicer"
)

// ---- C29 ----

// stepModifiers are the modifiers in their order.
func stepModifiers(o *data.Options) []handler.LayerModifier {
	return []handler.LayerModifier{
		modifier.NewPerimeterModifier(o),
		modifier.NewInfillModifier(o),
		modifier.NewInternalInfillModifier(o),
		modifier.NewBrimModifier(o),
		modifier.NewSupportDetectorModifier(o),
		modifier.NewSupportGeneratorModifier(o),
	}
}

var stepNames = []string{"perimeters", "top and bottom", "internal infill", "brim", "support detector", "support generator"}

// stepRenderers are the renderers of the program in their order, without those at the beginning and the end.
func stepRenderers(o *data.Options) []gcode.Renderer {
	w := o.Printer.ExtrusionWidth
	sp := o.Print.Support.PatternSpacing.ToMicrometer()
	fill := func(attr, comment string, f func(lo, hi data.MicroPoint) clip.Pattern) gcode.Renderer {
		return &renderer.Infill{AttrName: attr, Comments: []string{comment}, PatternSetup: f}
	}
	return []gcode.Renderer{
		renderer.Skirt{},
		renderer.Brim{},
		renderer.Perimeter{},
		fill("support", "TYPE:SUPPORT", func(lo, hi data.MicroPoint) clip.Pattern {
			return clip.NewLinearPattern(w, sp, lo, hi, 90, false, true)
		}),
		fill("supportInterface", "TYPE:INTERFACE", func(lo, hi data.MicroPoint) clip.Pattern { return clip.NewLinearPattern(w, w, lo, hi, 0, false, true) }),
		fill("bottom", "TYPE:BOTTOM", func(lo, hi data.MicroPoint) clip.Pattern { return clip.NewLinearPattern(w, w, lo, hi, 45, true, false) }),
		fill("top", "TYPE:TOP", func(lo, hi data.MicroPoint) clip.Pattern { return clip.NewLinearPattern(w, w, lo, hi, 45, true, false) }),
		fill("infill", "TYPE:INTERNAL", func(lo, hi data.MicroPoint) clip.Pattern {
			return clip.NewLinearPattern(w, 4*w, lo, hi, 45, true, false)
		}),
	}
}

var rendererNames = []string{"skirt", "brim", "perimeter", "support", "interface", "bottom", "top", "infill"}

// render prints the layers with own renderers.
func render(o *data.Options, om data.OptimizedModel, layers []data.PartitionedLayer, rs ...gcode.Renderer) (string, error) {
	// a generator is made out of options of an unexported type, so that they have to be given one by one
	all := append(append([]gcode.Renderer{renderer.PreLayer{}}, rs...), renderer.PostLayer{})
	for len(all) < 12 {
		all = append(all, noRenderer{})
	}
	r := func(i int) gcode.Renderer { return all[i] }
	g := gcode.NewGenerator(o, gcode.WithRenderer(r(0)), gcode.WithRenderer(r(1)), gcode.WithRenderer(r(2)), gcode.WithRenderer(r(3)),
		gcode.WithRenderer(r(4)), gcode.WithRenderer(r(5)), gcode.WithRenderer(r(6)), gcode.WithRenderer(r(7)), gcode.WithRenderer(r(8)),
		gcode.WithRenderer(r(9)), gcode.WithRenderer(r(10)), gcode.WithRenderer(r(11)))
	g.Init(om)
	return g.Generate(layers)
}

type noRenderer struct{}

func (noRenderer) Init(data.OptimizedModel) {}
func (noRenderer) Render(*gcode.Builder, int, int, data.PartitionedLayer, data.Micrometer, *data.Options) error {
	return nil
}

// showAttr writes down the areas of an attribute.
func showAttr(v interface{}) string {
	switch a := v.(type) {
	case nil:
		return "none"
	case []data.LayerPart:
		return showParts(a)
	case [][]data.LayerPart:
		var s []string
		for _, p := range a {
			s = append(s, showParts(p))
		}
		return fmt.Sprint(s)
	case clip.OffsetResult:
		var s []string
		for _, p := range a {
			s = append(s, showAttr(p))
		}
		return fmt.Sprint(s)
	}
	return fmt.Sprintf("%T", v)
}

// stepAttrs tells on which steps each attribute builds and in which layers.
var stepAttrs = []struct {
	name string
	need int
	from int // the first layer for which the need is complete
}{
	{"perimeters", 1, 0},
	{"overlapPerimeters", 1, 0},
	{"bottom", 1 | 2, 0},
	{"top", 1 | 2, 0},
	{"infill", 1 | 2 | 4, 0},
	{"brim", 1 | 8, 0},
	{"outerBrim", 1 | 8, 0},
	{"fullSupport", 16 | 32, 0},
	{"support", 16 | 32, 1},
	{"supportInterface", 16 | 32, 1},
	{"support", 1 | 8 | 16 | 32, 0},
	{"supportInterface", 1 | 8 | 16 | 32, 0},
}

// ownLayer is a layer of somebody else.
type ownLayer struct {
	data.PartitionedLayer
	attrs map[string]interface{}
}

func (l ownLayer) Attributes() map[string]interface{} { return l.attrs }

// inject adds an attribute to some layers.
type inject struct {
	name  string
	value interface{}
	only  func(layer int) bool
}

func (m inject) GetName() string          { return "inject" }
func (m inject) Init(data.OptimizedModel) {}
func (m inject) Modify(layers []data.PartitionedLayer) error {
	for i, l := range layers {
		if !m.only(i) {
			continue
		}
		a := map[string]interface{}{}
		for k, v := range l.Attributes() {
			a[k] = v
		}
		a[m.name] = m.value
		layers[i] = ownLayer{l, a}
	}
	return nil
}

func stepScenes() (out []*scene) {
	g := &grid{xs: []int64{0, 4000, 7500, 12000}, ys: []int64{0, 5000, 9000, 13000}}
	for _, ms := range [][]int{
		{511}, {511 - 16}, {0x155}, {7, 7, 511, 511}, {0x1ef, 0x1ef, 511}, {511, 511, 16, 16, 511}, {1, 1, 1, 511, 1}, {0x145, 0x145, 0x145, 0x1ff},
		{511, 0, 511}, {0, 511}, {2, 2, 7, 7, 0x3f}, {0x1ff, 0x1ef, 0x1ef, 0x1ff, 0x10, 0x10},
	} {
		s := newScene(g)
		s.zs = []int64{0}
		for i, m := range ms {
			s.zs = append(s.zs, int64(i+1)*420+30)
			s.slabs = append(s.slabs, cellsFromMask(g, m))
		}
		out = append(out, s)
	}
	return
}

func stepSets() []printSet {
	return []printSet{
		{"support", func(o *data.Options) { o.Print.Support.Enabled = true }},
		{"support, brim", func(o *data.Options) {
			o.Print.Support.Enabled = true
			o.Print.BrimSkirt.BrimCount = 3
			o.Print.Support.TopGapLayers = 1
		}},
		{"no support, brim, one wall", func(o *data.Options) {
			o.Print.BrimSkirt.BrimCount = 2
			o.Print.InsetCount = 1
			o.Print.NumberBottomLayers, o.Print.NumberTopLayers = 1, 2
		}},
		{"no walls, support, no skirt", func(o *data.Options) {
			o.Print.Support.Enabled = true
			o.Print.InsetCount = 0
			o.Print.BrimSkirt.SkirtCount = 0
			o.Print.BrimSkirt.BrimCount = 1
			o.Print.NumberBottomLayers = 0
		}},
	}
}

// sliceFor makes the layers of an object for own steps.
func sliceFor(o *data.Options, s *scene) (data.OptimizedModel, []data.PartitionedLayer, error) {
	om, err := optimize(o, s.mesh())
	if err != nil {
		return nil, nil, err
	}
	l, err := slicer.NewSlicer(o).Slice(om)
	return om, l, err
}

// runSteps applies modifiers.
func runSteps(om data.OptimizedModel, ls []data.PartitionedLayer, ms ...handler.LayerModifier) error {
	for _, m := range ms {
		m.Init(om)
		if err := m.Modify(ls); err != nil {
			return err
		}
	}
	return nil
}

func showLayerParts(ls []data.PartitionedLayer) string {
	var s []string
	for _, l := range ls {
		s = append(s, showParts(l.LayerParts()))
	}
	return strings.Join(s, "|")
}

// printedLines lists the lines of a program with their material and speed.
func printedLines(pr *prog, typ func(string) bool) []string {
	var out []string
	for _, m := range printing(pr) {
		if m.extrudes() && typ(m.typ) {
			out = append(out, fmt.Sprintf("%d %s %d,%d-%d,%d z%d f%v", m.layer, m.typ, m.x0, m.y0, m.x1, m.y1, m.z1, m.f))
		}
	}
	return out
}

func stepsCheck(c *Ctx) {
	scenes, sets := stepScenes(), stepSets()
	n := len(scenes) * len(sets)
	c.Run("selections of modifiers", n*64, func(t *T, i int) {
		s, st, mask := scenes[i%len(scenes)], sets[i/len(scenes)%len(sets)], i/n
		var names []string
		for b, x := range stepNames {
			if mask>>uint(b)&1 == 1 {
				names = append(names, x)
			}
		}
		t.Key("%v %s, only %v", s, st.name, names)
		o := baseOpts(st.f)
		om, ls, err := sliceFor(&o, s)
		if err != nil {
			t.Fail("%v", err)
			return
		}
		before := showLayerParts(ls)
		full := append([]data.PartitionedLayer{}, ls...)
		part := append([]data.PartitionedLayer{}, ls...)
		if err := runSteps(om, full, stepModifiers(&o)...); err != nil {
			t.Fail("%v", err)
			return
		}
		// new layers, so that nothing is shared with the full run
		om, part, err = sliceFor(&o, s)
		if err != nil {
			t.Fail("%v", err)
			return
		}
		var ms []handler.LayerModifier
		for b, m := range stepModifiers(&o) {
			if mask>>uint(b)&1 == 1 {
				ms = append(ms, m)
			}
		}
		if err := runSteps(om, part, ms...); err != nil {
			t.Fail("with only %v: %v", names, err)
			return
		}
		for _, x := range [][]data.PartitionedLayer{full, part} {
			if got := showLayerParts(x); got != before {
				t.Fail("the steps changed the parts of the layers from %s to %s", before, got)
				return
			}
		}
		for _, a := range stepAttrs {
			if mask&a.need != a.need {
				continue
			}
			for l := a.from; l < len(ls); l++ {
				want, got := showAttr(full[l].Attributes()[a.name]), showAttr(part[l].Attributes()[a.name])
				if want != got {
					t.Fail("%s of layer %d with only %v: %s, with all steps: %s", a.name, l, names, got, want)
					return
				}
				t.Outcome(a.name, got)
			}
		}
		g, err := render(&o, om, part, stepRenderers(&o)...)
		if err != nil {
			t.Fail("rendering with only %v: %v", names, err)
			return
		}
		parseGCode(g).check(t)
	})
	c.Run("selections of renderers", n*8, func(t *T, i int) {
		s, st, upper := scenes[i%len(scenes)], sets[i/len(scenes)%len(sets)], i/n
		t.Key("%v %s, the selections %d to %d of the renderers", s, st.name, upper*32, upper*32+31)
		o := baseOpts(st.f)
		om, ls, err := sliceFor(&o, s)
		if err == nil {
			err = runSteps(om, ls, stepModifiers(&o)...)
		}
		if err != nil {
			t.Fail("%v", err)
			return
		}
		all := func(string) bool { return true }
		alone := make([][]string, len(rendererNames))
		for b := range alone {
			g, err := render(&o, om, ls, stepRenderers(&o)[b])
			if err != nil {
				t.Fail("%v", err)
				return
			}
			alone[b] = printedLines(parseGCode(g), all)
		}
		for mask := upper * 32; mask < upper*32+32; mask++ {
			var names, want []string
			var rs []gcode.Renderer
			empty := false
			for b, r := range stepRenderers(&o) {
				if mask>>uint(b)&1 == 1 {
					names = append(names, rendererNames[b])
					rs = append(rs, r)
					want = append(want, alone[b]...)
					empty = empty || len(alone[b]) == 0
				}
			}
			if empty && !c.Thorough() {
				continue // the same as without it
			}
			g, err := render(&o, om, ls, rs...)
			if err != nil {
				t.Fail("%v: %v", names, err)
				return
			}
			pr := parseGCode(g)
			pr.check(t)
			got := printedLines(pr, all)
			sort.Strings(got)
			sort.Strings(want)
			if d := diffLines(got, want); d != "" {
				t.Fail("together the renderers %v print other lines than alone: %s", names, d)
				return
			}
			t.Outcome(len(got), mask)
		}
	})
	// own attributes
	c.Run("own attributes", n*7*4, func(t *T, i int) {
		s, st := scenes[i%len(scenes)], sets[i/len(scenes)%len(sets)]
		at, which := i/n%7, i/n/7
		only := func(l int) bool {
			return which == 0 || which == 1 && l%2 == 1 || which == 2 && l == 0 || which == 3 && l >= 1
		}
		t.Key("%v %s, own attribute at step %d (layers %d)", s, st.name, at, which)
		o := baseOpts(st.f)
		om, ls, err := sliceFor(&o, s)
		if err != nil {
			t.Fail("%v", err)
			return
		}
		ref := append([]data.PartitionedLayer{}, ls...)
		parts := showLayerParts(ls)
		own := []data.LayerPart{data.NewBasicLayerPart(ring{{50000, 50000}, {58000, 50000}, {58000, 56000}, {50000, 56000}}.path(), nil)}
		ms := stepModifiers(&o)
		ms = append(ms[:at:at], append([]handler.LayerModifier{inject{"mine", own, only}}, ms[at:]...)...)
		if err := runSteps(om, ls, ms...); err != nil {
			t.Fail("%v", err)
			return
		}
		if err := runSteps(om, ref, stepModifiers(&o)...); err != nil {
			t.Fail("%v", err)
			return
		}
		for l := range ls {
			v, ok := ls[l].Attributes()["mine"]
			if ok != only(l) {
				t.Fail("layer %d has the own attribute: %v, want %v", l, ok, only(l))
				return
			}
			if ok && !reflect.DeepEqual(v, own) {
				t.Fail("the own attribute of layer %d became %v", l, v)
				return
			}
			p, err := modifier.PartsAttribute(ls[l], "mine")
			if err != nil || ok && len(p) != 1 || !ok && p != nil {
				t.Fail("PartsAttribute of layer %d: %v %v", l, p, err)
				return
			}
		}
		if got := showLayerParts(ls); got != parts {
			t.Fail("the parts of the layers changed from %s to %s", parts, got)
			return
		}
		mine := &renderer.Infill{AttrName: "mine", Comments: []string{"TYPE:MINE"}, PatternSetup: func(lo, hi data.MicroPoint) clip.Pattern {
			return clip.NewLinearPattern(400, 1000, data.NewMicroPoint(50000, 50000), data.NewMicroPoint(58000, 56000), 0, false, false)
		}}
		rs := stepRenderers(&o)
		k := i % (len(rs) + 1)
		rs = append(rs[:k:k], append([]gcode.Renderer{mine}, rs[k:]...)...)
		g, err := render(&o, om, ls, rs...)
		if err != nil {
			t.Fail("%v", err)
			return
		}
		h, err := render(&o, om, ref, stepRenderers(&o)...)
		if err != nil {
			t.Fail("%v", err)
			return
		}
		pr := parseGCode(g)
		pr.check(t)
		rest := func(s string) bool { return s != "MINE" }
		if d := diffLines(printedLines(pr, rest), printedLines(parseGCode(h), rest)); d != "" {
			t.Fail("an own attribute changes what is printed: %s", d)
			return
		}
		lines := map[int]int{}
		for _, m := range printing(pr) {
			if m.extrudes() && m.typ == "MINE" {
				lines[m.layer]++
			}
		}
		for l := range ls {
			if (lines[l] > 0) != only(l) {
				t.Fail("the own renderer prints %d lines in layer %d", lines[l], l)
				return
			}
		}
		t.Outcome(lines, len(pr.moves))
	})
	// wrong types
	refs := make([]struct {
		once sync.Once
		g    string
	}, n)
	names := []string{"perimeters", "overlapPerimeters", "bottom", "top", "infill", "brim", "outerBrim", "fullSupport", "support", "supportInterface"}
	values := wrongValues()
	c.Run("attributes of wrong types", len(names)*len(values)*7*len(scenes)*c.Pick(1, len(sets)), func(t *T, i int) {
		name, v := names[i%len(names)], values[i/len(names)%len(values)]
		k := i / len(names) / len(values)
		at, s, st := k%7, scenes[k/7%len(scenes)], sets[(k/7/len(scenes)+1)%len(sets)]
		if fmt.Sprintf("%T", v.v) == attrType(name) {
			return
		}
		o := baseOpts(st.f)
		om, ls, err := sliceFor(&o, s)
		if err != nil {
			t.Fail("%v", err)
			return
		}
		layer := (i * 7) % len(ls)
		t.Key("%v %s, %s is %s before step %d in layer %d", s, st.name, name, v.name, at, layer)
		ms := stepModifiers(&o)
		ms = append(ms[:at:at], append([]handler.LayerModifier{inject{name, v.v, func(l int) bool { return l == layer }}}, ms[at:]...)...)
		err = runSteps(om, ls, ms...)
		g := ""
		if err == nil {
			g, err = render(&o, om, ls, stepRenderers(&o)...)
		}
		if err != nil {
			t.Outcome(name, at, v.name, "error")
			return
		}
		ref := &refs[k/7]
		ref.once.Do(func() {
			o := baseOpts(st.f)
			om, ls, err := sliceFor(&o, s)
			if err == nil {
				err = runSteps(om, ls, stepModifiers(&o)...)
			}
			if err == nil {
				ref.g, err = render(&o, om, ls, stepRenderers(&o)...)
			}
			if err != nil {
				ref.g = err.Error()
			}
		})
		if g != ref.g {
			t.Fail("the wrong attribute changes the G-code without an error")
		}
		t.Outcome(name, at, v.name, "ignored")
	})
	// reading attributes
	access := accessors()
	c.Run("reading attributes", len(access)*(len(names)+2)*(len(values)+3), func(t *T, i int) {
		a, k := access[i%len(access)], i/len(access)
		names := append([]string{"", "another"}, names...)
		name := names[k%len(names)]
		k /= len(names)
		t.Key("%s of a layer with %q number %d", a.name, name, k)
		var l data.PartitionedLayer = data.NewPartitionedLayer([]data.LayerPart{})
		right := false
		var val interface{}
		switch {
		case k == 0: // no attributes at all
		case k == 1:
			l = ownLayer{l, map[string]interface{}{}}
		case k == 2:
			m := map[string]interface{}{}
			for _, n := range names {
				m[n] = rightValue(n)
			}
			l, right, val = ownLayer{l, m}, true, rightValue(a.attr)
		default:
			val = values[k-3].v
			l = ownLayer{l, map[string]interface{}{name: val}}
			right = name == a.attr && fmt.Sprintf("%T", val) == attrType(name)
		}
		got, err := a.f(l)
		switch {
		case right:
			if err != nil || showAttr(got) != showAttr(val) {
				t.Fail("%v instead of %v, %v", showAttr(got), showAttr(val), err)
			}
		case k > 2 && name == a.attr:
			if err == nil {
				t.Fail("the value %T is accepted", val)
			}
			if !isNil(got) {
				t.Fail("there is a result %v besides the error", got)
			}
		default:
			if err != nil || !isNil(got) {
				t.Fail("%v, %v instead of nothing", got, err)
			}
		}
		t.Outcome(a.name, right, err != nil)
	})
}

func isNil(v interface{}) bool { return v == nil || reflect.ValueOf(v).Len() == 0 }

type namedValue struct {
	name string
	v    interface{}
}

func wrongValues() []namedValue {
	p := data.NewBasicLayerPart(ring{{0, 0}, {9000, 0}, {0, 9000}}.path(), nil)
	return []namedValue{
		{"a number", 17}, {"a text", "parts"}, {"a part", p},
		{"parts", []data.LayerPart{p}}, {"lists of parts", [][]data.LayerPart{{p}}}, {"insets", clip.OffsetResult{{{p}}}},
		{"no parts", []data.LayerPart{}}, {"paths", data.Paths{p.Outline()}}, {"pointer", &[]data.LayerPart{p}},
		{"raw insets", [][][]data.LayerPart{{{p}}}}, {"an error", errors.New("x")},
	}
}

func attrType(name string) string {
	switch name {
	case "perimeters", "brim":
		return fmt.Sprintf("%T", clip.OffsetResult{})
	case "overlapPerimeters":
		return fmt.Sprintf("%T", [][]data.LayerPart{})
	}
	return fmt.Sprintf("%T", []data.LayerPart{})
}

func rightValue(name string) interface{} {
	p := []data.LayerPart{data.NewBasicLayerPart(ring{{0, 0}, {9000 + int64(len(name)), 0}, {0, 9000}}.path(), nil)}
	switch name {
	case "perimeters", "brim":
		return clip.OffsetResult{{p, p}, {p}}
	case "overlapPerimeters":
		return [][]data.LayerPart{p, p}
	}
	return p
}

type accessor struct {
	name, attr string
	f          func(l data.PartitionedLayer) (interface{}, error)
}

func accessors() []accessor {
	out := []accessor{
		{"Perimeters", "perimeters", func(l data.PartitionedLayer) (interface{}, error) { return modifier.Perimeters(l) }},
		{"OverlapPerimeters", "overlapPerimeters", func(l data.PartitionedLayer) (interface{}, error) { return modifier.OverlapPerimeters(l) }},
		{"BottomInfill", "bottom", func(l data.PartitionedLayer) (interface{}, error) { return modifier.BottomInfill(l) }},
		{"TopInfill", "top", func(l data.PartitionedLayer) (interface{}, error) { return modifier.TopInfill(l) }},
		{"Brim", "brim", func(l data.PartitionedLayer) (interface{}, error) { return modifier.Brim(l) }},
		{"BrimOuterDimension", "outerBrim", func(l data.PartitionedLayer) (interface{}, error) { return modifier.BrimOuterDimension(l) }},
		{"FullSupport", "fullSupport", func(l data.PartitionedLayer) (interface{}, error) { return modifier.FullSupport(l) }},
	}
	for _, n := range []string{"support", "supportInterface", "infill", "another"} {
		n := n
		out = append(out, accessor{"PartsAttribute " + n, n, func(l data.PartitionedLayer) (interface{}, error) { return modifier.PartsAttribute(l, n) }})
	}
	return out
}

func diffLines(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "nothing", "nothing"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("%s instead of %s (%d and %d lines)", x, y, len(a), len(b))
		}
	}
	return ""
}

// ---- C30 ----

func readBinarySTL(b []byte) ([][3][3]float32, error) {
	if len(b) < 84 {
		return nil, fmt.Errorf("only %d bytes", len(b))
	}
	n := int(binary.LittleEndian.Uint32(b[80:]))
	if len(b) != 84+50*n {
		return nil, fmt.Errorf("%d bytes for %d triangles", len(b), n)
	}
	var out [][3][3]float32
	for i := 0; i < n; i++ {
		var f [3][3]float32
		for k := 0; k < 3; k++ {
			for a := 0; a < 3; a++ {
				f[k][a] = math.Float32frombits(binary.LittleEndian.Uint32(b[84+50*i+12+12*k+4*a:]))
			}
		}
		out = append(out, f)
	}
	return out, nil
}

func checkSaved(t *T, dir string, o *data.Options, om data.OptimizedModel) {
	file := filepath.Join(dir, fmt.Sprintf("%s-%d.stl", strings.ReplaceAll(t.section, " ", "_"), t.index))
	defer os.Remove(file)
	if err := om.SaveDebugSTL(file); err != nil {
		t.Fail("%v", err)
		return
	}
	b, err := os.ReadFile(file)
	if err != nil {
		t.Fail("%v", err)
		return
	}
	got, err := readBinarySTL(b)
	if err != nil {
		t.Fail("%v", err)
		return
	}
	if len(got) != om.FaceCount() {
		t.Fail("%d triangles instead of %d", len(got), om.FaceCount())
		return
	}
	for i, f := range got {
		p := om.OptimizedFace(i).Points()
		if q := om.Face(i).Points(); fmt.Sprint(p) != fmt.Sprint(q) {
			t.Fail("face %d: %v and %v", i, p, q)
			return
		}
		for k := range p {
			for a, v := range []data.Micrometer{p[k].X(), p[k].Y(), p[k].Z()} {
				if data.Micrometer(math.Round(float64(f[k][a])*1000)) != v {
					t.Fail("face %d, vertex %d: %v in the file, want %v", i, k, f[k], p[k])
					return
				}
			}
		}
	}
	t.Outcome(len(got), bytes.Count(b, []byte{0}))
}

func savedModels(c *Ctx) {
	dir, err := os.MkdirTemp(os.Getenv("MC_SCRATCH"), "saved")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(dir)
	// (three of the points lie on one line)
	pts := []v3{{0, 0, 0}, {2001, 0, 0}, {0, 1000, 500}, {-1000, 300, 1501}, {4002, 0, 0}}
	var tr []tri
	for a := range pts {
		for b := range pts {
			for d := range pts {
				if a != b && b != d && a != d {
					tr = append(tr, tri{pts[a], pts[b], pts[d]})
				}
			}
		}
	}
	k := len(tr)
	c.Run("many faces", 18*2, func(t *T, i int) {
		t.Key("2^%d faces and %d", i/2, i%2)
		var m mesh
		for j := int64(0); j < int64(1)<<uint(i/2)+int64(i%2); j++ {
			a, b := j%300*1000, j/300*1000
			m = append(m, tri{{a, b, 0}, {a + 1000, b, j}, {a, b + 1000, 500}})
		}
		o := baseOpts()
		om, err := optimize(&o, m)
		if err != nil {
			t.Fail("%v", err)
			return
		}
		checkSaved(t, dir, &o, om)
	})
	centers := []v3{{100000, 100000, 0}, {0, 0, 0}, {-50001, 7, 1}, {4000000, -3999999, 12345}}
	n := c.Pick(1+k+k*k, 1+k+k*k+k*k*k)
	c.Run("sequences of faces", n, func(t *T, i int) {
		var m mesh
		for j := i; j > 0; j = (j - 1) / k {
			m = append(m, tr[(j-1)%k])
		}
		ce := centers[i%len(centers)]
		t.Key("%v at %v", m, ce)
		o := baseOpts(func(o *data.Options) { o.Printer.Center = ce.vec() })
		om, err := optimize(&o, m)
		if err != nil {
			t.Fail("%v", err)
			return
		}
		checkSaved(t, dir, &o, om)
	})
	c.Run("objects of 2x2x2 blocks", 255*len(centers), func(t *T, i int) {
		s := polycube(2, 2, 2, i%255+1, 1234, []int64{0, 301, 77777}, i&1)
		ce := centers[i/255]
		t.Key("%v at %v", s, ce)
		o := baseOpts(func(o *data.Options) { o.Printer.Center = ce.vec() })
		om, err := optimize(&o, s.mesh())
		if err != nil {
			t.Fail("%v", err)
			return
		}
		checkSaved(t, dir, &o, om)
	})
	steps := []int64{1, 7, 999, 1000, 1001, 32767, 65536, 1000003, 1999999, 3999999}
	c.Run("all coordinates of a lattice", len(steps)*len(steps)*len(steps), func(t *T, i int) {
		d := v3{steps[i%len(steps)], steps[i/len(steps)%len(steps)], steps[i/len(steps)/len(steps)]}
		t.Key("%v", d)
		o := baseOpts(func(o *data.Options) { o.Printer.Center = (v3{0, 0, 0}).vec() })
		m := mesh{{{0, 0, 0}, {d.x, d.y, d.z}, {d.x, 0, 40 * d.z % 4000000}}}
		om, err := optimize(&o, m)
		if err != nil {
			t.Fail("%v", err)
			return
		}
		checkSaved(t, dir, &o, om)
	})
	c.RunSerial("places which cannot be written", 3*4, func(t *T, i int) {
		o := baseOpts()
		m := mesh{}
		if i/3 > 0 {
			m = polycube(2, 2, 2, 1<<uint(i/3)|1, 1000, []int64{0, 300, 600}, 0).mesh()
		}
		om, err := optimize(&o, m)
		if err != nil {
			t.Fail("%v", err)
			return
		}
		name := []string{filepath.Join(dir, "missing", "a.stl"), dir, ""}[i%3]
		t.Key("%d faces to %s", om.FaceCount(), []string{"a missing directory", "a directory", "no name"}[i%3])
		if err := om.SaveDebugSTL(name); err == nil {
			t.Fail("no error")
		}
		t.Outcome(i)
	})
}

// ---- C31 ----

// rank of each kind of line in the order of printing.
func rank(typ string) int {
	switch typ {
	case "SKIRT":
		return 0
	case "WALL-OUTER", "WALL-INNER":
		return 1
	case "SUPPORT":
		return 2
	case "BOTTOM-FILL":
		return 3
	case "TOP-FILL":
		return 4
	case "INTERNAL-FILL":
		return 5
	}
	return -1
}

func checkOrder(t *T, sec func(layer int) leaver, p *pipe, pr *prog) {
	last, lastTyp, lastLine, layer := -1, "", 0, -1
	for _, m := range printing(pr) {
		if !m.extrudes() {
			continue
		}
		if m.layer != layer {
			if m.layer < layer {
				t.Fail("line %d: layer %d is printed after layer %d", m.line, m.layer, layer)
				return
			}
			layer, last = m.layer, -1
		}
		r := rank(m.typ)
		if r < 0 {
			t.Fail("line %d: what is %q?", m.line, m.typ)
			return
		}
		if r < last {
			t.Fail("line %d: %s after %s (line %d) in layer %d", m.line, m.typ, lastTyp, lastLine, layer)
			return
		}
		last, lastTyp, lastLine = r, m.typ, m.line
	}
	// the walls of each area
	for l, ks := range layerTracks(pr) {
		var n int
		var area func(x, y float64) int
		switch c := sec(l).(type) {
		case cells:
			if c.cornerContact() {
				continue
			}
			var lab []int
			lab, n = c.components(true, false)
			area = func(x, y float64) int {
				i, j := cellAt(c.g.xs, x), cellAt(c.g.ys, y)
				if !c.at(i, j) {
					return -1
				}
				return lab[j*c.g.nx()+i]
			}
		default:
			var parts []region
			for _, q := range p.sliced[l].LayerParts() {
				parts = append(parts, partsRegion([]data.LayerPart{q}))
			}
			n = len(parts)
			area = func(x, y float64) int {
				for i, q := range parts {
					if q.has(x, y) {
						return i
					}
				}
				return -1
			}
		}
		lastInner, firstOuter := make([]int, n), make([]int, n)
		skirts := 0
		for _, k := range ks {
			outer := k.typ == "WALL-OUTER"
			if k.typ == "SKIRT" {
				skirts++
			}
			if !outer && k.typ != "WALL-INNER" {
				continue
			}
			a := area(float64(k.pts[0].x), float64(k.pts[0].y))
			if a < 0 {
				continue
			}
			if outer && firstOuter[a] == 0 {
				firstOuter[a] = k.line
			}
			if !outer {
				lastInner[a] = k.line
			}
		}
		for a := range lastInner {
			if firstOuter[a] != 0 && firstOuter[a] < lastInner[a] {
				t.Fail("the outer perimeter of an area (line %d) is printed before an inner one (line %d)", firstOuter[a], lastInner[a])
				return
			}
			t.Outcome(l, lastInner[a] > 0, firstOuter[a] > 0, skirts)
		}
	}
}

func init() {
	register(&Check{ID: "C29", Level: "exploration",
		Rule:   "one evaluation = one object sliced with a selection of steps, an own step or an attribute of a wrong type; distinct = different results",
		Assume: []string{"the steps which are selected run in their usual order"},
		Run:    func(c *Ctx) { stepsCheck(c); ownRuns(c) }})
	register(&Check{ID: "C30", Level: "exploration",
		Rule:   "one evaluation = one model saved to a file which is read by an own reader; distinct = different files",
		Assume: []string{"coordinates up to 4 m, beyond it float32 holds no micrometers"},
		Run:    savedModels})
	register(&Check{ID: "C31", Level: "exploration",
		Rule:   "one evaluation = one object sliced with one setting; the order of all printed lines is judged",
		Assume: []string{"support and its interface, and skirt and brim, may be printed in any order"},
		Run: func(c *Ctx) {
			printScenes(c, checkOrder)
			scenes := stepScenes()
			c.Run("numbers of walls", len(scenes)*11*2, func(t *T, i int) {
				s := scenes[i%len(scenes)]
				o := baseOpts(func(o *data.Options) {
					o.Print.InsetCount = i / len(scenes) % 11
					o.Print.Support.Enabled = i&1 == 1
					o.Print.BrimSkirt.BrimCount = i / len(scenes) / 11 * 2
				})
				t.Key("%v walls %d", s, o.Print.InsetCount)
				p := runPipe(o, s.mesh())
				if p.err != nil {
					t.Fail("%v", p.err)
					return
				}
				pr := parseGCode(p.gcode)
				pr.check(t)
				checkOrder(t, sectionsOf(s, p), p, pr)
			})
		}})
}
