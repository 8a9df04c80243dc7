package main

import (
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"reflect"
	"strconv"
	"strings"

	goslice "github.com/aligator/goslice"
	"github.com/aligator/goslice/data"
)

// ---- C26: what remains in the process after a run ----
//
// A job differs from the base in exactly one option or in the model. A process of its own tells the result of each job
// alone; any history of jobs in another process has to have the same results.

type variant struct {
	name  string
	model mesh
	opts  data.Options
}

// optionVariants lists o with each single option changed.
func optionVariants(o data.Options) (names []string, opts []data.Options) {
	var walk func(path string, idx []int, t reflect.Type)
	add := func(path string, idx []int, set func(v reflect.Value)) {
		c := o
		set(reflect.ValueOf(&c).Elem().FieldByIndex(idx))
		names, opts = append(names, path), append(opts, c)
	}
	walk = func(path string, idx []int, t reflect.Type) {
		switch {
		case strings.HasSuffix(path, ".Logger") || strings.HasPrefix(path, ".GoSlice"):
		case path == ".Printer.Center":
			for _, d := range [][3]int64{{5000, 0, 0}, {0, -7000, 0}, {0, 0, 200}, {-400000, 300000, 0}} {
				d := d
				add(fmt.Sprint(path, d), idx, func(v reflect.Value) {
					v.Set(reflect.ValueOf(o.Printer.Center.Add(data.NewMicroVec3(data.Micrometer(d[0]), data.Micrometer(d[1]), data.Micrometer(d[2])))))
				})
			}
		case t.Kind() == reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				if t.Field(i).PkgPath == "" {
					walk(path+"."+t.Field(i).Name, append(append([]int{}, idx...), i), t.Field(i).Type)
				}
			}
		case t == reflect.TypeOf(map[int]int{}):
			add(path, idx, func(v reflect.Value) { v.Set(reflect.ValueOf(map[int]int{1: 7, 3: 99})) })
		case t == reflect.TypeOf([]string{}):
			add(path, idx, func(v reflect.Value) { v.Set(reflect.ValueOf([]string{"G28 ; " + path, "M117 x"})) })
		case t.Kind() == reflect.Float32 || t.Kind() == reflect.Float64:
			add(path, idx, func(v reflect.Value) { v.SetFloat(v.Float() + 1.5) })
		case t.Kind() == reflect.Bool:
			add(path, idx, func(v reflect.Value) { v.SetBool(!v.Bool()) })
		case t == reflect.TypeOf(data.Micrometer(0)):
			add(path, idx, func(v reflect.Value) { v.SetInt(v.Int() + 30) })
		case t.Kind() == reflect.Int || t.Kind() == reflect.Int64:
			n := int64(1)
			if strings.HasSuffix(path, "Percent") || strings.HasSuffix(path, "Multiplier") || strings.HasSuffix(path, "Degree") {
				n = 20
			}
			add(path, idx, func(v reflect.Value) { v.SetInt(v.Int() + n) })
		}
	}
	walk("", nil, reflect.TypeOf(o))
	return
}

func c26Variants() (vs []variant) {
	model := sceneFromRows(3000, []int64{0, 400, 600}, "##..\n#...", "####\n#..#").mesh()
	o := baseOpts(func(o *data.Options) {
		o.Print.Support.Enabled = true
		o.Print.Support.TopGapLayers = 0
		o.Print.BrimSkirt.BrimCount = 1
		o.Print.InfillZigZag = true
		o.Print.NumberTopLayers, o.Print.NumberBottomLayers = 1, 1
		o.Print.InfillPercent = 40
		o.Filament.RetractionZHop = 0.5
	})
	vs = append(vs, variant{"base", model, o})
	ms := map[string]mesh{}
	order := []string{}
	m := func(name string, x mesh) { ms[name] = x; order = append(order, name) }
	mapped := func(f func(p v3) v3) mesh {
		var r mesh
		for _, t := range model {
			r = append(r, tri{f(t[0]), f(t[1]), f(t[2])})
		}
		return r
	}
	flip := func(x mesh) mesh {
		var r mesh
		for _, t := range x {
			r = append(r, tri{t[0], t[2], t[1]})
		}
		return r
	}
	m("mirrored", flip(mapped(func(p v3) v3 { return v3{-p.x, p.y, p.z} })))
	m("turned", mapped(func(p v3) v3 { return v3{-p.y, p.x, p.z} }))
	m("half turned", mapped(func(p v3) v3 { return v3{-p.x, -p.y, p.z} }))
	m("wider", mapped(func(p v3) v3 { return v3{p.x * 3 / 2, p.y, p.z} }))
	m("longer", mapped(func(p v3) v3 { return v3{p.x, p.y * 3 / 2, p.z} }))
	m("higher", mapped(func(p v3) v3 { return v3{p.x, p.y, p.z * 2} }))
	m("sheared", mapped(func(p v3) v3 { return v3{p.x + p.y/3, p.y, p.z} }))
	m("other shape with the same bounds", sceneFromRows(3000, []int64{0, 400, 600}, "#..#\n##..", "####\n####").mesh())
	m("other places of the holes", sceneFromRows(3000, []int64{0, 400, 600}, "####\n#..#", "##..\n#..#").mesh())
	m("without any area", mesh{model[0]})
	for _, n := range order {
		vs = append(vs, variant{n, ms[n], o})
	}
	names, opts := optionVariants(o)
	for i := range names {
		vs = append(vs, variant{names[i], model, opts[i]})
	}
	return vs
}

func (v variant) run() (res string) {
	defer func() {
		if r := recover(); r != nil {
			res = fmt.Sprint("panic: ", r)
		}
	}()
	o := v.opts
	o.GoSlice.Logger = quietLog
	s := goslice.NewGoSlice(o)
	s.Reader = memReader{v.model}
	w := &memWriter{}
	s.Writer = w
	if err := s.Process(); err != nil {
		return "error: " + err.Error()
	}
	h := fnv.New64a()
	fmt.Fprint(h, w.gcode)
	return fmt.Sprintf("%016x %d bytes", h.Sum64(), len(w.gcode))
}

func init() {
	// runs the given jobs one after another and prints their results
	helpers["history"] = func(args []string) int {
		vs := c26Variants()
		for _, a := range args {
			i, err := strconv.Atoi(a)
			if err != nil || i < 0 || i >= len(vs) {
				return 2
			}
			fmt.Println(strings.Replace(vs[i].run(), "\n", " ", -1))
		}
		return 0
	}
}

// inProcess runs a history in a process of its own.
func inProcess(h []int) ([]string, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	args := []string{"helper", "history"}
	for _, i := range h {
		args = append(args, strconv.Itoa(i))
	}
	out, err := exec.Command(exe, args...).Output()
	if err != nil {
		return nil, fmt.Errorf("%v: %.200s", err, out)
	}
	return strings.Split(strings.TrimSpace(string(out)), "\n"), nil
}

// processHistories compares the results of histories with those of each job in a process of its own.
func processHistories(c *Ctx) {
	vs := c26Variants()
	solo := make([]string, len(vs))
	c.Run("each job in a process of its own", len(vs), func(t *T, i int) {
		t.Key("%s", vs[i].name)
		for k := 0; k < 2; k++ {
			r, err := inProcess([]int{i})
			if err != nil || len(r) != 1 {
				t.Fail("%v %v", r, err)
				return
			}
			if k == 1 && r[0] != solo[i] {
				t.Fail("two processes have different results: %s and %s", r[0], solo[i])
			}
			solo[i] = r[0]
		}
		t.Outcome(solo[i])
	})
	check := func(t *T, h []int) {
		r, err := inProcess(h)
		if err != nil || len(r) != len(h) {
			t.Fail("%v %v", r, err)
			return
		}
		for k := range h {
			if solo[h[k]] != "" && r[k] != solo[h[k]] {
				var names []string
				for _, x := range h[:k+1] {
					names = append(names, vs[x].name)
				}
				t.Fail("after the runs %v: %s, alone %s", names, r[k], solo[h[k]])
				return
			}
		}
		t.States(len(h), len(h))
		t.Traces(1)
		t.Outcome(h, r)
	}
	c.Run("histories of two jobs in one process", len(vs)*len(vs), func(t *T, i int) {
		a, b := i%len(vs), i/len(vs)
		h := []int{a, b, a}
		t.Key("%s, %s, the first again", vs[a].name, vs[b].name)
		check(t, h)
	})
	if c.Thorough() {
		c.Run("histories of three jobs in one process", len(vs)*len(vs)*len(vs), func(t *T, i int) {
			a, b, d := i%len(vs), i/len(vs)%len(vs), i/len(vs)/len(vs)
			t.Key("%s, %s, %s", vs[a].name, vs[b].name, vs[d].name)
			check(t, []int{a, b, d})
		})
	}
	c.Run("all jobs in one process", 2, func(t *T, i int) {
		var h []int
		for k := range vs {
			if i == 1 {
				k = len(vs) - 1 - k
			}
			h = append(h, k)
		}
		t.Key("direction %d", i)
		check(t, h)
	})
}
