package main

import (
	"fmt"
	"io"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/aligator/goslice/data"
	"github.com/spf13/pflag"
)

// ---- C24: the command line ----

// leaves lists all single values of the options by their path.
func leafValues(o data.Options) map[string]string {
	r := map[string]string{}
	var walk func(path string, v reflect.Value)
	walk = func(path string, v reflect.Value) {
		if strings.HasSuffix(path, ".Logger") {
			return
		}
		if path == ".Printer.Center" {
			c := v.Interface().(data.MicroVec3)
			r[path] = fmt.Sprintf("%d %d %d", c.X(), c.Y(), c.Z())
			return
		}
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(path+"."+v.Type().Field(i).Name, v.Field(i))
			}
		case reflect.Map:
			var ks []string
			for _, k := range v.MapKeys() {
				ks = append(ks, fmt.Sprintf("%v=%v", k, v.MapIndex(k)))
			}
			sort.Strings(ks)
			r[path] = strings.Join(ks, ",")
		case reflect.Slice:
			var ks []string
			for i := 0; i < v.Len(); i++ {
				ks = append(ks, fmt.Sprintf("%q", v.Index(i).Interface()))
			}
			r[path] = strings.Join(ks, ";")
		case reflect.Float32, reflect.Float64:
			r[path] = fmt.Sprint(v.Float())
		case reflect.Int, reflect.Int64:
			r[path] = fmt.Sprint(v.Int())
		case reflect.Bool:
			r[path] = fmt.Sprint(v.Bool())
		case reflect.String:
			r[path] = fmt.Sprintf("%q", v.String())
		default:
			r[path] = fmt.Sprintf("%#v", v.Interface())
		}
	}
	walk("", reflect.ValueOf(o))
	return r
}

// cliFlag is a flag, the option it stands for, and pairs of an argument and the value it has to give.
type cliFlag struct {
	name, path string
	vals       [][2]string
	bad        []string
}

func um(name, path string) cliFlag {
	return cliFlag{name, path, [][2]string{{"1", "1"}, {"123", "123"}, {"250000", "250000"}, {"3000000000", "3000000000"}}, []string{"", "x", "1.5", "1mm", "99999999999999999999"}}
}

func mm(name, path string) cliFlag {
	return cliFlag{name, path, [][2]string{{"1", "1"}, {"0", "0"}, {"12.5", "12.5"}, {"250", "250"}, {"0.125", "0.125"}}, []string{"", "x", "1,5", "1mm", "1e400"}}
}

func num(name, path string) cliFlag {
	return cliFlag{name, path, [][2]string{{"0", "0"}, {"1", "1"}, {"7", "7"}, {"230", "230"}}, []string{"", "x", "1.5", "5%", "99999999999999999999"}}
}

func yes(name, path string) cliFlag {
	return cliFlag{name, path, [][2]string{{"true", "true"}, {"false", "false"}, {"1", "true"}, {"0", "false"}}, []string{"x", "2"}}
}

var cliFlags = []cliFlag{
	yes("version", ".GoSlice.PrintVersion"),
	{"output", ".GoSlice.OutputFilePath", [][2]string{{"a.gcode", `"a.gcode"`}, {"/tmp/ä b=c.g", `"/tmp/ä b=c.g"`}, {"", `""`}}, nil},
	um("meld-distance", ".Slicing.MeldDistance"),
	um("join-polygon-snap-distance", ".Slicing.JoinPolygonSnapDistance"),
	um("finish-polygon-snap-distance", ".Slicing.FinishPolygonSnapDistance"),
	mm("initial-layer-speed", ".Print.IntialLayerSpeed"),
	mm("layer-speed", ".Print.LayerSpeed"),
	mm("outer-perimeter-speed", ".Print.OuterPerimeterSpeed"),
	mm("move-speed", ".Print.MoveSpeed"),
	um("initial-layer-thickness", ".Print.InitialLayerThickness"),
	um("layer-thickness", ".Print.LayerThickness"),
	num("inset-count", ".Print.InsetCount"),
	num("infill-overlap-percent", ".Print.InfillOverlapPercent"),
	num("additional-internal-infill-overlap-percent", ".Print.AdditionalInternalInfillOverlapPercent"),
	num("infill-percent", ".Print.InfillPercent"),
	num("infill-rotation-degree", ".Print.InfillRotationDegree"),
	yes("infill-zig-zag", ".Print.InfillZigZag"),
	num("number-bottom-layers", ".Print.NumberBottomLayers"),
	num("number-top-layers", ".Print.NumberTopLayers"),
	yes("support-enabled", ".Print.Support.Enabled"),
	num("support-threshold-angle", ".Print.Support.ThresholdAngle"),
	num("support-top-gap-layers", ".Print.Support.TopGapLayers"),
	num("support-interface-layers", ".Print.Support.InterfaceLayers"),
	mm("support-pattern-spacing", ".Print.Support.PatternSpacing"),
	mm("support-gap", ".Print.Support.Gap"),
	num("skirt-count", ".Print.BrimSkirt.SkirtCount"),
	mm("skirt-distance", ".Print.BrimSkirt.SkirtDistance"),
	num("brim-count", ".Print.BrimSkirt.BrimCount"),
	um("filament-diameter", ".Filament.FilamentDiameter"),
	num("initial-bed-temperature", ".Filament.InitialBedTemperature"),
	num("initial-hot-end-temperature", ".Filament.InitialHotEndTemperature"),
	num("bed-temperature", ".Filament.BedTemperature"),
	num("hot-end-temperature", ".Filament.HotEndTemperature"),
	num("initial-temperature-layer-count", ".Filament.InitialTemperatureLayerCount"),
	mm("retraction-speed", ".Filament.RetractionSpeed"),
	mm("retraction-length", ".Filament.RetractionLength"),
	mm("retraction-z-hop", ".Filament.RetractionZHop"),
	{"fan-speed", ".Filament.FanSpeed.LayerToSpeedLUT", [][2]string{{"0=0", "0=0"}, {"3=20,10=40", "10=40,3=20"}, {"1=255,2=0,30=128", "1=255,2=0,30=128"}, {"4=10", "4=10"}},
		[]string{"", "3", "3=256", "3=-1", "-1=3", "a=3", "3=b", "3=2=1", "3=20,", ",3=20", "3=20;4=30", "3 = 20"}},
	num("extrusion-multiplier", ".Filament.ExtrusionMultiplier"),
	um("extrusion-width", ".Printer.ExtrusionWidth"),
	{"center", ".Printer.Center", [][2]string{{"1_2_3", "1 2 3"}, {"-100000_0_200", "-100000 0 200"}, {"0_0_0", "0 0 0"}, {"7_-8_9", "7 -8 9"}},
		[]string{"", "1", "1_2", "1_2_3_4", "1,2,3", "1_2_x", "x_2_3", "1_x_3", "__", "1.5_2_3"}},
	yes("force-safe-gcode", ".Printer.ForceSafeStartStopGCode"),
	yes("has-heated-bed", ".Printer.HasHeatedBed"),
	{"start-gcode", ".Printer.StartGCode.GCodeLines", [][2]string{{"G28\nM107", `"G28";"M107"`}, {"G28 ; 100%\n\nM107 S1=2\n", `"G28 ; 100%";"M107 S1=2"`}}, []string{"G28"}},
	{"end-gcode", ".Printer.EndGCode.GCodeLines", [][2]string{{"M84\nM107", `"M84";"M107"`}, {"\nM84\nM104 S0\nG28,X0", `"M84";"M104 S0";"G28,X0"`}}, []string{"M84"}},
}

var cliMu sync.Mutex

// parseArgs runs the real parsing of a command line.
func parseArgs(args []string) (o data.Options, err error) {
	cliMu.Lock()
	defer cliMu.Unlock()
	oldArgs, oldErr, oldUsage, oldLine := os.Args, os.Stderr, pflag.Usage, pflag.CommandLine
	null, e := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if e != nil {
		return o, e
	}
	os.Stderr = null
	pflag.CommandLine = pflag.NewFlagSet("goslice", pflag.PanicOnError)
	pflag.CommandLine.SetOutput(io.Discard)
	os.Args = append([]string{"goslice"}, args...)
	defer func() {
		os.Args, os.Stderr, pflag.Usage, pflag.CommandLine = oldArgs, oldErr, oldUsage, oldLine
		null.Close()
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	return data.ParseFlags(), nil
}

// expectOptions compares the options with the default ones changed by want.
func expectOptions(t *T, what string, o data.Options, want map[string]string) {
	exp := leafValues(data.DefaultOptions())
	for k, v := range want {
		if _, ok := exp[k]; !ok {
			t.Fail("there is no option %s any more", k)
		}
		exp[k] = v
	}
	got := leafValues(o)
	for k, v := range exp {
		if got[k] != v {
			t.Fail("%s: the option %s is %s and should be %s", what, k, got[k], v)
		}
	}
	for k := range got {
		if _, ok := exp[k]; !ok {
			t.Fail("%s: unexpected option %s", what, k)
		}
	}
	t.Outcome(got)
}

func init() {
	register(&Check{ID: "C24", Level: "exploration",
		Rule:   "one evaluation = one command line through the real parser, or one value through its text form; distinct = different options",
		Assume: []string{"the values of a flag are those of a list; long flags (and the two short ones)"},
		Run: func(c *Ctx) {
			n := len(cliFlags)
			// a flag nobody knows here would not be judged
			c.Run("no flags", 3, func(t *T, i int) {
				args := [][]string{nil, {"model.stl"}, {"model.stl", "ignored.stl"}}[i]
				t.Key("%q", args)
				o, err := parseArgs(args)
				if err != nil {
					t.Fail("%v", err)
					return
				}
				want := map[string]string{}
				if i > 0 {
					want[".GoSlice.InputFilePath"] = `"model.stl"`
				}
				expectOptions(t, t.key, o, want)
			})
			type single struct{ f, v, form int }
			var singles []single
			for f := range cliFlags {
				for v := range cliFlags[f].vals {
					for form := 0; form < 5; form++ {
						singles = append(singles, single{f, v, form})
					}
				}
			}
			c.Run("single flags", len(singles), func(t *T, i int) {
				s := singles[i]
				f := cliFlags[s.f]
				v := f.vals[s.v]
				isBool := v[1] == "true" || v[1] == "false"
				var args []string
				switch s.form {
				case 0:
					args = []string{"in.stl", "--" + f.name + "=" + v[0]}
				case 1:
					args = []string{"--" + f.name + "=" + v[0], "in.stl"}
				case 2:
					args = []string{"in.stl", "--" + f.name, v[0]}
					if isBool {
						args = []string{"in.stl", "--" + f.name + "=" + v[0]}
						if v[0] == "true" {
							args = []string{"in.stl", "--" + f.name}
						}
					}
				case 3:
					// given twice the last one counts
					args = []string{"--" + f.name + "=" + f.vals[(s.v+1)%len(f.vals)][0], "in.stl", "--" + f.name + "=" + v[0]}
				case 4:
					args = []string{"--" + f.name + "=" + v[0], "--", "in.stl"}
					if f.name == "output" {
						args = []string{"in.stl", "-o", v[0]}
					}
					if f.name == "version" && v[0] == "true" {
						args = []string{"-v", "in.stl"}
					}
				}
				t.Key("%q", args)
				o, err := parseArgs(args)
				if err != nil {
					t.Fail("%q: %v", args, err)
					return
				}
				expectOptions(t, t.key, o, map[string]string{f.path: v[1], ".GoSlice.InputFilePath": `"in.stl"`})
			})
			c.Run("pairs of flags", n*n, func(t *T, i int) {
				a, b := i/n, i%n
				if a == b {
					t.Key("the same flag")
					return
				}
				t.Key("%s and %s", cliFlags[a].name, cliFlags[b].name)
				for _, x := range cliFlags[a].vals {
					for _, y := range cliFlags[b].vals {
						o, err := parseArgs([]string{"--" + cliFlags[a].name + "=" + x[0], "x.stl", "--" + cliFlags[b].name + "=" + y[0]})
						if err != nil {
							t.Fail("%q and %q: %v", x[0], y[0], err)
							return
						}
						expectOptions(t, fmt.Sprintf("%s=%q %s=%q", cliFlags[a].name, x[0], cliFlags[b].name, y[0]), o,
							map[string]string{cliFlags[a].path: x[1], cliFlags[b].path: y[1], ".GoSlice.InputFilePath": `"x.stl"`})
					}
				}
			})
			c.Run("triples of flags", n*n, func(t *T, i int) {
				a, b := i/n, i%n
				t.Key("%s, %s and any", cliFlags[a].name, cliFlags[b].name)
				if a >= b {
					return
				}
				for d := b + 1; d < n; d++ {
					for k := 0; k < c.Pick(1, 6); k++ {
						want := map[string]string{}
						var args []string
						for j, f := range []int{a, b, d} {
							v := cliFlags[f].vals[(a+b+d+j+k)%len(cliFlags[f].vals)]
							want[cliFlags[f].path] = v[1]
							args = append(args, "--"+cliFlags[f].name+"="+v[0])
						}
						// each order
						o := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[(a+b+d+k)%6]
						opt, err := parseArgs([]string{args[o[0]], args[o[1]], args[o[2]]})
						if err != nil {
							t.Fail("%q: %v", args, err)
							return
						}
						expectOptions(t, fmt.Sprintf("%q", args), opt, want)
					}
				}
			})
			c.Run("all flags at once", n*4, func(t *T, i int) {
				t.Key("starting at %s, values %d", cliFlags[i%n].name, i/n)
				var args []string
				want := map[string]string{".GoSlice.InputFilePath": `"dir/all.stl"`}
				for k := 0; k < n; k++ {
					f := cliFlags[(i%n+k)%n]
					v := f.vals[(i/n+k)%len(f.vals)]
					args = append(args, "--"+f.name+"="+v[0])
					want[f.path] = v[1]
				}
				o, err := parseArgs(append(args, "dir/all.stl"))
				if err != nil {
					t.Fail("%v", err)
					return
				}
				expectOptions(t, t.key, o, want)
			})
			c.Run("values that make no sense", n, func(t *T, i int) {
				f := cliFlags[i]
				t.Key(f.name)
				for _, b := range f.bad {
					if _, err := parseArgs([]string{"x.stl", "--" + f.name + "=" + b}); err == nil {
						t.Fail("--%s=%q is accepted", f.name, b)
					}
					t.Outcome(b)
				}
				for _, wrong := range []string{"--" + f.name + "x=1", "--no-such-flag", "-q"} {
					if _, err := parseArgs([]string{"x.stl", wrong}); err == nil {
						t.Fail("%s is accepted", wrong)
					}
				}
				if f.vals[0][1] != "true" {
					if _, err := parseArgs([]string{"x.stl", "--" + f.name}); err == nil {
						t.Fail("--%s is accepted without a value", f.name)
					}
				}
			})
			c.Run("defaults are not shared", n, func(t *T, i int) {
				f := cliFlags[i]
				t.Key(f.name)
				before := leafValues(data.DefaultOptions())
				v := f.vals[len(f.vals)-1]
				o, err := parseArgs([]string{"--" + f.name + "=" + v[0]})
				if err != nil {
					t.Fail("%v", err)
					return
				}
				o.Filament.FanSpeed.LayerToSpeedLUT[1234] = 1
				o.Printer.Center.SetX(77)
				if len(o.Printer.StartGCode.GCodeLines) > 0 {
					o.Printer.StartGCode.GCodeLines[0] = "changed"
				}
				d := data.DefaultOptions()
				d.Filament.FanSpeed.LayerToSpeedLUT[99] = 1
				d.Printer.Center.SetY(5)
				d.Printer.EndGCode.GCodeLines[0] = "changed"
				if got := leafValues(data.DefaultOptions()); !reflect.DeepEqual(got, before) {
					t.Fail("the default options have changed")
				}
				t.Outcome(f.name)
			})

			// the text forms
			c.Run("micrometers as text", 4001, func(t *T, i int) {
				for _, f := range []int64{1, 997, 1000003} {
					v := data.Micrometer(int64(i-2000) * f)
					t.Key("%d", int64(v))
					var w data.Micrometer
					if err := w.Set(v.String()); err != nil || w != v {
						t.Fail("%d becomes %q and then %d (%v)", int64(v), v.String(), int64(w), err)
					}
				}
				t.Outcome(i)
			})
			c.Run("millimeters as text", c.Pick(1000001, 10000001), func(t *T, i int) {
				v := data.Micrometer(i - 1000).ToMillimeter()
				t.Key("%v", float32(v))
				var w data.Millimeter
				if err := w.Set(v.String()); err != nil || w.ToMicrometer() != data.Micrometer(i-1000) {
					t.Fail("%v becomes %q and then %v (%v)", float32(v), v.String(), float32(w), err)
				}
				t.Outcome(i)
			})
			vs := []data.Micrometer{0, 1, -1, 15, -200, 100000, -3000000, data.MaxMicrometer, data.MinMicrometer}
			c.Run("points as text", len(vs)*len(vs)*len(vs), func(t *T, i int) {
				k := len(vs)
				v := data.NewMicroVec3(vs[i%k], vs[i/k%k], vs[i/k/k])
				s := v.String()
				t.Key(s)
				o, err := parseArgs([]string{"--center=" + s})
				if err != nil {
					t.Fail("%v", err)
					return
				}
				expectOptions(t, s, o, map[string]string{".Printer.Center": fmt.Sprintf("%d %d %d", v.X(), v.Y(), v.Z())})
			})
			speeds := []int{-1, 0, 1, 127, 255}
			c.Run("fan tables as text", 625, func(t *T, i int) {
				layers := []int{0, 1, 7, 100}
				lut := map[int]int{}
				m := i
				for _, l := range layers {
					if s := speeds[m%5]; s >= 0 {
						lut[l] = s
					}
					m /= 5
				}
				t.Key("%v", lut)
				if len(lut) == 0 {
					return
				}
				var w data.FanSpeedOptions
				v := data.FanSpeedOptions{LayerToSpeedLUT: lut}
				if err := w.Set(v.String()); err != nil || !reflect.DeepEqual(w.LayerToSpeedLUT, lut) {
					t.Fail("%v becomes %q and then %v (%v)", lut, v.String(), w.LayerToSpeedLUT, err)
				}
				// a refused text leaves the table as it was
				if err := w.Set("1=2,3"); err == nil || !reflect.DeepEqual(w.LayerToSpeedLUT, lut) {
					t.Fail("a refused text changes %v to %v (%v)", lut, w.LayerToSpeedLUT, err)
				}
				t.Outcome(lut)
			})
			lines := []string{"G28", "M104 S200 ; 100% hot", " G1 X1", "; comment", "M117 a=b,c_d"}
			c.Run("code as text", 25+125, func(t *T, i int) {
				var ls []string
				k := 2
				if i >= 25 {
					i, k = i-25, 3
				}
				for ; k > 0; k-- {
					ls = append(ls, lines[i%5])
					i /= 5
				}
				t.Key("%q", ls)
				v := data.NewGCodeHunk(ls)
				var w data.GCodeHunk
				if err := w.Set(v.String()); err != nil || !reflect.DeepEqual(w.GCodeLines, ls) {
					t.Fail("%q becomes %q and then %q (%v)", ls, v.String(), w.GCodeLines, err)
				}
				t.Outcome(ls)
			})
		}})
}
