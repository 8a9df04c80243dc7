package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/aligator/goslice/data"
)

// bareCode is the command without comment and superfluous spaces.
func bareCode(l string) string {
	if i := strings.Index(l, ";"); i >= 0 {
		l = l[:i]
	}
	return strings.Join(strings.Fields(l), " ")
}

// hasCode tells if one of the lines is one of the commands.
func hasCode(lines []string, codes ...string) bool {
	for _, l := range lines {
		l = bareCode(l)
		for _, c := range codes {
			if strings.HasPrefix(l, c) && (len(l) == len(c) || l[len(c)] < '0' || l[len(c)] > '9') {
				return true
			}
		}
	}
	return false
}

// expectedCommands lists everything but the moves: before the first layer, in the layers and after the last one.
func expectedCommands(o data.Options, layers int) (pre []string, in [][]string, post []string) {
	st, en := o.Printer.StartGCode.GCodeLines, o.Printer.EndGCode.GCodeLines
	f := o.Filament
	if o.Printer.ForceSafeStartStopGCode {
		if o.Printer.HasHeatedBed && !hasCode(st, "M140", "M190") {
			pre = append(pre, fmt.Sprintf("M190 S%d", f.InitialBedTemperature))
		}
		if !hasCode(st, "M104", "M109") {
			pre = append(pre, fmt.Sprintf("M109 S%d", f.InitialHotEndTemperature))
		}
	}
	for _, l := range st {
		l = strings.ReplaceAll(l, "{print_bed_temperature}", fmt.Sprint(f.InitialBedTemperature))
		l = strings.ReplaceAll(l, "{print_temperature}", fmt.Sprint(f.InitialHotEndTemperature))
		if b := bareCode(l); b != "" {
			pre = append(pre, b)
		}
	}
	pre = append(pre, "G92 E0")
	for k := 0; k < layers; k++ {
		var c []string
		if v, ok := f.FanSpeed.LayerToSpeedLUT[k]; ok {
			if v == 0 {
				c = append(c, "M107")
			} else {
				c = append(c, fmt.Sprintf("M106 S%d", v))
			}
		}
		if k == f.InitialTemperatureLayerCount {
			if o.Printer.HasHeatedBed {
				c = append(c, fmt.Sprintf("M140 S%d", f.BedTemperature))
			}
			c = append(c, fmt.Sprintf("M104 S%d", f.HotEndTemperature))
		}
		sort.Strings(c)
		in = append(in, c)
	}
	if o.Printer.ForceSafeStartStopGCode {
		if !hasCode(en, "M104", "M109") {
			post = append(post, "M104 S0")
		}
		if o.Printer.HasHeatedBed && !hasCode(en, "M140", "M190") {
			post = append(post, "M140 S0")
		}
	}
	for _, l := range en {
		if b := bareCode(l); b != "" {
			post = append(post, b)
		}
	}
	return
}

// checkProtocol compares everything but the moves with the expectation.
func checkProtocol(t *T, o data.Options, g string, layers int) {
	var pre, post []string
	in := make([][]string, layers)
	state, layer := 0, -1
	moved := false
	for n, l := range strings.Split(g, "\n") {
		s := strings.TrimSpace(l)
		if strings.HasPrefix(s, ";LAYER:") {
			layer++
			if s != fmt.Sprintf(";LAYER:%d", layer) || layer >= layers {
				t.Fail("line %d: %s, want layer %d of %d", n+1, s, layer, layers)
				return
			}
			if state == 0 {
				t.Fail("line %d: the first layer begins before the extrusion was reset", n+1)
				return
			}
			moved = false
		}
		if s == ";END_GCODE" {
			state = 2
		}
		b := bareCode(s)
		if b == "" {
			continue
		}
		switch state {
		case 0:
			pre = append(pre, b)
			if b == "G92 E0" {
				state = 1
			}
		case 1:
			if strings.HasPrefix(b, "G0 ") || strings.HasPrefix(b, "G1 ") {
				moved = true
				continue
			}
			if layer < 0 {
				t.Fail("line %d: %s before the first layer", n+1, s)
				return
			}
			if moved {
				t.Fail("line %d: %s in the middle of layer %d", n+1, s, layer)
				return
			}
			in[layer] = append(in[layer], b)
		case 2:
			post = append(post, b)
		}
	}
	if layer != layers-1 {
		t.Fail("%d layers, want %d", layer+1, layers)
		return
	}
	wpre, win, wpost := expectedCommands(o, layers)
	if fmt.Sprint(pre) != fmt.Sprint(wpre) {
		t.Fail("the print starts with %q, want %q", pre, wpre)
		return
	}
	for k := range in {
		sort.Strings(in[k])
		if fmt.Sprint(in[k]) != fmt.Sprint(win[k]) {
			t.Fail("layer %d has the commands %q, want %q", k, in[k], win[k])
			return
		}
	}
	if fmt.Sprint(post) != fmt.Sprint(wpost) {
		t.Fail("the print ends with %q, want %q", post, wpost)
	}
	t.Outcome(fmt.Sprint(pre, in, post))
}

func startHunks() [][]string {
	return [][]string{
		baseOpts().Printer.StartGCode.GCodeLines,
		nil,
		{"G28", "G1 Z5 F5000"},
		{"M104 S{print_temperature}", "M140 S{print_bed_temperature} ; and {print_temperature}", "M117 {print_bed_temperature} of {print_bed_temperature}, {print_temperature}/{print_temperature}"},
		{";M104 S200", "; M190 S60", "G28 ; M109 M140"},
		{"  M109 S210", "M117 100% sure %d %s"},
		{"M190S70", "", "M84"},
	}
}

func endHunks() [][]string {
	return [][]string{
		baseOpts().Printer.EndGCode.GCodeLines,
		nil,
		{"M104 S0", "M140 S0"},
		{";M104 S0", "M117 50% {print_temperature}", "G1 X0 Y0"},
		{"M140 S0 ; M104 S0"},
		{"", "M109 S20", "M84"},
	}
}

func init() {
	register(&Check{ID: "C22", Level: "exploration",
		Rule:   "one evaluation = one print with one combination of temperatures, fan table and start and end commands; all commands but moves are compared; distinct = different command sequences",
		Assume: []string{"the order of fan and temperature commands within one layer is not judged"},
		Run: func(c *Ctx) {
			fans := []map[int]int{{2: 255}, nil, {0: 0, 1: 100, 3: 0}, {0: 255}, {1: 1, 2: 2, 5: 0, 700: 9}}
			counts := []int{3, 0, 1, 2, 6, 7, 99}
			st, en := startHunks(), endHunks()
			n := 4 * len(fans) * len(counts) * len(st) * len(en)
			mk := func(i int) (data.Options, string) {
				k := i
				next := func(n int) int { v := k % n; k /= n; return v }
				flags, fan, count, s, e := next(4), next(len(fans)), next(len(counts)), next(len(st)), next(len(en))
				o := baseOpts(func(o *data.Options) {
					o.Printer.ForceSafeStartStopGCode = flags&1 == 0
					o.Printer.HasHeatedBed = flags&2 == 0
					o.Filament.FanSpeed = data.FanSpeedOptions{LayerToSpeedLUT: fans[fan]}
					o.Filament.InitialTemperatureLayerCount = counts[count]
					o.Filament.InitialBedTemperature, o.Filament.InitialHotEndTemperature = 61, 211
					o.Filament.BedTemperature, o.Filament.HotEndTemperature = 52, 198
					o.Printer.StartGCode = data.NewGCodeHunk(st[s])
					o.Printer.EndGCode = data.NewGCodeHunk(en[e])
				})
				return o, fmt.Sprintf("safe=%v bed=%v fan=%v temperature layers=%d start=%q end=%q", o.Printer.ForceSafeStartStopGCode, o.Printer.HasHeatedBed, fans[fan], counts[count], st[s], en[e])
			}
			// objects with 1 to 7 layers, some of them empty
			g := &grid{xs: []int64{0, 3000}, ys: []int64{0, 3000}}
			objs := []int{1, 3, 127, 93, 64, 5, 15}
			c.Run("settings", n, func(t *T, i int) {
				o, name := mk(i)
				s := newScene(g, 0, 220, 420, 620, 820, 1020, 1220, 1420)
				m := objs[(i/3+i/28)%len(objs)]
				for k := range s.slabs {
					s.slabs[k].on[0] = m>>uint(k)&1 == 1
				}
				o.Print.InfillPercent = 0
				t.Key("%s object %d", name, m)
				p := runPipe(o, s.mesh())
				if p.err != nil {
					t.Fail("%v", p.err)
					return
				}
				checkProtocol(t, o, p.gcode, len(p.layers))
				t.Sample(name)
			})
			// all combinations of equal, different and zero temperatures
			temps := []int{0, 52, 61, 200}
			c.Run("temperatures", 256*8*3, func(t *T, i int) {
				o := baseOpts(func(o *data.Options) {
					o.Filament.InitialBedTemperature, o.Filament.InitialHotEndTemperature = temps[i&3], temps[i>>2&3]
					o.Filament.BedTemperature, o.Filament.HotEndTemperature = temps[i>>4&3], temps[i>>6&3]
					o.Printer.HasHeatedBed = i>>8&1 == 0
					o.Printer.ForceSafeStartStopGCode = i>>9&1 == 0
					if i>>10&1 == 0 {
						o.Printer.StartGCode = data.NewGCodeHunk([]string{"G28"})
						o.Printer.EndGCode = data.NewGCodeHunk([]string{"M84"})
					}
					o.Filament.InitialTemperatureLayerCount = []int{0, 2, 4}[i>>11]
					o.Print.InfillPercent = 0
				})
				t.Key("first %d/%d, then %d/%d bed=%v safe=%v after %d", temps[i&3], temps[i>>2&3], temps[i>>4&3], temps[i>>6&3], o.Printer.HasHeatedBed, o.Printer.ForceSafeStartStopGCode, o.Filament.InitialTemperatureLayerCount)
				s := newScene(g, 0, 820)
				s.slabs[0].on[0] = true
				p := runPipe(o, s.mesh())
				if p.err != nil {
					t.Fail("%v", p.err)
					return
				}
				checkProtocol(t, o, p.gcode, len(p.layers))
			})
			// all objects with up to 7 layers with or without gaps between them
			c.Run("layers", 127*len(counts)*len(fans), func(t *T, i int) {
				s := newScene(g, 0, 220, 420, 620, 820, 1020, 1220, 1420)
				m := i%127 + 1
				for k := range s.slabs {
					s.slabs[k].on[0] = m>>uint(k)&1 == 1
				}
				o := baseOpts(func(o *data.Options) {
					o.Filament.InitialTemperatureLayerCount = counts[i/127%len(counts)]
					o.Filament.FanSpeed = data.FanSpeedOptions{LayerToSpeedLUT: fans[i/127/len(counts)]}
				})
				t.Key("object %d count %d fan %v", m, o.Filament.InitialTemperatureLayerCount, o.Filament.FanSpeed.LayerToSpeedLUT)
				p := runPipe(o, s.mesh())
				if p.err != nil {
					t.Fail("%v", p.err)
					return
				}
				checkProtocol(t, o, p.gcode, len(p.layers))
			})
			// all fan tables over six layers, with one entry behind the last layer
			c.Run("fan tables", 4096*c.Pick(1, 4), func(t *T, i int) {
				s := newScene(g, 0, 200*5+50)
				s.slabs[0].on[0] = true
				o := baseOpts(func(o *data.Options) {
					o.Print.InfillPercent = 0
					o.Print.BrimSkirt.SkirtCount = 0
					lut := map[int]int{}
					for k := 0; k < 6; k++ {
						if v := i >> uint(2*k) & 3; v > 0 {
							lut[k] = []int{0, 255, 40}[v-1]
						}
					}
					o.Filament.FanSpeed = data.FanSpeedOptions{LayerToSpeedLUT: lut}
					o.Filament.InitialTemperatureLayerCount = i / 4096
				})
				t.Key("fan %v, %d layers with the first temperatures", o.Filament.FanSpeed.LayerToSpeedLUT, o.Filament.InitialTemperatureLayerCount)
				p := runPipe(o, s.mesh())
				if p.err != nil {
					t.Fail("%v", p.err)
					return
				}
				checkProtocol(t, o, p.gcode, len(p.layers))
			})
			// one fan entry or the end of the first temperatures anywhere in high objects
			c.Run("high objects", 52*4*3, func(t *T, i int) {
				at := i % 52
				n := []int{50, at + 1, 48, max(at, 1)}[i/52%4]
				s := newScene(g, 0, 200*int64(n)+50)
				s.slabs[0].on[0] = true
				o := baseOpts(func(o *data.Options) {
					o.Print.InfillPercent = 0
					o.Print.BrimSkirt.SkirtCount = 0
					o.Filament.BedTemperature, o.Filament.HotEndTemperature = 52, 198
					lut := map[int]int{at: []int{255, 0, 77}[i/208]}
					if i/52%2 == 1 {
						lut[at+3] = 12
						lut[at/2] = 200
					}
					o.Filament.FanSpeed = data.FanSpeedOptions{LayerToSpeedLUT: lut}
					o.Filament.InitialTemperatureLayerCount = (at + i/52%4*5) % 52
				})
				t.Key("%d layers, fan %v, %d layers with the first temperatures", n, o.Filament.FanSpeed.LayerToSpeedLUT, o.Filament.InitialTemperatureLayerCount)
				p := runPipe(o, s.mesh())
				if p.err != nil {
					t.Fail("%v", p.err)
					return
				}
				checkProtocol(t, o, p.gcode, len(p.layers))
			})
			// the detection of commands in hunks
			var lines []string
			for _, a := range []string{"", " ", ";", "; ", "\t"} {
				for _, b := range []string{"", "M104", "M109", "M140", "M190", "G28", "M84", "T0"} {
					for _, d := range []string{"", " S0", " ;x", " M104"} {
						lines = append(lines, a+b+d)
					}
				}
			}
			nl := len(lines)
			c.Run("hunks of two lines", nl*nl, func(t *T, i int) {
				h := []string{lines[i%nl], lines[i/nl]}
				t.Key("%q", h)
				gh := data.NewGCodeHunk(h)
				var want []string
				for _, l := range h {
					if f := strings.Fields(l); len(f) > 0 && (f[0][0] == 'G' || f[0][0] == 'M') {
						want = append(want, f[0])
					}
				}
				if got := gh.GetInstructionCode(); fmt.Sprint(got) != fmt.Sprint(want) {
					t.Fail("the codes are %q, want %q", got, want)
				}
				for _, codes := range [][]string{{"M104", "M109"}, {"M140", "M190"}, {"M84"}, {}} {
					w := false
					for _, x := range want {
						for _, y := range codes {
							w = w || x == y
						}
					}
					if got := gh.DoesInstructionContainCodes(codes); got != w {
						t.Fail("contains %v: %v, want %v", codes, got, w)
					}
				}
				t.Outcome(fmt.Sprint(want))
			})
		}})
}
