package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
)

// ---- C05: the program in other circumstances ----

var (
	clockOnce    sync.Once
	clockProgram string
	clockErr     error
)

// programWithClock builds the goslice command with a clock which is VERIF_CLOCK seconds wrong.
func programWithClock() (string, error) {
	clockOnce.Do(func() {
		out, err := exec.Command("go", "env", "GOROOT").Output()
		if err != nil {
			clockErr = err
			return
		}
		src := filepath.Join(strings.TrimSpace(string(out)), "src", "time", "time.go")
		b, err := os.ReadFile(src)
		if err != nil {
			clockErr = err
			return
		}
		text := string(b)
		// the overlay goes into each place where the seconds of the clock come from
		const old = "func Now() Time {\n\tsec, nsec, mono := runtimeNow()\n"
		const old2 = "func Now() Time {\n\tsec, nsec, mono := now()\n"
		switch {
		case strings.Count(text, old) == 1:
			text = strings.Replace(text, old, old+"\tsec, mono = verifClock(sec, mono)\n", 1)
		case strings.Count(text, old2) == 1:
			text = strings.Replace(text, old2, old2+"\tsec, mono = verifClock(sec, mono)\n", 1)
		default:
			clockErr = fmt.Errorf("no clock found in %s", src)
			return
		}
		text += `
var verifSec int64
var verifInit bool

func verifClock(sec, mono int64) (int64, int64) {
	if !verifInit {
		verifInit = true
		s, _ := syscall.Getenv("VERIF_CLOCK")
		neg := false
		for i := 0; i < len(s); i++ {
			if s[i] == '-' {
				neg = true
			} else {
				verifSec = verifSec*10 + int64(s[i]-'0')
			}
		}
		if neg {
			verifSec = -verifSec
		}
	}
	return sec + verifSec, mono
}
`
		if !strings.Contains(text, "\"syscall\"") {
			text = strings.Replace(text, "import (\n", "import (\n\t\"syscall\"\n", 1)
		}
		dir := filepath.Join(scratchDir(), "clock")
		os.MkdirAll(dir, 0o755)
		mod := filepath.Join(dir, "time.go")
		os.WriteFile(mod, []byte(text), 0o644)
		j, _ := json.Marshal(map[string]map[string]string{"Replace": {src: mod}})
		ov := filepath.Join(dir, "overlay.json")
		os.WriteFile(ov, j, 0o644)
		path := filepath.Join(dir, "goslice")
		cmd := exec.Command("go", "build", "-buildvcs=false", "-overlay", ov, "-o", path, "github.com/aligator/goslice/cmd/goslice")
		cmd.Dir = filepath.Join(verifDir(), "mc")
		if out, err := cmd.CombinedOutput(); err != nil {
			clockErr = fmt.Errorf("%v: %s", err, out)
			return
		}
		clockProgram = path
	})
	return clockProgram, clockErr
}

// circumstance is something a run of the program does not depend on.
type circumstance struct {
	name string
	env  []string
	in   string                 // name of the STL file, below the working directory's folder
	rel  bool                   // the paths are given relative to the working directory
	out  string                 // "" = beside the STL file
	prep func(dir string) error // before the run
}

func circumstances(thorough bool) []circumstance {
	day := 86400
	var r []circumstance
	clocks := []int{1, 61, 3601, day, 31 * day, 366 * day, -day, -20 * 366 * day, 100 * 366 * day}
	for _, c := range clocks {
		r = append(r, circumstance{name: fmt.Sprintf("clock %d s wrong", c), env: []string{fmt.Sprint("VERIF_CLOCK=", c)}})
	}
	for _, z := range []string{"UTC", "Asia/Tokyo", "America/St_Johns", "XXX+11"} {
		r = append(r, circumstance{name: "TZ " + z, env: []string{"TZ=" + z}})
	}
	for _, n := range []int{1, 2, 3, 5, 16, 64} {
		r = append(r, circumstance{name: fmt.Sprintf("%d processors", n), env: []string{fmt.Sprint("GOMAXPROCS=", n)}})
	}
	for _, g := range []string{"off", "1", "20", "500"} {
		r = append(r, circumstance{name: "GOGC " + g, env: []string{"GOGC=" + g}})
	}
	for _, l := range []string{"de_DE.UTF-8", "C", "tr_TR.UTF-8", "ja_JP.eucJP"} {
		r = append(r, circumstance{name: "locale " + l, env: []string{"LANG=" + l, "LC_ALL=" + l, "LC_NUMERIC=" + l, "LANGUAGE=" + l}})
	}
	for _, u := range []string{"nobody", "x y"} {
		r = append(r, circumstance{name: "user " + u, env: []string{"USER=" + u, "LOGNAME=" + u, "HOME=/nonexistent", "HOSTNAME=" + u, "PATH="}})
	}
	for _, f := range []string{"a.stl", "with space.stl", "umlaut \u00e4\u00f6.STL", "no extension", "two.stl.stl", "-dash.stl", "sub/dir/in.stl", "%d%s.stl", strings.Repeat("long", 40) + ".stl", "G1 X0 Y0.stl", "; comment.stl", "line\nbreak.stl"} {
		r = append(r, circumstance{name: fmt.Sprintf("file %q", f), in: f}, circumstance{name: fmt.Sprintf("relative file %q", f), in: f, rel: true})
	}
	for _, f := range []string{"out.g", "other dir/out.gcode", "\u00fc.txt"} {
		r = append(r, circumstance{name: fmt.Sprintf("output %q", f), out: f}, circumstance{name: fmt.Sprintf("relative output %q", f), out: f, rel: true})
	}
	r = append(r, circumstance{name: "output exists", out: "out.g", prep: func(dir string) error {
		return os.WriteFile(filepath.Join(dir, "out.g"), []byte(strings.Repeat("G1 X1 ; old\n", 200000)), 0o644)
	}})
	r = append(r, circumstance{name: "old output beside", prep: func(dir string) error {
		return os.WriteFile(filepath.Join(dir, "in.stl.gcode"), []byte("M84 ; old\n"), 0o644)
	}})
	r = append(r, circumstance{name: "other files beside", prep: func(dir string) error {
		for _, f := range []string{"config", "goslice.yaml", "goslice.json", ".goslice", "goslice.toml", ".goslicerc", "goslice.ini", "start.gcode", "in.gcode", "in.stl.tmp"} {
			if err := os.WriteFile(filepath.Join(dir, f), []byte("layer-thickness: 300\n"), 0o644); err != nil {
				return err
			}
		}
		return nil
	}})
	r = append(r, circumstance{name: "other seeds", env: []string{"GODEBUG=randautoseed=0"}})
	n := 6
	if thorough {
		n = 60
	}
	for i := 0; i < n; i++ {
		r = append(r, circumstance{name: fmt.Sprintf("again (%d)", i)})
	}
	return r
}

// c05Circumstances runs the program in all circumstances.
func c05Circumstances(c *Ctx) {
	type job struct {
		name string
		m    mesh
		args []string
	}
	rows := sceneFromRows(6000, []int64{0, 1000, 1600, 2000}, "####\n#..#\n####\n..#.", "####\n#.##\n####\n....", "#..#\n#..#\n####\n...#")
	s := mesh(rows.mesh())
	jobs := []job{
		{"plain", s, nil},
		{"everything", s, []string{"--support-enabled", "--brim-count", "3", "--skirt-count", "2", "--infill-zig-zag", "--number-top-layers", "2"}},
	}
	cs := circumstances(c.Thorough())
	ref := make([]string, len(jobs))
	var once sync.Once
	c.Run("the program in other circumstances", len(jobs)*len(cs), func(t *T, i int) {
		j, ci := jobs[i/len(cs)], cs[i%len(cs)]
		t.Key("%s: %s", j.name, ci.name)
		once.Do(func() {
			for k := range jobs {
				ref[k], _ = runIn(jobs[k].m, jobs[k].args, circumstance{})
			}
		})
		want := ref[i/len(cs)]
		if want == "" {
			t.Fail("there is no G-code at all")
			return
		}
		got, err := runIn(j.m, j.args, ci)
		if err != nil {
			t.Fail("%v", err)
			return
		}
		if got != want {
			t.Fail("the G-code differs: %s", diffLine(want, got))
		}
		t.Outcome(ci.name, len(got))
	})
}

// runIn runs the program in a folder of its own.
func runIn(m mesh, args []string, ci circumstance) (string, error) {
	p, err := programWithClock()
	if err != nil {
		// no other clock then
		p = program()
	}
	dir, err := os.MkdirTemp(scratchDir(), "circumstance")
	if err != nil {
		return "", err
	}
	defer os.RemoveAll(dir)
	name := ci.in
	if name == "" {
		name = "in.stl"
	}
	in := filepath.Join(dir, name)
	if err := os.MkdirAll(filepath.Dir(in), 0o755); err != nil {
		return "", err
	}
	if err := os.WriteFile(in, stlBinary(m.floats(), "model"), 0o644); err != nil {
		return "", err
	}
	if ci.prep != nil {
		if err := ci.prep(dir); err != nil {
			return "", err
		}
	}
	out := in + ".gcode"
	a := append([]string{}, args...)
	if ci.out != "" {
		out = filepath.Join(dir, ci.out)
		if err := os.MkdirAll(filepath.Dir(out), 0o755); err != nil {
			return "", err
		}
		o := out
		if ci.rel {
			o = ci.out
		}
		a = append(a, "--output="+o)
	}
	if ci.rel {
		a = append(a, "--", name)
	} else {
		a = append(a, "--", in)
	}
	cmd := exec.Command(p, a...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), ci.env...)
	if msg, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("the program fails: %v %s", err, msg)
	}
	b, err := os.ReadFile(out)
	return string(b), err
}
