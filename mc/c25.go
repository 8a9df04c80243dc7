package main

import (
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"

	goslice "github.com/aligator/goslice"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/gcode"
	"github.com/aligator/goslice/handler"
	"github.com/aligator/goslice/writer"
)

// ---- C25: errors of any stage ----

// script lets stages fail and records everything that happens.
type script struct {
	fail map[string]error
	log  []string
	bad  []string

	model  data.Model
	om     data.OptimizedModel
	layers []data.PartitionedLayer
	inits  map[string]int
}

func (s *script) step(name string) error {
	s.log = append(s.log, name)
	return s.fail[name]
}

func (s *script) want(ok bool, format string, a ...interface{}) {
	if !ok {
		s.bad = append(s.bad, fmt.Sprintf(format, a...))
	}
}

type fakeOM struct{ mesh }

func (f fakeOM) Size() data.MicroVec3                 { return f.Max().Sub(f.Min()) }
func (f fakeOM) OptimizedFace(int) data.OptimizedFace { return nil }
func (f fakeOM) SaveDebugSTL(filename string) error   { return nil }

type fakeReader struct{ s *script }

func (f fakeReader) Read(name string) (data.Model, error) {
	f.s.want(name == "some/in.stl", "the reader got the path %q", name)
	return f.s.model, f.s.step("read")
}

type fakeOptimizer struct{ s *script }

func (f fakeOptimizer) Optimize(m data.Model) (data.OptimizedModel, error) {
	f.s.want(m != nil && m.FaceCount() == f.s.model.FaceCount(), "the optimizer got another model")
	return f.s.om, f.s.step("optimize")
}

type fakeSlicer struct{ s *script }

func (f fakeSlicer) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
	f.s.want(m != nil && m.FaceCount() == f.s.om.FaceCount(), "the slicer got another model")
	return f.s.layers, f.s.step("slice")
}

type markLayer struct {
	data.PartitionedLayer
	marks []string
}

type fakeModifier struct {
	s    *script
	name string
}

func (f fakeModifier) GetName() string { return f.name }
func (f fakeModifier) Init(m data.OptimizedModel) {
	f.s.want(m != nil && m.FaceCount() == f.s.om.FaceCount(), "the modifier %s was initialized with another model", f.name)
	f.s.inits[f.name]++
}
func (f fakeModifier) Modify(ls []data.PartitionedLayer) error {
	f.s.want(f.s.inits[f.name] == 1, "the modifier %s was initialized %d times", f.name, f.s.inits[f.name])
	f.s.want(len(ls) == len(f.s.layers), "the modifier %s got %d layers", f.name, len(ls))
	for i := range ls {
		m, ok := ls[i].(*markLayer)
		if !ok {
			m = &markLayer{PartitionedLayer: ls[i]}
		}
		ls[i] = &markLayer{PartitionedLayer: m.PartitionedLayer, marks: append(append([]string{}, m.marks...), f.name)}
	}
	return f.s.step(f.name)
}

type fakeGenerator struct {
	s    *script
	mods int
}

func (f fakeGenerator) Init(m data.OptimizedModel) {
	f.s.want(m != nil && m.FaceCount() == f.s.om.FaceCount(), "the generator was initialized with another model")
	f.s.inits["generator"]++
}
func (f fakeGenerator) Generate(ls []data.PartitionedLayer) (string, error) {
	f.s.want(f.s.inits["generator"] == 1, "the generator was initialized %d times", f.s.inits["generator"])
	f.s.want(len(ls) == len(f.s.layers), "the generator got %d layers", len(ls))
	for i := range ls {
		var marks []string
		if m, ok := ls[i].(*markLayer); ok {
			marks = m.marks
		}
		f.s.want(strings.Join(marks, ",") == strings.Join(modNames(f.mods), ","), "layer %d was modified by %q", i, marks)
	}
	return "the code", f.s.step("generate")
}

type fakeWriter struct {
	s   *script
	out string
}

func (f fakeWriter) Write(g string, dest string) error {
	f.s.want(g == "the code", "the writer got %q", g)
	f.s.want(dest == f.out, "the writer got the path %q", dest)
	return f.s.step("write")
}

func modNames(n int) []string {
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, fmt.Sprint("modify", i))
	}
	return r
}

// failing stages around the real ones
type failReader struct {
	handler.ModelReader
	on *bool
}

var errStage = errors.New("stage failed")

func (f failReader) Read(n string) (data.Model, error) {
	m, err := f.ModelReader.Read(n)
	if *f.on {
		return m, errStage
	}
	return m, err
}

type failOptimizer struct {
	handler.ModelOptimizer
	on *bool
}

func (f failOptimizer) Optimize(m data.Model) (data.OptimizedModel, error) {
	o, err := f.ModelOptimizer.Optimize(m)
	if *f.on {
		return o, errStage
	}
	return o, err
}

type failSlicer struct {
	handler.ModelSlicer
	on *bool
}

func (f failSlicer) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
	o, err := f.ModelSlicer.Slice(m)
	if *f.on {
		return o, errStage
	}
	return o, err
}

type failModifier struct {
	handler.LayerModifier
	on *bool
}

func (f failModifier) Modify(l []data.PartitionedLayer) error {
	err := f.LayerModifier.Modify(l)
	if *f.on {
		return errStage
	}
	return err
}

type failGenerator struct {
	handler.GCodeGenerator
	on *bool
}

func (f failGenerator) Generate(l []data.PartitionedLayer) (string, error) {
	g, err := f.GCodeGenerator.Generate(l)
	if *f.on {
		return g, errStage
	}
	return g, err
}

type failRenderer struct {
	name   string
	log    *[]string
	failAt int
	zs     *[]data.Micrometer
	maxes  *[]int
}

func (f failRenderer) Init(m data.OptimizedModel) { *f.log = append(*f.log, "init "+f.name) }
func (f failRenderer) Render(b *gcode.Builder, layerNr int, maxLayer int, layer data.PartitionedLayer, z data.Micrometer, o *data.Options) error {
	*f.log = append(*f.log, fmt.Sprint(f.name, "/", layerNr))
	*f.zs = append(*f.zs, z)
	*f.maxes = append(*f.maxes, maxLayer)
	b.AddCommand("%s of %d", f.name, layerNr)
	if layerNr == f.failAt {
		return errStage
	}
	return nil
}

// program builds the goslice command once.
var programOnce sync.Once
var programPath string

func program() string {
	programOnce.Do(func() {
		programPath = filepath.Join(scratchDir(), "goslice")
		cmd := exec.Command("go", "build", "-buildvcs=false", "-o", programPath, "github.com/aligator/goslice/cmd/goslice")
		cmd.Dir = filepath.Join(verifDir(), "mc")
		if out, err := cmd.CombinedOutput(); err != nil {
			fmt.Fprintf(os.Stderr, "the goslice command does not build: %v\n%s", err, out)
			os.Exit(2)
		}
	})
	return programPath
}

func init() {
	// writes a text once per file size limit; prints what happened
	helpers["fsize"] = func(args []string) int {
		n, _ := strconv.Atoi(args[0])
		step, _ := strconv.Atoi(args[1])
		path := args[2]
		text := codeText(n)
		var hard syscall.Rlimit
		if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &hard); err != nil {
			fmt.Println("SKIP", err)
			return 0
		}
		for l := 0; l <= n+step; l += step {
			os.Remove(path)
			if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(l), Max: hard.Max}); err != nil {
				fmt.Println("SKIP", err)
				return 0
			}
			err := writer.Writer().Write(text, path)
			b, _ := os.ReadFile(path)
			fmt.Println(l, err != nil, string(b) == text)
		}
		return 0
	}
	// runs a program with a limit of the file size
	helpers["limited"] = func(args []string) int {
		l, _ := strconv.Atoi(args[0])
		if l >= 0 {
			if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(l), Max: uint64(l)}); err != nil {
				fmt.Println("SKIP", err)
				return 111
			}
		}
		err := syscall.Exec(args[1], args[1:], os.Environ())
		fmt.Println("SKIP", err)
		return 111
	}
}

// codeText is a text of n bytes.
func codeText(n int) string {
	var b strings.Builder
	for i := 0; b.Len() < n; i++ {
		fmt.Fprintf(&b, "G1 X%d.%02d Y%d ; %% \u00e4\n", i, i%100, i*7)
	}
	return b.String()[:n]
}

func runProgram(limit int, dir string, args ...string) (code int, out string) {
	self, _ := os.Executable()
	cmd := exec.Command(self, append([]string{"helper", "limited", fmt.Sprint(limit), program()}, args...)...)
	cmd.Dir = dir
	b, err := cmd.CombinedOutput()
	if err != nil && cmd.ProcessState == nil {
		fmt.Fprintln(os.Stderr, "cannot run the program:", err)
		os.Exit(2)
	}
	return cmd.ProcessState.ExitCode(), string(b)
}

func init() {
	register(&Check{ID: "C25", Level: "fault_enumeration",
		Rule:   "one evaluation = one run of the program or of a part of it with a set of failing places; distinct = different sequences of calls and results",
		Assume: []string{"errors when closing the written file are not injected", "limits of the file size stand for all kinds of short writes"},
		Run: func(c *Ctx) {
			box := sceneFromRows(10000, []int64{0, 600, 1000}, "##\n#.", "#.\n..").mesh()

			maxMods := c.Pick(6, 9)
			total := 0
			for m := 0; m <= maxMods; m++ {
				total += 2 << uint(5+m)
			}
			c.Run("all sets of failing stages", total, func(t *T, i int) {
				m := 0
				for i >= 2<<uint(5+m) {
					i -= 2 << uint(5+m)
					m++
				}
				stages := append([]string{"read", "optimize", "slice"}, modNames(m)...)
				stages = append(stages, "generate", "write")
				defaultPath := i&1 == 1
				mask := i >> 1
				s := &script{fail: map[string]error{}, inits: map[string]int{}, model: box, om: fakeOM{box[:len(box)-1]}, layers: []data.PartitionedLayer{data.NewPartitionedLayer(nil), data.NewPartitionedLayer(nil)}}
				var exp []string
				var expErr error
				for b, n := range stages {
					if mask>>uint(b)&1 == 1 {
						s.fail[n] = fmt.Errorf("failure of %s", n)
					}
					if expErr == nil {
						exp = append(exp, n)
						expErr = s.fail[n]
					}
				}
				t.Key("%d modifiers, failing %v, default path %v", m, s.fail, defaultPath)
				o := baseOpts(func(o *data.Options) { o.GoSlice.InputFilePath = "some/in.stl" })
				out := "some/in.stl.gcode"
				if !defaultPath {
					out = "else/out.g"
					o.GoSlice.OutputFilePath = out
				}
				g := goslice.NewGoSlice(o)
				g.Reader, g.Optimizer, g.Slicer = fakeReader{s}, fakeOptimizer{s}, fakeSlicer{s}
				g.Modifiers = nil
				for _, n := range modNames(m) {
					g.Modifiers = append(g.Modifiers, fakeModifier{s, n})
				}
				g.Generator, g.Writer = fakeGenerator{s, m}, fakeWriter{s, out}
				err := g.Process()
				if (err == nil) != (expErr == nil) || expErr != nil && !errors.Is(err, expErr) {
					t.Fail("the result is %v and should be %v", err, expErr)
				}
				if strings.Join(s.log, ",") != strings.Join(exp, ",") {
					t.Fail("the stages %v ran instead of %v", s.log, exp)
				}
				for _, b := range s.bad {
					t.Fail("%s", b)
				}
				t.Outcome(s.log, err)
			})

			maxR, maxL := 6, c.Pick(8, 20)
			type rc struct{ r, l, fr, fl int }
			var rcs []rc
			for r := 0; r <= maxR; r++ {
				for l := 0; l <= maxL; l++ {
					rcs = append(rcs, rc{r, l, -1, -1})
					for fr := 0; fr < r; fr++ {
						for fl := 0; fl < l; fl++ {
							rcs = append(rcs, rc{r, l, fr, fl})
						}
					}
				}
			}
			c.Run("failing renderers", len(rcs), func(t *T, i int) {
				s := rcs[i]
				t.Key("%d renderers, %d layers, renderer %d fails at layer %d", s.r, s.l, s.fr, s.fl)
				o := baseOpts(func(o *data.Options) { o.Print.InitialLayerThickness = 350; o.Print.LayerThickness = 120 })
				var log []string
				var zs []data.Micrometer
				var maxes []int
				make1 := func(fail bool) handler.GCodeGenerator {
					log, zs, maxes = nil, nil, nil
					var opts []failRenderer
					for r := 0; r < s.r; r++ {
						f := -1
						if fail && r == s.fr {
							f = s.fl
						}
						opts = append(opts, failRenderer{fmt.Sprint("M", r), &log, f, &zs, &maxes})
					}
					return newGen(&o, opts)
				}
				layers := make([]data.PartitionedLayer, s.l)
				for k := range layers {
					layers[k] = data.NewPartitionedLayer(nil)
				}
				g := make1(true)
				g.Init(fakeOM{box})
				code, err := g.Generate(layers)
				var exp, lines []string
				var expZ []data.Micrometer
				for r := 0; r < s.r; r++ {
					exp = append(exp, fmt.Sprint("init M", r))
				}
				failed := false
				for l := 0; l < s.l && !failed; l++ {
					for r := 0; r < s.r && !failed; r++ {
						exp = append(exp, fmt.Sprintf("M%d/%d", r, l))
						lines = append(lines, fmt.Sprintf("M%d of %d", r, l))
						expZ = append(expZ, 350+120*data.Micrometer(l))
						failed = r == s.fr && l == s.fl
					}
				}
				if failed != (err != nil) || failed && !errors.Is(err, errStage) {
					t.Fail("the result is %v", err)
				}
				if failed && code != "" {
					t.Fail("there is code in spite of the error: %q", code)
				}
				if !failed && strings.TrimSpace(code) != strings.Join(lines, "\n") {
					t.Fail("the code is %q and should be %q", code, lines)
				}
				if strings.Join(log, ",") != strings.Join(exp, ",") {
					t.Fail("the calls are %v and should be %v", log, exp)
				}
				if fmt.Sprint(zs) != fmt.Sprint(expZ) {
					t.Fail("the heights are %v and should be %v", zs, expZ)
				}
				for _, m := range maxes {
					if m != s.l-1 {
						t.Fail("the number of the last layer is %d instead of %d", m, s.l-1)
					}
				}
				t.Outcome(log, err)
			})

			// the real stages
			opts := func(o *data.Options) {
				o.Print.Support.Enabled = true
				o.Print.BrimSkirt.BrimCount = 1
			}
			in := tempFile(stlBinary(box.floats(), "box"), ".stl")
			clean := func() string {
				out := tempFile(nil, ".gcode")
				g := goslice.NewGoSlice(baseOpts(opts, func(o *data.Options) { o.GoSlice.InputFilePath = in; o.GoSlice.OutputFilePath = out }))
				if err := g.Process(); err != nil {
					return ""
				}
				b, _ := os.ReadFile(out)
				return string(b)
			}()
			nMods := len(goslice.NewGoSlice(baseOpts(opts)).Modifiers)
			nStages := 4 + nMods
			c.Run("each real stage fails, then works", nStages*3, func(t *T, i int) {
				stage := i % nStages
				t.Key("stage %d, variant %d", stage, i/nStages)
				if clean == "" {
					t.Fail("the model cannot be sliced without fault")
					return
				}
				dir, err := os.MkdirTemp(scratchDir(), "stage")
				if err != nil {
					t.Fail("%v", err)
					return
				}
				defer os.RemoveAll(dir)
				out := filepath.Join(dir, "out.gcode")
				old := "old content\n" + strings.Repeat("x", i/nStages*200000)
				if i/nStages > 0 {
					os.WriteFile(out, []byte(old), 0o644)
				}
				g := goslice.NewGoSlice(baseOpts(opts, func(o *data.Options) { o.GoSlice.InputFilePath = in; o.GoSlice.OutputFilePath = out }))
				on := true
				switch {
				case stage == 0:
					g.Reader = failReader{g.Reader, &on}
				case stage == 1:
					g.Optimizer = failOptimizer{g.Optimizer, &on}
				case stage == 2:
					g.Slicer = failSlicer{g.Slicer, &on}
				case stage == 3:
					g.Generator = failGenerator{g.Generator, &on}
				default:
					g.Modifiers[stage-4] = failModifier{g.Modifiers[stage-4], &on}
				}
				for k := 0; k < 3; k++ {
					if err := g.Process(); !errors.Is(err, errStage) {
						t.Fail("the result is %v", err)
					}
					b, err := os.ReadFile(out)
					switch {
					case i/nStages > 0 && (err != nil || string(b) != old):
						t.Fail("the existing file was changed although a stage failed")
					case i/nStages == 0 && err == nil:
						t.Fail("there is an output although a stage failed")
					}
				}
				on = false
				if err := g.Process(); err != nil {
					t.Fail("after a failure: %v", err)
				}
				b, err := os.ReadFile(out)
				if err != nil || string(b) != clean {
					t.Fail("after failures the output differs from the one of a fresh run: %d and %d bytes (%v)", len(b), len(clean), err)
				}
				es, _ := os.ReadDir(dir)
				if len(es) != 1 {
					t.Fail("there are %d files in the directory of the output", len(es))
				}
				t.Outcome(stage)
			})

			// writing
			sizes := []int{0, 1, 2, 511, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20, 5<<20 + 3}
			c.Run("written files", len(sizes)*len(sizes), func(t *T, i int) {
				n, before := sizes[i%len(sizes)], sizes[i/len(sizes)]
				t.Key("%d bytes over %d bytes", n, before)
				p := tempFile([]byte(strings.Repeat("o", before)), ".g")
				defer os.Remove(p)
				if i%2 == 0 {
					os.Remove(p)
				}
				if err := writer.Writer().Write(codeText(n), p); err != nil {
					t.Fail("%v", err)
				}
				b, err := os.ReadFile(p)
				if err != nil || string(b) != codeText(n) {
					t.Fail("the file has %d other bytes (%v)", len(b), err)
				}
				t.Outcome(n)
			})
			// All places lie in a directory of their own, so that nothing else can be replaced by a changed writer.
			c.Run("places which cannot be written", 6*4, func(t *T, i int) {
				n := []int{1, 100, 4097, 3 << 20}[i%4]
				dir, err := os.MkdirTemp(scratchDir(), "places")
				if err != nil {
					t.Fail("%v", err)
					return
				}
				defer os.RemoveAll(dir)
				in := func(name string) string { return filepath.Join(dir, name) }
				os.Mkdir(in("directory"), 0o755)
				os.WriteFile(in("file"), []byte("file"), 0o644)
				os.Symlink(in("loop"), in("loop"))
				os.Symlink(in("missing/x.gcode"), in("link"))
				p := []string{in("directory"), in("missing/x.gcode"), in("file/x.gcode"), in("loop"), in("link"), in(strings.Repeat("n", 300))}[i/4]
				t.Key("%d bytes, place %d", n, i/4)
				if err := writer.Writer().Write(codeText(n), p); err == nil {
					// (unless it was possible nevertheless)
					if b, err := os.ReadFile(p); err != nil || string(b) != codeText(n) {
						t.Fail("writing %d bytes to place %d is no error", n, i/4)
					}
				}
				t.Outcome(i)
			})
			limits := [][2]int{{1, 1}, {97, 1}, {1000, 1}, {20000, c.Pick(7, 1)}, {1 << 20, c.Pick(1021, 127)}}
			c.Run("short writes", len(limits), func(t *T, i int) {
				n, step := limits[i][0], limits[i][1]
				t.Key("%d bytes, each limit in steps of %d", n, step)
				self, _ := os.Executable()
				p := tempFile(nil, ".g")
				defer os.Remove(p)
				b, err := exec.Command(self, "helper", "fsize", fmt.Sprint(n), fmt.Sprint(step), p).CombinedOutput()
				if err != nil {
					t.Fail("%v\n%s", err, b)
					return
				}
				for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
					var limit int
					var failed, same bool
					if _, err := fmt.Sscan(l, &limit, &failed, &same); err != nil {
						if strings.HasPrefix(l, "SKIP") {
							continue
						}
						t.Fail("%q", l)
						return
					}
					if failed == same {
						t.Fail("with a limit of %d bytes: error %v, complete %v", limit, failed, same)
						return
					}
					if (limit >= n) == failed {
						t.Fail("with a limit of %d bytes for %d bytes: error %v", limit, n, failed)
						return
					}
					t.Outcome(limit, failed)
				}
			})

			// the program itself
			dir, err := os.MkdirTemp(scratchDir(), "prog")
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			stl := stlBinary(box.floats(), "box")
			goodCode := ""
			if c.only == "" || strings.HasPrefix(c.only, "program") {
				program()
			}
			c.Run("program: calls", 14, func(t *T, i int) {
				d, _ := os.MkdirTemp(dir, "call")
				defer os.RemoveAll(d)
				os.WriteFile(filepath.Join(d, "ok.stl"), stl, 0o644)
				os.WriteFile(filepath.Join(d, "cut.stl"), stl[:len(stl)-7], 0o644)
				os.WriteFile(filepath.Join(d, "empty.stl"), nil, 0o644)
				os.WriteFile(filepath.Join(d, "text.stl"), []byte("solid x\nfacet normal 0 0 1\nouter loop\nvertex 0 0 zero\n"), 0o644)
				os.WriteFile(filepath.Join(d, "old.gcode"), []byte("old"), 0o644)
				os.Mkdir(filepath.Join(d, "sub"), 0o755)
				calls := []struct {
					args []string
					ok   bool
					out  string
				}{
					{[]string{"ok.stl"}, true, "ok.stl.gcode"},
					{[]string{"ok.stl", "-o", "x.g"}, true, "x.g"},
					{[]string{"--output=old.gcode", "ok.stl"}, true, "old.gcode"},
					{[]string{"ok.stl", "-o", "sub/y.gcode"}, true, "sub/y.gcode"},
					{nil, false, ""},
					{[]string{"-o", "old.gcode"}, false, ""},
					{[]string{"missing.stl", "-o", "old.gcode"}, false, ""},
					{[]string{"cut.stl", "-o", "old.gcode"}, false, ""},
					{[]string{"empty.stl", "-o", "old.gcode"}, false, ""},
					{[]string{"text.stl", "-o", "old.gcode"}, false, ""},
					{[]string{"sub", "-o", "old.gcode"}, false, ""},
					{[]string{"ok.stl", "-o", "sub"}, false, ""},
					{[]string{"ok.stl", "-o", "none/x.gcode"}, false, ""},
					{[]string{"ok.stl", "--layer-thickness=thin", "-o", "old.gcode"}, false, ""},
				}
				call := calls[i]
				t.Key("%q", call.args)
				code, out := runProgram(-1, d, call.args...)
				if strings.HasPrefix(out, "SKIP") {
					return
				}
				if (code == 0) != call.ok {
					t.Fail("the exit status is %d: %.300s", code, out)
				}
				ref := goslice.NewGoSlice(baseOpts(func(o *data.Options) {
					o.GoSlice.InputFilePath = filepath.Join(d, "ok.stl")
					o.GoSlice.OutputFilePath = filepath.Join(d, "ref")
				}))
				refErr := ref.Process()
				want, _ := os.ReadFile(filepath.Join(d, "ref"))
				os.Remove(filepath.Join(d, "ref"))
				if refErr != nil || len(want) == 0 {
					t.Fail("the model cannot be sliced: %v", refErr)
				}
				files := map[string]bool{"ok.stl": true, "cut.stl": true, "empty.stl": true, "text.stl": true, "old.gcode": true, "sub": true}
				if call.out != "" {
					b, err := os.ReadFile(filepath.Join(d, call.out))
					if err != nil || string(b) != string(want) {
						t.Fail("the output has %d bytes instead of %d (%v)", len(b), len(want), err)
					}
					files[strings.Split(call.out, "/")[0]] = true
				} else if strings.TrimSpace(out) == "" {
					t.Fail("there is no message")
				}
				if call.out != "old.gcode" {
					if b, _ := os.ReadFile(filepath.Join(d, "old.gcode")); string(b) != "old" {
						t.Fail("an existing file has been changed")
					}
				}
				es, _ := os.ReadDir(d)
				for _, e := range es {
					if !files[e.Name()] {
						t.Fail("there is a file %s", e.Name())
					}
				}
				t.Outcome(code, len(out) > 0)
			})
			os.WriteFile(filepath.Join(dir, "in.stl"), stl, 0o644)
			if c.only == "" || strings.HasPrefix(c.only, "program") {
				runProgram(-1, dir, "in.stl", "-o", "good.gcode")
				b, _ := os.ReadFile(filepath.Join(dir, "good.gcode"))
				goodCode = string(b)
			}
			nl := c.Pick(1000, 8000)
			c.Run("program: short writes", nl+1, func(t *T, i int) {
				limit := i * (len(goodCode) + 1000) / nl
				t.Key("%d/%d of the output", i, nl)
				if goodCode == "" {
					t.Fail("there is no output without a limit")
					return
				}
				d, _ := os.MkdirTemp(dir, "lim")
				defer os.RemoveAll(d)
				code, out := runProgram(limit, dir, "in.stl", "-o", filepath.Join(d, "x.gcode"))
				if strings.HasPrefix(out, "SKIP") {
					return
				}
				b, _ := os.ReadFile(filepath.Join(d, "x.gcode"))
				if code == 0 && string(b) != goodCode {
					t.Fail("the program ends without error but the output has %d of %d bytes", len(b), len(goodCode))
				}
				if code != 0 && limit >= len(goodCode) {
					t.Fail("the program fails with %d although there is enough space: %.300s", code, out)
				}
				t.Outcome(code, limit >= len(goodCode))
			})
			cuts := len(stl)
			step := 1
			c.Run("program: cut input", cuts/step, func(t *T, i int) {
				n := i * step
				t.Key("%d bytes", n)
				d, _ := os.MkdirTemp(dir, "cut")
				defer os.RemoveAll(d)
				os.WriteFile(filepath.Join(d, "in.stl"), stl[:n], 0o644)
				os.WriteFile(filepath.Join(d, "in.stl.gcode"), []byte("old"), 0o644)
				code, out := runProgram(-1, d, "in.stl")
				if strings.HasPrefix(out, "SKIP") {
					return
				}
				if b, _ := os.ReadFile(filepath.Join(d, "in.stl.gcode")); code == 0 || string(b) != "old" {
					t.Fail("a file cut to %d of %d bytes: exit status %d, %d bytes written", n, cuts, code, len(b))
				}
				t.Outcome(code)
			})
		}})
}

func newGen(o *data.Options, rs []failRenderer) handler.GCodeGenerator {
	switch len(rs) {
	case 0:
		return gcode.NewGenerator(o)
	case 1:
		return gcode.NewGenerator(o, gcode.WithRenderer(rs[0]))
	case 2:
		return gcode.NewGenerator(o, gcode.WithRenderer(rs[0]), gcode.WithRenderer(rs[1]))
	case 3:
		return gcode.NewGenerator(o, gcode.WithRenderer(rs[0]), gcode.WithRenderer(rs[1]), gcode.WithRenderer(rs[2]))
	case 4:
		return gcode.NewGenerator(o, gcode.WithRenderer(rs[0]), gcode.WithRenderer(rs[1]), gcode.WithRenderer(rs[2]), gcode.WithRenderer(rs[3]))
	case 5:
		return gcode.NewGenerator(o, gcode.WithRenderer(rs[0]), gcode.WithRenderer(rs[1]), gcode.WithRenderer(rs[2]), gcode.WithRenderer(rs[3]), gcode.WithRenderer(rs[4]))
	}
	return gcode.NewGenerator(o, gcode.WithRenderer(rs[0]), gcode.WithRenderer(rs[1]), gcode.WithRenderer(rs[2]), gcode.WithRenderer(rs[3]), gcode.WithRenderer(rs[4]), gcode.WithRenderer(rs[5]))
}
