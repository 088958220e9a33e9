package main

// C29: options of fizz.yaml, the front matter and the command line take effect.

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	ast "fizz/proto"

	mc "github.com/fizzbee-io/fizzbee/modelchecker"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
)

func init() {
	register(&Prop{ID: "C29", Quick: 3000, Thorough: 20000,
		Rule: "some option is given a value other than its default, or the configuration is invalid",
		Run:  runC29,
		Fixed: []func(c *Case){seedOption}})
}

// one place where options are given
type optFile struct {
	maxA, maxC     int // 0: not given
	crash          *bool
	hasOpt         bool
	act            map[string]ActOpt
	order          []string // of act
	deadlock       *bool
	live           string // yaml text, "" if not given
	cont, contPath bool
}

var livenessText = map[string]string{`strict`: "strict", `"strict"`: "strict", `true`: "true", `"true"`: "true", `false`: "false",
	`"false"`: "false", `"eventual"`: "eventual", `'nondeterministic'`: "nondeterministic"}

func genOptFile(c *Case, acts []string) *optFile {
	f := &optFile{act: map[string]ActOpt{}}
	b := func() *bool { x := c.P(1, 2); return &x }
	if c.P(2, 3) {
		f.hasOpt = true
		if c.P(1, 2) {
			f.maxA = pick(c.Src, []int{1, 2, 3, 5, 7, 50, 100, 1000})
		}
		if c.P(1, 2) {
			f.maxC = c.Range(1, 3)
		}
		if c.P(1, 2) {
			f.crash = b()
		}
	}
	for _, a := range acts {
		o := ActOpt{}
		if c.P(1, 2) {
			o.MaxActions = c.Range(1, 4)
		}
		if c.P(1, 3) {
			o.MaxConc = c.Range(1, 2)
		}
		if c.P(1, 3) {
			o.Crash = b()
		}
		f.act[a] = o
		f.order = append(f.order, a)
	}
	if c.P(1, 3) {
		f.deadlock = b()
	}
	if c.P(1, 3) {
		f.live = pick(c.Src, []string{`strict`, `"strict"`, `true`, `"true"`, `false`, `"false"`, `"eventual"`, `'nondeterministic'`})
	}
	f.cont, f.contPath = c.P(1, 8), c.P(1, 10)
	return f
}

func (f *optFile) yaml(c *Case) string {
	opt := func(ma, mcn int, cr *bool) (r []string) {
		if ma > 0 {
			r = append(r, "max_actions: "+itoa(ma))
		}
		if mcn > 0 {
			r = append(r, "max_concurrent_actions: "+itoa(mcn))
		}
		if cr != nil {
			r = append(r, fmt.Sprintf("crash_on_yield: %v", *cr))
		}
		shuffle(c.Src, r)
		return
	}
	flow := func(l []string, ind string) string {
		if len(l) == 0 {
			return pick(c.Src, []string{" {}\n", "\n", " # nothing\n"})
		}
		if c.P(1, 3) {
			return " {" + strings.Join(l, ", ") + "}\n"
		}
		s := "\n"
		for _, x := range l {
			s += ind + x + pick(c.Src, []string{"", "", "  # " + x + "0"}) + "\n"
		}
		return s
	}
	var parts []string
	if f.hasOpt {
		parts = append(parts, "options:"+flow(opt(f.maxA, f.maxC, f.crash), "  "))
	}
	if len(f.order) > 0 {
		s := "action_options:\n"
		for _, a := range f.order {
			o := f.act[a]
			k := a
			if strings.ContainsAny(a, "#.") || c.P(1, 3) {
				k = `"` + a + `"`
			}
			l := opt(o.MaxActions, o.MaxConc, o.Crash)
			if len(l) == 0 {
				s += "  " + k + ": {}\n"
			} else {
				s += "  " + k + ":" + flow(l, "    ")
			}
		}
		parts = append(parts, s)
	}
	if f.deadlock != nil {
		parts = append(parts, fmt.Sprintf("deadlock_detection: %v\n", *f.deadlock))
	}
	if f.live != "" {
		parts = append(parts, "liveness: "+f.live+"\n")
	}
	if f.cont {
		parts = append(parts, "continue_on_invariant_failures: true\n")
	}
	if f.contPath {
		parts = append(parts, "continue_path_on_invariant_failures: true\n")
	}
	shuffle(c.Src, parts)
	if c.P(1, 4) {
		parts = append(parts, pick(c.Src, []string{"# options:\n#   max_actions: 1\n", "\n\n", "# the end\n"}))
	}
	if len(parts) == 0 {
		return "# nothing: here\n"
	}
	return strings.Join(parts, "")
}

// effective: what the documentation says about the files (nil if there is none)
func effective(fizz, fm *optFile) *ast.StateSpaceOptions {
	e := &ast.StateSpaceOptions{Options: &ast.Options{MaxActions: 100, CrashOnYield: proto.Bool(true)}, DeadlockDetection: proto.Bool(true)}
	for _, f := range []*optFile{fizz, fm} {
		if f == nil {
			continue
		}
		if f.maxA > 0 {
			e.Options.MaxActions = int64(f.maxA)
		}
		if f.maxC > 0 {
			e.Options.MaxConcurrentActions = int64(f.maxC)
		}
		if f.crash != nil {
			e.Options.CrashOnYield = f.crash
		}
		for k, o := range f.act {
			if e.ActionOptions == nil {
				e.ActionOptions = map[string]*ast.Options{}
			}
			e.ActionOptions[k] = &ast.Options{MaxActions: int64(o.MaxActions), MaxConcurrentActions: int64(o.MaxConc), CrashOnYield: o.Crash}
		}
		if f.deadlock != nil {
			e.DeadlockDetection = f.deadlock
		}
		if f.live != "" {
			e.Liveness = livenessText[f.live]
		}
		e.ContinueOnInvariantFailures = e.ContinueOnInvariantFailures || f.cont
		e.ContinuePathOnInvariantFailures = e.ContinuePathOnInvariantFailures || f.contPath
	}
	if e.Options.MaxConcurrentActions == 0 {
		e.Options.MaxConcurrentActions = min(2, e.Options.MaxActions)
	}
	return e
}

var traceOptions = &ast.StateSpaceOptions{Options: &ast.Options{MaxActions: 100, MaxConcurrentActions: 1, CrashOnYield: proto.Bool(false)},
	Liveness: "false", DeadlockDetection: proto.Bool(false)}

// runPB runs the library with the given options.
func runPB(f *ast.File, pb *ast.StateSpaceOptions, o Opts) *Run {
	o.MaxActions, o.MaxConc = int(pb.Options.MaxActions), int(pb.Options.MaxConcurrentActions)
	o.Crash, o.NoDeadlock = pb.Options.GetCrashOnYield(), !pb.GetDeadlockDetection()
	o.Liveness = pb.Liveness
	o.ContinueFail, o.ContinuePath = pb.ContinueOnInvariantFailures, pb.ContinuePathOnInvariantFailures
	o.Act = map[string]ActOpt{}
	for k, a := range pb.ActionOptions {
		o.Act[k] = ActOpt{int(a.MaxActions), int(a.MaxConcurrentActions), a.CrashOnYield}
	}
	return runImpl(f, o)
}

var badConfigs = []string{"max_action: 5\n", "options:\n  max_concurrent: 3\n", "options:\n  max_actions: many\n", "options: 7\n",
	"deadlock_detection: maybe\n", "options:\n  crash_on_yield: 3\n", "options: [max_actions\n", "- options\n", "options:\n\tmax_actions: 3\n",
	"options:\n  max_actions: 2.5\n", "action_options:\n  - A0\n", "action_options:\n  A0:\n    max_action: 3\n", "liveness: [strict]\n",
	"just text\n", "options:\n  max_actions: 3\noptions:\n  max_actions: 4\n", "liveness: 3\n", "deadlock: false\n", "action_options: 5\n",
	"options:\n  max_actions: [3]\n", "options: {max_actions: 3\n", "\"\n", "continue_on_invariant_failures: 1\n"}

// actNames: the names under which options of actions are given
func (g *Gen) actNames(c *Case) (r []string) {
	for _, a := range g.S.Actions {
		if c.P(1, 3) {
			r = append(r, a.Name)
		}
	}
	for _, ro := range g.S.Roles {
		for _, a := range ro.Actions {
			if c.P(1, 3) {
				r = append(r, ro.Name+"."+a.Name)
			} else if c.P(1, 3) {
				r = append(r, ro.Name+"#."+a.Name)
			}
		}
	}
	return
}

var reStates = regexp.MustCompile(`Valid Nodes: (\d+) Unique states: (\d+)`)

func (r *CLI) states() int {
	m := reStates.FindStringSubmatch(r.Out)
	if m == nil {
		return -1
	}
	n, _ := strconv.Atoi(m[2])
	return n
}

// libVerdict: what the run with these options shows
func libVerdict(c *Case, run *Run, pb *ast.StateSpaceOptions, g *Gen, trace bool) (verdict string, states int) {
	if run.Panic != "" || run.Err != nil {
		c.Discard("model-error")
	}
	if run.Failed != nil {
		return "always", -1
	}
	nodes, _, dead, yields := mc.GetAllNodes(run.Init, pb.Options.MaxActions)
	if dead != nil && pb.GetDeadlockDetection() {
		return "deadlock", -1
	}
	if trace {
		return "passed", yields
	}
	if len(g.S.Asserts) > 0 && len(nodes) > 0 {
		if len(mc.CheckSimpleExistsWitness(nodes)) > 0 {
			return "exists", yields
		}
		var ip *mc.InvariantPosition
		switch pb.Liveness {
		case "", "strict", "true":
			_, ip = mc.CheckStrictLiveness(run.Init, nodes)
		case "eventual", "nondeterministic":
			_, ip = mc.CheckFastLiveness(nodes)
		}
		if ip != nil {
			return "liveness", yields
		}
	}
	return "passed", yields
}

func (r *CLI) verdict() string {
	v := r.verdictLines()
	if len(v) != 1 {
		return fmt.Sprint(len(v), " verdicts")
	}
	switch {
	case strings.Contains(v[0], "PASSED"):
		return "passed"
	case strings.Contains(v[0], "never reached"):
		return "exists"
	case strings.Contains(v[0], "Liveness"):
		return "liveness"
	case strings.Contains(r.Out, "DEADLOCK"):
		return "deadlock"
	case strings.Contains(v[0], "Transition"):
		return "transition"
	case strings.Contains(v[0], "Invariant:"):
		return "always"
	}
	return v[0]
}

func runC29(c *Case) {
	cfg := cfgAll()
	cfg.Lean, cfg.Durable, cfg.Fair = true, true, c.P(1, 2)
	cfg.MaxVars, cfg.MaxActs = 2, 2
	cfg.Returns = c.P(1, 3)
	g := genSpec(c.Src, cfg)
	g.plainNames()
	for _, a := range g.S.Actions {
		if g.P(1, 2) && a.Flow != FOneof && a.Flow != FParallel {
			g.assertScope()
			a.Blk.Stmts = append([]*Stmt{{K: SRequire, E: g.boolE(1)}}, a.Blk.Stmts...)
		}
	}
	g.assertScope()
	if c.P(1, 2) {
		a := Assertion{Name: "L0", Kind: pick(c.Src, []string{"always eventually", "eventually always"})}
		g.body(&a, g.boolE(1))
		g.S.Asserts = append(g.S.Asserts, a)
	}
	if c.P(1, 4) {
		a := Assertion{Name: "V0", Kind: "always"}
		g.body(&a, g.boolE(1))
		g.S.Asserts = append(g.S.Asserts, a)
	}
	switch c.W(6, 2, 4) {
	case 0:
		configFiles(c, g)
	case 1:
		badConfig(c, g)
	case 2:
		cliFlags(c, g)
	}
}

// sized discards models that are too large to explore with the options.
func sized(c *Case, g *Gen, pb *ast.StateSpaceOptions) {
	bare := *g.S
	bare.Asserts = nil
	ref := refFor(&bare, Opts{MaxConc: int(pb.Options.MaxConcurrentActions), Crash: pb.Options.GetCrashOnYield()}, Quirks{})
	ref.Limit = 300
	_, merr, ok := ref.reference()
	if !ok {
		c.Discard("too-big")
	}
	if merr != "" {
		c.Discard("model-error")
	}
}

func configFiles(c *Case, g *Gen) {
	names := g.actNames(c)
	shuffle(c.Src, names)
	k := c.N(len(names) + 1)
	var fizz, fm *optFile
	files := map[string]any{"spec.fizz": g.S.Text()}
	f := g.S.File()
	sample := ""
	if c.P(2, 3) {
		fizz = genOptFile(c, names[:k])
		y := fizz.yaml(c)
		files["fizz.yaml"] = y
		sample += "fizz.yaml:\n" + y
	}
	if c.P(2, 3) {
		fm = genOptFile(c, names[k:])
		if fizz != nil && c.P(1, 4) { // the same action in both: the front matter's entry counts
			for _, a := range names[:k] {
				fm.act[a] = ActOpt{MaxActions: c.Range(1, 4)}
				fm.order = append(fm.order, a)
			}
		}
		y := fm.yaml(c)
		setFrontMatter(f, y)
		sample += "front matter:\n" + y
	}
	files["spec.json"] = f
	want := effective(fizz, fm)
	sized(c, g, want)
	var args []string
	trace := false
	if c.P(1, 12) {
		trace = true
		args = append(args, "--trace-extend", itoa(c.Range(1, 3)))
		want = traceOptions
	}
	args = append(args, "--test")
	c.Sample(sample + fmt.Sprint(args, "\n") + g.S.Text())
	if fizz != nil || fm != nil {
		c.NonTrivial(sample + g.S.Text())
	}
	r := runCLI(c, files, args...)
	defer r.close()
	fail := func(format string, a ...any) { c.Fail("%s\n%s", fmt.Sprintf(format, a...), r.short()) }
	if r.Code != 0 {
		fail("the run ended with exit status %d", r.Code)
	}
	got := &ast.StateSpaceOptions{}
	if err := protojson.Unmarshal([]byte(r.outFile("state_config.json")), got); err != nil {
		fail("state_config.json cannot be read: %v", err)
	}
	if want.Options.MaxActions == 1 && (fizz == nil || fizz.maxC == 0) && (fm == nil || fm.maxC == 0) {
		got.Options.MaxConcurrentActions = 1 // with one action at most, the same as two at a time
	}
	if !proto.Equal(got, want) {
		fail("the options in effect are %v, those given (with defaults) %v", got, want)
	}
	o := Opts{}
	if trace {
		o.UseTrace = true
		o.TraceExtend, _ = strconv.Atoi(args[1])
	}
	run := runPB(g.S.File(), want, o)
	v, n := libVerdict(c, run, want, g, trace)
	c.Label("verdict " + v)
	if r.verdict() != v {
		fail("the verdict is %q, with the options given it should be %q", r.verdict(), v)
	}
	if n >= 0 && r.states() != n {
		fail("%d states explored, with the options given it should be %d", r.states(), n)
	}
}

func badConfig(c *Case, g *Gen) {
	bad := pick(c.Src, badConfigs)
	c.Label("invalid configuration")
	f := g.S.File()
	files := map[string]any{"spec.fizz": g.S.Text()}
	ok := "options:\n  max_actions: 5\n"
	switch c.N(3) {
	case 0:
		files["fizz.yaml"] = bad
	case 1:
		setFrontMatter(f, bad)
	default:
		files["fizz.yaml"] = bad
		setFrontMatter(f, ok)
	}
	files["spec.json"] = f
	c.Sample(fmt.Sprintf("invalid: %q", bad))
	c.NonTrivial(bad)
	r := runCLI(c, files, "--test")
	defer r.close()
	if r.Code == 0 || len(r.verdictLines()) > 0 || r.outFile("state_config.json") != "" {
		c.Fail("the invalid configuration %q is not rejected (exit status %d)\n%s", bad, r.Code, r.short())
	}
	if !regexp.MustCompile(`(?i)error.*(yaml|front)`).MatchString(r.Out) {
		c.Fail("the invalid configuration %q is rejected without saying so\n%s", bad, r.short())
	}
}

func cliFlags(c *Case, g *Gen) {
	g.S.Asserts = nil
	f := g.S.File()
	crash, conc := c.P(1, 2), c.Range(1, 2)
	dd := c.P(1, 2)
	pb := &ast.StateSpaceOptions{Options: &ast.Options{MaxActions: 20, MaxConcurrentActions: int64(conc), CrashOnYield: &crash}, DeadlockDetection: &dd}
	setFrontMatter(f, fmt.Sprintf("options: {max_actions: 20, max_concurrent_actions: %d, crash_on_yield: %v}\ndeadlock_detection: %v\n", conc, crash, dd))
	files := map[string]any{"spec.json": f, "spec.fizz": g.S.Text()}
	run := func(args ...string) *CLI {
		c.Sample(fmt.Sprint(args, "\n") + g.S.Text())
		c.NonTrivial(fmt.Sprint(args) + g.S.Text())
		return runCLI(c, files, args...)
	}
	has := func(r *CLI, name string) bool {
		_, err := os.Stat(filepath.Join(r.Dir, "o", name))
		return err == nil
	}
	rejected := func(what string, args ...string) {
		r := run(args...)
		defer r.close()
		if r.Code == 0 && len(r.verdictLines()) > 0 || !strings.Contains(r.Out, "rror") && !strings.Contains(r.Out, "refused") {
			c.Fail("%s is not rejected\n%s", what, r.short())
		}
	}
	k := c.N(8)
	if k != 4 {
		sized(c, g, pb)
	}
	c.Label([]string{"simulation", "output", "states", "traces", "rejected", "hook", "strategy", "playground"}[k])
	switch k {
	case 0: // simulation
		args := []string{"--simulation", "--test"}
		n, first := c.Range(1, 4), c.Range(0, 5)
		runs := n
		seed := int64(0)
		if c.P(1, 2) {
			seed = int64(c.Range(1, 1000))
			args = append(args, "--seed", fmt.Sprint(seed))
			runs = 1
		}
		args = append(args, "--max_runs", itoa(n), "--simulation_first_traces", itoa(first))
		r := run(args...)
		defer r.close()
		fail := func(format string, a ...any) { c.Fail("%s\n%s", fmt.Sprintf(format, a...), r.short()) }
		if r.Code != 0 {
			fail("exit status %d", r.Code)
		}
		failed := strings.Contains(r.Out, "FAILED:")
		if strings.Contains(r.Out, "PASSED:") {
			fail("a simulation reports success")
		}
		m := regexp.MustCompile(`Stopped after (\d+) runs`).FindStringSubmatch(r.Out)
		if failed == (m != nil) {
			fail("the simulation reports neither or both of a failure and an end")
		}
		if m != nil && m[1] != itoa(runs) {
			fail("%s runs were made, %d were asked for", m[1], runs)
		}
		if failed {
			// a failure needs a deadlock or a failing assertion (there is none)
			v, _ := libVerdict(c, runPB(g.S.File(), pb, Opts{}), pb, g, false)
			all := proto.Clone(pb).(*ast.StateSpaceOptions)
			all.DeadlockDetection = proto.Bool(true)
			v2, _ := libVerdict(c, runPB(g.S.File(), all, Opts{}), all, g, false)
			if v == "passed" && v2 == "passed" {
				fail("the simulation reports a failure, but the model has none")
			}
			return
		}
		for i := 1; i <= 6; i++ {
			if has(r, fmt.Sprintf("graph_run_%d.dot", i)) != (i <= min(runs, first)) {
				fail("graph_run_%d.dot: %v", i, has(r, fmt.Sprintf("graph_run_%d.dot", i)))
			}
		}
		if !has(r, "graph.dot") {
			fail("graph.dot is missing")
		}
		if seed != 0 {
			r2 := runCLI(c, files, args...)
			defer r2.close()
			if plainDot(r2.outFile("graph.dot")) != plainDot(r.outFile("graph.dot")) {
				fail("the same seed gives two different graphs")
			}
			sim := runPB(g.S.File(), pb, Opts{Sim: true, Seed: seed})
			if sim.Panic == "" && sim.Err == nil {
				mc.GetAllNodes(sim.Init, 20) // drops the steps that turned out to be disabled
				d := mc.GenerateDotFile(sim.Init, map[*mc.Node]bool{})
				if plainDot(d) != plainDot(r.outFile("graph.dot")) {
					fail("the run is not the one with seed %d: %s", seed, firstDiff(plainDot(r.outFile("graph.dot")), plainDot(d)))
				}
			}
		}
	case 1: // output files
		cp := c.P(1, 2)
		var args []string
		dir := "o"
		switch c.N(3) {
		case 0:
			args = append(args, "--test", "--output-dir", "")
			dir = "out/run_test"
		case 1:
			args = append(args, "--output-dir", "p/q")
			dir = "p/q"
		}
		if cp {
			args = append(args, "--copy-ast")
		}
		r := run(args...)
		defer r.close()
		b, err := os.ReadFile(filepath.Join(r.Dir, dir, "spec_ast.json"))
		src, _ := os.ReadFile(filepath.Join(r.Dir, "spec.json"))
		if (err == nil) != cp {
			c.Fail("--copy-ast %v, but the copy exists: %v\n%s", cp, err == nil, r.short())
		}
		if cp && !bytes.Equal(b, src) {
			c.Fail("the copy of the syntax tree differs from it")
		}
		if _, err := os.Stat(filepath.Join(r.Dir, dir, "state_config.json")); err != nil {
			c.Fail("the output is not in %s\n%s", dir, r.short())
		}
		if dir != "o" && has(r, "state_config.json") {
			c.Fail("there is output in another directory than the one asked for")
		}
	case 2: // ways to count states
		o := Opts{}
		args := []string{"--test"}
		if c.P(1, 2) {
			args = append(args, "--experimental_no_state_returns")
			o.NoRets = true
		}
		if c.P(1, 2) {
			args = append(args, "--no-symmetry-reduction")
			o.NoSym = true
		}
		if c.P(1, 3) {
			args = append(args, "--experimental_processed_queue")
			o.PQ = true
		}
		r := run(args...)
		defer r.close()
		lib := runPB(g.S.File(), pb, o)
		v, n := libVerdict(c, lib, pb, g, false)
		if n >= 0 && r.verdict() == v && r.states() != n {
			c.Fail("%d states, with these options the library has %d\n%s", r.states(), n, r.short())
		}
		if r.verdict() != v && !o.PQ {
			c.Fail("the verdict is %q, with these options the library's is %q\n%s", r.verdict(), v, r.short())
		}
	case 3: // traces
		pb = traceOptions
		sized(c, g, pb)
		lib := runPB(g.S.File(), pb, Opts{})
		if lib.Panic != "" || lib.Err != nil {
			c.Discard("model-error")
		}
		nodes, _, _, _ := mc.GetAllNodes(lib.Init, 100)
		var names []string
		if p := mc.ExtractFailurePath(pick(c.Src, nodes), lib.Init); p != nil {
			for _, l := range p[:min(len(p), 8)] {
				if l.Name != "Init" {
					names = append(names, l.Name)
				}
			}
		}
		if len(names) == 0 {
			c.Discard("no steps to trace")
		}
		text := pick(c.Src, []string{"", "# a trace\n", "\n"})
		for _, n := range names {
			text += n + pick(c.Src, []string{"\n", "\n\n", "\n# next\n"})
		}
		o := Opts{UseTrace: true}
		gt, err := mc.ParseTraceString(text)
		if err != nil || fmt.Sprint(gt.LinkNames) != fmt.Sprint(names) {
			c.Fail("the trace %q is read as %v %v", text, gt, err)
		}
		o.Trace = names
		args := []string{"--test"}
		if c.P(1, 2) {
			args = append(args, "--trace", text)
		} else {
			files["t.txt"] = text
			args = append(args, "--trace-file", "t.txt")
		}
		if c.P(1, 3) {
			o.TraceExtend = c.Range(1, 3)
			args = append(args, "--trace-extend", itoa(o.TraceExtend))
		}
		r := run(args...)
		defer r.close()
		got := &ast.StateSpaceOptions{}
		if err := protojson.Unmarshal([]byte(r.outFile("state_config.json")), got); err != nil || !proto.Equal(got, pb) {
			c.Fail("the options of a trace run are %v instead of %v\n%s", got, pb, r.short())
		}
		lib = runPB(g.S.File(), pb, o)
		v, n := libVerdict(c, lib, pb, g, true)
		incomplete := strings.Contains(r.Out, "Trace execution incomplete")
		if incomplete == lib.GT.IsExhausted() {
			c.Fail("the trace is said to be incomplete: %v, the library says exhausted: %v\n%s", incomplete, lib.GT.IsExhausted(), r.short())
		}
		if incomplete {
			c.Label("incomplete trace")
			if len(r.verdictLines()) > 0 {
				c.Fail("a verdict is reported for an incomplete trace\n%s", r.short())
			}
			return
		}
		if r.verdict() != v || r.states() != n {
			c.Fail("%s with %d states, the library: %s with %d\n%s", r.verdict(), r.states(), v, n, r.short())
		}
	case 4: // combinations that make no sense
		files["t.txt"] = "A0\n"
		files["h.star"] = "x = 1\n"
		switch c.N(6) {
		case 0:
			rejected("--trace with --trace-file", "--trace", "A0", "--trace-file", "t.txt")
		case 1:
			rejected("--preinit-hook with --preinit-hook-file", "--preinit-hook", "x = 1", "--preinit-hook-file", "h.star")
		case 2:
			rejected("--trace with --simulation", pick(c.Src, []string{"--trace=A0", "--trace-file=t.txt", "--trace-extend=2"}), "--simulation", "--max_runs", "1")
		case 3:
			rejected("a missing file", pick(c.Src, []string{"--trace-file", "--preinit-hook-file"}), "nowhere.txt")
		case 4:
			g.S.Asserts = []Assertion{{Name: "L", Kind: pick(c.Src, []string{"always eventually", "eventually always"}), E: B(true)}}
			if c.P(1, 2) {
				g.S.Asserts[0].E = nil
				g.S.Asserts[0].Blk = blk(FAtomic, &Stmt{K: SReturn, E: B(true)})
			}
			f := g.S.File()
			files["spec.json"] = f
			rejected("--experimental_no_graph with a liveness assertion", "--experimental_no_graph")
		default:
			files["spec.json"] = pick(c.Src, []string{"", "{", "[]", `{"no_such_field": 1}`, `{"actions": 3}`})
			rejected("a file that is no syntax tree")
		}
	case 5: // hooks
		g.S.Consts = append(g.S.Consts, "HK = 0")
		v := g.intVar()
		g.S.Actions = append(g.S.Actions, act("Hook", FAtomic, set(v.N, Raw{S: "HK"})))
		g.S.ConstV["HK"] = vInt(0)
		f := g.S.File()
		setFrontMatter(f, fmt.Sprintf("options: {max_actions: 20, max_concurrent_actions: %d, crash_on_yield: %v}\ndeadlock_detection: %v\n", conc, crash, dd))
		files["spec.json"], files["spec.fizz"] = f, g.S.Text()
		h := "HK = " + itoa(c.Range(1, 4)) + "\n"
		args := []string{"--test"}
		if c.P(1, 2) {
			args = append(args, "--preinit-hook", h)
		} else {
			files["h.star"] = h
			args = append(args, "--preinit-hook-file", "h.star")
		}
		r := run(args...)
		defer r.close()
		lib := runPB(g.S.File(), pb, Opts{Preinit: h})
		vd, n := libVerdict(c, lib, pb, g, false)
		if r.verdict() != vd || n >= 0 && r.states() != n {
			c.Fail("%s with %d states, the library with the hook %q: %s with %d\n%s", r.verdict(), r.states(), h, vd, n, r.short())
		}
	case 6: // strategies
		st := pick(c.Src, []string{"bfs", "dfs", "random"})
		r := run("--exploration_strategy", st)
		defer r.close()
		pb2 := proto.Clone(pb).(*ast.StateSpaceOptions)
		pb2.Options.MaxActions = 20
		lib := runPB(g.S.File(), pb2, Opts{Strategy: st, Seed: 1})
		v, n := libVerdict(c, lib, pb2, g, false)
		if st == "random" {
			return // limits on actions depend on the order
		}
		if r.verdict() != v || n >= 0 && r.states() != n {
			c.Fail("%s with %d states, the library: %s with %d\n%s", r.verdict(), r.states(), v, n, r.short())
		}
	default: // playground: less output, the same verdict
		r := run("--playground")
		defer r.close()
		lib := runPB(g.S.File(), pb, Opts{})
		v, n := libVerdict(c, lib, pb, g, false)
		if r.verdict() != v || n >= 0 && r.states() != n {
			c.Fail("%s with %d states, the library: %s with %d\n%s", r.verdict(), r.states(), v, n, r.short())
		}
		if has(r, "error-graph.json") || has(r, "nodes_000001_of_000001.pb") {
			c.Fail("files are written in the playground")
		}
	}
}

var reAddr = regexp.MustCompile(`0xc[0-9a-f]+`)

// plainDot: a drawing with the nodes numbered in the order they appear instead of named by their addresses
func plainDot(d string) string {
	m := map[string]string{}
	return reAddr.ReplaceAllStringFunc(d, func(a string) string {
		if m[a] == "" {
			m[a] = "n" + itoa(len(m))
		}
		return m[a]
	})
}

// seedOption: the reference documents a seed among the options of the front matter.
func seedOption(c *Case) {
	s := &Spec{Init: blk(FAtomic, set("a", I(0))), Actions: []*Action{act("A0", FAtomic, set("a", I(1)))}}
	f := s.File()
	setFrontMatter(f, "deadlock_detection: false\nseed: 12345\n")
	r := runCLI(c, map[string]any{"spec.json": f}, "--test")
	defer r.close()
	if r.verdict() == "passed" {
		return
	}
	if r.Code == 1 && strings.Contains(r.Out, "unknown field \"seed\"") {
		c.Known("seed-option", "")
		return
	}
	c.Fail("a front matter with a seed: %s", r.short())
}
