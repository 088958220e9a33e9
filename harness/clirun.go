package main

// C30: a command-line run reports the verdict of the model, once and truthfully.

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strconv"
	"strings"

	mc "github.com/fizzbee-io/fizzbee/modelchecker"
)

func init() {
	register(&Prop{ID: "C30", Quick: 700, Thorough: 20000,
		Rule: "at least 3 scheduling points and either a verdict other than success, or an assertion or the deadlock check to be judged",
		Run:  runC30})
}

var kinds30 = []string{"always", "transition", "exists", "always eventually", "eventually always"}

// a printed counterexample: step names and states
type traceStep struct{ Name, State string }

func printedTrace(out string) (r []traceStep) {
	for _, part := range strings.Split(out, "------\n")[1:] {
		l := strings.Split(part, "\n")
		if len(l) >= 3 && l[1] == "--" && strings.HasPrefix(l[2], "state: ") {
			r = append(r, traceStep{l[0], l[2][len("state: "):]})
		}
	}
	return
}

func runC30(c *Case) {
	live := c.P(1, 3)
	var g *Gen
	if live {
		g = genSpec(c.Src, liveCfg(c))
	} else {
		cfg := verdictCfg(c)
		cfg.Lean = c.P(2, 3)
		g = genSpec(c.Src, cfg)
	}
	for _, a := range g.S.Actions {
		if g.P(1, 3) && a.Flow != FOneof && a.Flow != FParallel {
			g.assertScope()
			a.Blk.Stmts = append([]*Stmt{{K: SRequire, E: g.boolE(1)}}, a.Blk.Stmts...)
		}
	}
	o := opts01(g)
	if live {
		o.MaxConc = 1
		o.Liveness = "strict"
	}
	o.NoDeadlock = c.P(1, 2)
	rg := truth(c, g.S, o)
	var confs []*Conf
	var edges [][2]*Conf
	for i, x := range rg.C {
		if x == nil {
			continue
		}
		confs = append(confs, x)
		for _, e := range rg.N[i].Out {
			edges = append(edges, [2]*Conf{x, rg.C[e.To]})
		}
	}
	na := c.Range(0, 4)
	nl := 0
	for i := 0; i < na; i++ {
		a := Assertion{Name: "V" + itoa(i), Kind: pick(c.Src, kinds30[:3])}
		if live && c.P(1, 2) {
			a.Kind = pick(c.Src, kinds30[3:])
		}
		var e Expr
		switch {
		case c.P(1, 3):
			e = B(true)
		case a.Kind == "transition" && len(edges) > 0:
			e = g.transPred(edges)
		case a.Kind == "transition":
			e = B(true)
		case a.Kind == "exists":
			e = g.predicate(confs)
		default:
			e = Not{g.predicate(confs)}
		}
		if strings.Contains(a.Kind, "eventually") {
			nl++
		}
		g.body(&a, e)
		g.S.Asserts = append(g.S.Asserts, a)
	}
	// what the model has
	truths := map[string]map[string]bool{} // kind of failure -> names of the assertions concerned
	put := func(kind, name string) {
		if truths[kind] == nil {
			truths[kind] = map[string]bool{}
		}
		truths[kind][name] = true
	}
	seen := map[string]bool{}
	rg.visit(func(x *Conf, rets map[string]*V) {
		for i := range g.S.Asserts {
			switch a := &g.S.Asserts[i]; a.Kind {
			case "always":
				if !a.eval(g.S, x, rets) {
					put("always", a.Name)
				}
			case "exists":
				if a.eval(g.S, x, rets) {
					seen[a.Name] = true
				}
			}
		}
	})
	for i := range g.S.Asserts {
		a := &g.S.Asserts[i]
		if a.Kind == "exists" && !seen[a.Name] {
			put("exists", a.Name)
		}
		if a.Kind == "transition" {
			for _, ed := range edges {
				if !confChanged(ed[0], ed[1]) {
					continue
				}
				e := &transEnv{aEnv{c: ed[1], spec: g.S, loc: map[string]*V{}}, ed[0]}
				var v *V
				if a.Blk != nil {
					v = e.body(a.Blk.Stmts)
				} else {
					v = a.E.Ev(e)
				}
				if !v.truth() {
					put("transition", a.Name)
				}
			}
		}
	}
	if !o.NoDeadlock {
		for i, n := range rg.N {
			if len(n.Out) == 0 && rg.C[i] != nil {
				put("deadlock", "")
			}
		}
	}
	if nl > 0 {
		fg := rg.fairGraph(fairAnys(g.S))
		for i := range g.S.Asserts {
			a := &g.S.Asserts[i]
			if !strings.Contains(a.Kind, "eventually") {
				continue
			}
			good := make([]bool, len(rg.N))
			for j := range rg.N {
				good[j] = rg.C[j] == nil || a.eval(g.S, rg.C[j], nil)
			}
			if fg.live(a.Kind, good) != nil {
				put("liveness", a.Name)
			}
		}
	}
	featLabels(c, g)
	if len(rg.N) >= 3 && (len(truths) > 0 || na > 0 || !o.NoDeadlock) {
		c.NonTrivial(g.S.Text())
	}
	// the run
	o.MaxActions = 5000 // no bound: a depth-first search goes deep
	yaml := fmt.Sprintf("options:\n  max_actions: 5000\n  max_concurrent_actions: %d\n  crash_on_yield: false\ndeadlock_detection: %v\n", o.MaxConc, !o.NoDeadlock)
	if o.Liveness != "" || c.P(1, 2) {
		yaml += "liveness: \"strict\"\n"
	}
	f := g.S.File()
	files := map[string]any{"spec.json": f, "spec.fizz": g.S.Text()}
	if c.P(1, 2) {
		files["fizz.yaml"] = yaml
	} else {
		setFrontMatter(f, yaml)
	}
	var args []string
	flag := func(p int, a ...string) bool {
		if c.P(1, p) {
			args = append(args, a...)
			return true
		}
		return false
	}
	flag(2, "--test")
	play := flag(8, "--playground")
	flag(6, "--no-symmetry-reduction")
	if flag(4, "--exploration_strategy", pick(c.Src, []string{"bfs", "dfs", "random"})) {
		o.Strategy = args[len(args)-1]
	}
	o.PQ = flag(5, "--experimental_processed_queue")
	o.NoGraph = nl == 0 && flag(6, "--experimental_no_graph")
	c.Sample(fmt.Sprintf("%s\nargs %v\n%s\nverdicts of the model: %v", yaml, args, g.S.Text(), truths))
	r := runCLI(c, files, args...)
	defer r.close()
	fail := func(format string, a ...any) {
		c.Fail("%s\nthe model has %v\n%s", fmt.Sprintf(format, a...), truths, r.short())
	}
	if r.Code != 0 {
		fail("the run ended with exit status %d", r.Code)
	}
	v := r.verdictLines()
	if o.NoGraph {
		delete(truths, "exists") // not judged without a graph
	}
	if len(v) != 1 {
		fail("the run reports %d verdicts instead of one: %q", len(v), v)
	}
	kind, names := "", []string{}
	out := r.Out
	lines := func(re string) (l []string) {
		for _, m := range regexp.MustCompile(re).FindAllStringSubmatch(out, -1) {
			l = append(l, m[1])
		}
		return
	}
	switch {
	case strings.Contains(v[0], "PASSED: Model checker completed successfully"):
	case strings.Contains(v[0], "Transition Invariant:"):
		kind, names = "transition", lines(`Transition Invariant:\s*(\S+)`)[:1]
	case strings.Contains(v[0], "Invariant:"):
		kind, names = "always", lines(`failed. Invariant:\s*(\S+)`)[:1]
	case strings.Contains(v[0], "Expected states never reached"):
		kind, names = "exists", lines(`(?m)^Invariant \d+: (\S+)$`)
	case strings.Contains(v[0], "Liveness check failed"):
		kind, names = "liveness", lines(`(?m)^Invariant: (\S+)$`)
	case strings.Contains(out, "DEADLOCK detected"):
		kind = "deadlock"
	default:
		// without a graph, the failing assertion of a step is not known
		if o.NoGraph && truths["transition"] != nil {
			kind = "transition"
			break
		}
		fail("the verdict is not among those there are: %s", v[0])
	}
	c.Label("verdict " + map[bool]string{true: "passed", false: kind}[kind == ""])
	if kind != "deadlock" && strings.Contains(strings.Split(out, "=== Replaying")[0], "DEADLOCK") {
		fail("a deadlock is reported besides %q", kind)
	}
	if kind == "" {
		if len(truths) > 0 {
			fail("success is reported, but the model fails")
		}
	} else if truths[kind] == nil {
		fail("%q is reported, but the model has no such failure", v[0])
	}
	for _, n := range names {
		if !truths[kind][n] {
			fail("%s %s is reported, but it is not one of those that fail", kind, n)
		}
	}
	if kind == "exists" && len(names) != len(truths[kind]) {
		fail("not all the exists assertions without a witness are named: %v", names)
	}
	if kind == "liveness" && len(names) != 1 {
		fail("the liveness assertion that fails is not named")
	}
	if o.Strategy == "random" {
		return // which failure is found first is not determined; no state count either (the same as for any order)
	}
	// the same run in the library: number of states and counterexample
	run := runImpl(g.S.File(), o)
	if run.Panic != "" || run.Err != nil {
		fail("the library fails: %v %s", run.Err, run.Panic)
	}
	if kind == "" || kind == "exists" || kind == "liveness" {
		if !o.NoGraph {
			m := regexp.MustCompile(`Valid Nodes: (\d+) Unique states: (\d+)`).FindStringSubmatch(out)
			if m == nil {
				fail("the number of states is not reported")
			}
			n := 0
			ng := nodeGraph(run.Init)
			for _, x := range ng.Nodes {
				if x.IsYieldNode() {
					n++
				}
			}
			if got, _ := strconv.Atoi(m[2]); got != n {
				fail("%d unique states are reported, the graph has %d", got, n)
			}
			if obs := len(ng.yieldObs()); n < obs {
				fail("%d unique states are reported, %d different ones are reachable", n, obs)
			}
		}
	}
	var path []*mc.Link
	switch kind {
	case "always", "transition":
		if run.Failed == nil {
			fail("the library reports no failure")
		}
		if o.NoGraph {
			break
		}
		path, _ = checkPath(c, rg, run, run.Failed, kind)
	case "deadlock":
		if o.NoGraph || o.PQ {
			break
		}
		_, _, d, _ := mc.GetAllNodes(run.Init, 100)
		path, _ = checkPath(c, rg, run, d, kind)
	case "liveness":
		nodes, _, _, _ := mc.GetAllNodes(run.Init, 100)
		path, _ = mc.CheckStrictLiveness(run.Init, nodes)
	}
	if path == nil {
		return
	}
	got := printedTrace(out)
	var want []traceStep
	for _, l := range path {
		want = append(want, traceStep{l.Name, l.Node.Heap.ToJson()})
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		fail("the printed counterexample is %v, that of the failure is %v", got, want)
	}
	if play {
		return
	}
	var js []struct {
		Name string
		Node json.RawMessage
	}
	if err := json.Unmarshal([]byte(r.outFile("error-graph.json")), &js); err != nil {
		fail("error-graph.json cannot be read: %v", err)
	}
	if len(js) != len(path) {
		fail("error-graph.json has %d steps, the counterexample %d", len(js), len(path))
	}
	for i, l := range path {
		b, _ := json.Marshal(l.Node)
		if js[i].Name != l.Name || canonJSON(js[i].Node) != canonJSON(b) {
			fail("step %d of error-graph.json is %s %s, that of the counterexample is %s %s", i, js[i].Name, canonJSON(js[i].Node), l.Name, canonJSON(b))
		}
	}
}

func canonJSON(b []byte) string {
	var x any
	if json.Unmarshal(b, &x) != nil {
		return string(b)
	}
	r, _ := json.Marshal(x)
	return string(r)
}

