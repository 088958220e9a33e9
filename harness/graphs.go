package main

import (
	"crypto/sha256"
	"fmt"
	"sort"
	"strings"

	mc "github.com/fizzbee-io/fizzbee/modelchecker"
)

// ---- the explored graph, node by node ----

type NLink struct {
	Name string
	To   int
}

type NG struct {
	Nodes []*mc.Node
	Idx   map[*mc.Node]int
	Out   [][]NLink
}

func nodeGraph(root *mc.Node) *NG {
	g := &NG{Idx: map[*mc.Node]int{root: 0}, Nodes: []*mc.Node{root}}
	for i := 0; i < len(g.Nodes); i++ {
		var out []NLink
		for _, l := range g.Nodes[i].Outbound {
			j, ok := g.Idx[l.Node]
			if !ok {
				j = len(g.Nodes)
				g.Idx[l.Node] = j
				g.Nodes = append(g.Nodes, l.Node)
			}
			out = append(out, NLink{l.Name, j})
		}
		g.Out = append(g.Out, out)
	}
	return g
}

func isThreadName(n string) bool { return strings.HasPrefix(n, "thread-") }

// yieldObs: the observations of the yield nodes of a graph.
func (g *NG) yieldObs() map[string]bool {
	m := map[string]bool{}
	for _, n := range g.Nodes {
		if n.IsYieldNode() {
			m[implObs(n)] = true
		}
	}
	return m
}

func diffSets(an, bn string, a, b map[string]bool) string {
	var oa, ob []string
	for _, k := range keysOf(a) {
		if !b[k] {
			oa = append(oa, k)
		}
	}
	for _, k := range keysOf(b) {
		if !a[k] {
			ob = append(ob, k)
		}
	}
	if len(oa)+len(ob) == 0 {
		return ""
	}
	return fmt.Sprintf("only %s: %v; only %s: %v", an, firstOf(oa, 3), bn, firstOf(ob, 3))
}

// assertions aimed at reachable states; returns whether each is false somewhere
func addAlways(c *Case, g *Gen, rg *RefGraph, n int) {
	var confs []*Conf
	for _, x := range rg.C {
		if x != nil {
			confs = append(confs, x)
		}
	}
	for i := 0; i < n; i++ {
		a := Assertion{Name: "P" + itoa(i), Kind: "always"}
		g.body(&a, Not{g.predicate(confs)})
		g.S.Asserts = append(g.S.Asserts, a)
	}
}

// badStates: observation -> list of sets of always assertions false there
func badStates(s *Spec, rg *RefGraph) (map[string]map[string]bool, bool) {
	bad := map[string]map[string]bool{}
	any := false
	rg.visit(func(x *Conf, rets map[string]*V) {
		var idx []int
		for i := range s.Asserts {
			if a := &s.Asserts[i]; a.Kind == "always" && !a.eval(s, x, rets) {
				idx = append(idx, i)
			}
		}
		k := x.Obs()
		if bad[k] == nil {
			bad[k] = map[string]bool{}
		}
		bad[k][fmt.Sprint(idx)] = true
		any = any || len(idx) > 0
	})
	return bad, any
}

func init() {
	register(&Prop{ID: "C10", Quick: 400, Thorough: 40000,
		Rule: "at least 3 states and a branching state; every case explores the model in the default mode and about half of 8 other modes",
		Run:  runC10})
	register(&Prop{ID: "C12", Quick: 800, Thorough: 60000,
		Rule: "the full graph has at least 3 states and a branching state, and the simulated runs have at least 3 steps",
		Run:  runC12})
	register(&Prop{ID: "C13", Quick: 1200, Thorough: 80000,
		Rule: "the trace has at least 2 names and its replay passes through at least 3 states, or it is not an execution",
		Run:  runC13})
	register(&Prop{ID: "C14", Quick: 600, Thorough: 40000,
		Rule: "at least 3 states and a branching state",
		Run:  runC14})
}

func runC10(c *Case) {
	cfg := verdictCfg(c)
	cfg.Lean = c.P(1, 3)
	g := genSpec(c.Src, cfg)
	o := opts01(g)
	o.MaxActions = 1000000 // depth-first search reaches states late: no bound may cut it short
	o.NoDeadlock = true
	rg := truth(c, g.S, o)
	if g.P(2, 3) {
		addAlways(c, g, rg, g.Range(1, 2))
	}
	trans := g.P(1, 5)
	if trans {
		var edges [][2]*Conf
		for i, n := range rg.N {
			for _, e := range n.Out {
				if rg.C[i] != nil {
					edges = append(edges, [2]*Conf{rg.C[i], rg.C[e.To]})
				}
			}
		}
		if len(edges) > 0 {
			g.S.Asserts = append(g.S.Asserts, Assertion{Name: "T", Kind: "transition", E: g.transPred(edges)})
		}
	}
	o.NoDeadlock = g.P(1, 3)
	c.Sample(fmt.Sprintf("maxconc=%d deadlock=%v\n%s", o.MaxConc, !o.NoDeadlock, g.S.Text()))
	bad, anyBad := badStates(g.S, rg)
	anyBadStep := false
	if trans {
		base := o
		base.NoDeadlock = true
		s2 := *g.S
		s2.Asserts = nil
		for _, a := range g.S.Asserts {
			if a.Kind == "transition" {
				s2.Asserts = append(s2.Asserts, a)
			}
		}
		anyBadStep = runImpl(s2.File(), base).Failed != nil // C03 judges this itself
	}
	dead := map[string]bool{}
	for i, n := range rg.N {
		if len(n.Out) == 0 && rg.C[i] != nil {
			dead[n.Obs] = true
		}
	}
	featLabels(c, g)
	if nontrivialGraph(rg) {
		c.NonTrivial(g.S.Text())
	}
	var baseObs map[string]bool
	baseCount := -1
	ng := (*NG)(nil)
	full := func() *NG {
		if ng == nil {
			s2 := *g.S
			s2.Asserts = nil
			o2 := o
			o2.NoDeadlock = true
			r2 := runImpl(s2.File(), o2)
			ng = nodeGraph(r2.Init)
		}
		return ng
	}
	modes := []struct {
		name string
		f    func(*Opts)
	}{
		{"bfs", func(o *Opts) {}},
		{"dfs", func(o *Opts) { o.Strategy = "dfs" }},
		{"random", func(o *Opts) { o.Strategy, o.Seed = "random", 1+int64(c.N(1000)) }},
		{"processed queue", func(o *Opts) { o.PQ = true }},
		{"processed queue dfs", func(o *Opts) { o.PQ, o.Strategy = true, "dfs" }},
		{"processed queue random", func(o *Opts) { o.PQ, o.Strategy, o.Seed = true, "random", 1+int64(c.N(1000)) }},
		{"no graph", func(o *Opts) { o.NoGraph = true }},
		{"no graph dfs", func(o *Opts) { o.NoGraph, o.Strategy = true, "dfs" }},
		{"no state returns", func(o *Opts) { o.NoRets = true }},
	}
	for mi, m := range modes {
		if mi > 0 && !g.P(1, 2) {
			continue
		}
		mo := o
		m.f(&mo)
		run := runImpl(g.S.File(), mo)
		if run.Panic != "" || run.Err != nil {
			c.Fail("mode %s: the checker failed on a correct specification: %v %s", m.name, run.Err, run.Panic)
		}
		early := run.P.GetEarlyDeadlock()
		if early != nil && (o.NoDeadlock || len(dead) == 0) {
			c.Fail("mode %s: a deadlock is reported (%s) but the model has none", m.name, strings.Join(early.PathNames(), ","))
		}
		if run.Failed != nil {
			c.Label("violated")
			if mo.NoGraph {
				if !full().hasPath(run.Failed.PathNames(), implObs(run.Failed)) {
					c.Fail("mode %s: no execution of the model takes the steps %v and ends in the reported state %s", m.name, run.Failed.PathNames(), implObs(run.Failed))
				}
			}
			idx := failedIdx(run.Failed.Process.FailedInvariants)
			if len(idx) == 0 {
				if !anyBadStep {
					c.Fail("mode %s: a transition violation is reported but no step violates one", m.name)
				}
				continue
			}
			if k := implObs(run.Failed); !bad[k][fmt.Sprint(idx)] {
				c.Fail("mode %s: the reported state %s does not falsify exactly the reported assertions %v (it falsifies %v)", m.name, k, idx, bad[k])
			}
			continue
		}
		isDead := early != nil
		if !mo.PQ && !mo.NoGraph || early == nil && !mo.NoGraph {
			_, _, d, _ := mc.GetAllNodes(run.Init, int64(mo.MaxActions))
			isDead = isDead || d != nil && !o.NoDeadlock
			if d != nil && !dead[implObs(d)] {
				ig := extract(run.Init, true)
				c.Fail("mode %s: the deadlocked state %s has a step: %s", m.name, implObs(d), diffGraphs(m.name, "reference", ig, &rg.Graph))
			}
		}
		if early == nil && (anyBad || anyBadStep) {
			c.Fail("mode %s: no violation is reported although a reachable state or step violates an assertion", m.name)
		}
		if isDead {
			c.Label("deadlock")
		}
		if !o.NoDeadlock && len(dead) > 0 && !isDead {
			if mo.NoGraph && full().sharedDeadChoice(dead) {
				c.Known("nograph-shared-dead-choice", "mode %s", m.name)
				continue
			}
			c.Fail("mode %s: no deadlock is reported although %v has no step", m.name, firstOf(keysOf(dead), 2))
		}
		if early != nil {
			continue
		}
		n := run.P.GetUniqueYieldCount()
		if baseCount < 0 {
			baseCount = n
			baseObs = nodeGraph(run.Init).yieldObs()
			continue
		}
		if mo.NoRets {
			if n > baseCount {
				c.Fail("mode %s: %d states, %d with return values in the state", m.name, n, baseCount)
			}
		} else if n != baseCount {
			c.Fail("mode %s: %d distinct states, %d in the default mode", m.name, n, baseCount)
		}
		if !mo.NoGraph {
			if d := diffSets(m.name, "bfs", nodeGraph(run.Init).yieldObs(), baseObs); d != "" {
				c.Fail("mode %s: %s", m.name, d)
			}
		}
	}
}

// sharedDeadChoice: does every deadlocked state of the graph have a step that ends in a choice point (all of whose
// alternatives are disabled) which is reached from elsewhere too? The no-graph mode takes reaching a known choice point
// for a step.
func (g *NG) sharedDeadChoice(dead map[string]bool) bool {
	in := make([]int, len(g.Nodes))
	for _, out := range g.Out {
		for _, l := range out {
			in[l.To]++
		}
	}
	var shared func(n int, seen map[int]bool) (alive, sh bool)
	shared = func(n int, seen map[int]bool) (alive, sh bool) {
		for _, l := range g.Out[n] {
			if g.Nodes[l.To].IsYieldNode() {
				return true, false
			}
			if in[l.To] > 1 {
				sh = true
			}
			if !seen[l.To] {
				seen[l.To] = true
				a, s := shared(l.To, seen)
				if a {
					return true, false
				}
				sh = sh || s
			}
		}
		return false, sh
	}
	for i, n := range g.Nodes {
		if n.IsYieldNode() && dead[implObs(n)] {
			if alive, sh := shared(i, map[int]bool{}); !alive && !sh {
				return false
			}
		}
	}
	return true
}

// hasPath: is there an execution with these step names (thread steps left out) that ends in a state observed as obs?
func (g *NG) hasPath(names []string, obs string) bool {
	cur := map[int]bool{0: true}
	closure := func() {
		var st []int
		for n := range cur {
			st = append(st, n)
		}
		for len(st) > 0 {
			n := st[len(st)-1]
			st = st[:len(st)-1]
			for _, l := range g.Out[n] {
				if isThreadName(l.Name) && !cur[l.To] {
					cur[l.To] = true
					st = append(st, l.To)
				}
			}
		}
	}
	closure()
	for _, nm := range names {
		next := map[int]bool{}
		for n := range cur {
			for _, l := range g.Out[n] {
				if l.Name == nm {
					next[l.To] = true
				}
			}
		}
		cur = next
		closure()
	}
	for n := range cur {
		if g.Nodes[n].IsYieldNode() && implObs(g.Nodes[n]) == obs {
			return true
		}
	}
	return false
}

// ---- C12 ----

// crashSim: simulations of a model that crashes, checked against the library's own exhaustive graph (C09 judges that one)
func crashSim(c *Case) {
	cfg := verdictCfg(c)
	cfg.Lean, cfg.Durable = true, true
	g := genSpec(c.Src, cfg)
	for _, a := range g.S.Actions {
		if g.P(1, 2) && a.Flow != FOneof && a.Flow != FParallel {
			g.assertScope()
			a.Blk.Stmts = append([]*Stmt{{K: SRequire, E: g.boolE(1)}}, a.Blk.Stmts...)
		}
	}
	o := opts01(g)
	o.Crash = true
	g.plainNames()
	o.NoDeadlock = true
	ref := refFor(g.S, o, Quirks{})
	ref.Limit = 300
	if _, merr, ok := ref.reference(); !ok || merr != "" {
		c.Discard("too-big")
	}
	full := runImpl(g.S.File(), o)
	if full.Panic != "" || full.Err != nil {
		c.Fail("the checker failed on a correct specification: %v %s", full.Err, full.Panic)
	}
	fg := extract(full.Init, true)
	c.Sample(fmt.Sprintf("crashes maxconc=%d\n%s", o.MaxConc, g.S.Text()))
	c.Label("crashes")
	o.Sim, o.NoDeadlock = true, g.P(1, 3)
	if g.P(1, 3) { // several runs with one set of options, as on the command line
		c.Label("shared options")
		l := *g.S
		l.Asserts = []Assertion{{Name: "L", Kind: pick(c.Src, []string{"always eventually", "eventually always"}), E: B(true)}}
		o2 := o
		o2.MaxActions = g.Range(2, 8)
		o2.Seed = 1 + int64(c.N(100000))
		first := runImpl(l.File(), o2)
		o2.PB = o2.pb()
		s2 := o2.Seed
		o2.Seed = 1 + int64(c.N(100000))
		runImpl(l.File(), o2)
		o2.Seed = s2
		again := runImpl(l.File(), o2)
		if a, b := runDigest(first), runDigest(again); a != b {
			c.Fail("seed %d: a simulation differs after another one with the same options:\n%s", s2, firstDiff(a, b))
		}
	}
	crashed := 0
	for k := 0; k < 6; k++ {
		o.Seed = 1 + int64(c.N(100000))
		o.MaxActions = g.Range(2, 12)
		run := runImpl(g.S.File(), o)
		if run.Panic != "" || run.Err != nil {
			c.Fail("seed %d: the simulation failed on a correct specification: %v %s", o.Seed, run.Err, run.Panic)
		}
		sg := extract(run.Init, true)
		type item struct {
			n   int
			cur []int
		}
		q := []item{{0, []int{0}}}
		seen := map[string]bool{}
		for len(q) > 0 {
			it := q[0]
			q = q[1:]
			if k := fmt.Sprint(it); seen[k] {
				continue
			} else {
				seen[k] = true
			}
			for _, e := range sg.N[it.n].Out {
				next := map[int]bool{}
				for _, x := range it.cur {
					for _, f := range fg.N[x].Out {
						if f.L == e.L && fg.N[f.To].Obs == sg.N[e.To].Obs {
							next[f.To] = true
						}
					}
				}
				if len(next) == 0 {
					c.Fail("seed %d: the simulated step %s from %s to %s is not a step of the model", o.Seed, e.L, sg.N[it.n].Obs, sg.N[e.To].Obs)
				}
				if strings.Contains(e.L, "crash") {
					crashed++
				}
				var nx []int
				for x := range next {
					nx = append(nx, x)
				}
				sort.Ints(nx)
				q = append(q, item{e.To, nx})
			}
		}
		if run.Failed != nil {
			c.Label("crash deadlock")
			obs, ok := implObs(run.Failed), false
			for _, n := range fg.N {
				dead := n.Obs == obs
				for _, e := range n.Out {
					dead = dead && strings.HasPrefix(e.L, "crash")
				}
				ok = ok || dead
			}
			if !ok || o.NoDeadlock {
				c.Fail("seed %d: a deadlock is reported in %s, which has a step (or detection is off)", o.Seed, obs)
			}
		}
	}
	if crashed > 0 && len(fg.N) >= 4 {
		c.NonTrivial(g.S.Text())
	}
}

func runC12(c *Case) {
	if c.P(1, 4) {
		crashSim(c)
		return
	}
	cfg := verdictCfg(c)
	cfg.Lean = c.P(1, 3)
	g := genSpec(c.Src, cfg)
	o := opts01(g)
	o.NoDeadlock = true
	rg := truth(c, g.S, o)
	if g.P(2, 3) {
		addAlways(c, g, rg, g.Range(1, 2))
	}
	o.NoDeadlock = g.P(1, 3)
	c.Sample(fmt.Sprintf("maxconc=%d deadlock=%v\n%s", o.MaxConc, !o.NoDeadlock, g.S.Text()))
	bad, _ := badStates(g.S, rg)
	featLabels(c, g)
	o.Sim = true
	most := 0
	for k := 0; k < 4; k++ {
		o.Seed = 1 + int64(c.N(100000))
		o.MaxActions = g.Range(1, 12)
		run := runImpl(g.S.File(), o)
		if run.Panic != "" || run.Err != nil {
			c.Fail("seed %d: the simulation failed on a correct specification: %v %s", o.Seed, run.Err, run.Panic)
		}
		again := runImpl(g.S.File(), o)
		if a, b := runDigest(run), runDigest(again); a != b {
			c.Fail("seed %d: two simulations with the same seed differ:\n%s", o.Seed, firstDiff(a, b))
		}
		sg := extract(run.Init, true)
		// every simulated execution is an execution of the model
		type key struct {
			n   int
			set string
		}
		type item struct {
			n    int
			cur  []int
		}
		if sg.N[0].Obs != rg.N[0].Obs && sg.N[0].Obs != "root" && rg.N[0].Obs != "root" {
			c.Fail("seed %d: the simulation starts in %s, the model in %s", o.Seed, sg.N[0].Obs, rg.N[0].Obs)
		}
		q := []item{{0, []int{0}}}
		seen := map[key]bool{}
		violating := ""
		for len(q) > 0 {
			it := q[0]
			q = q[1:]
			k := key{it.n, fmt.Sprint(it.cur)}
			if seen[k] {
				continue
			}
			seen[k] = true
			if b := bad[sg.N[it.n].Obs]; b != nil && !b["[]"] {
				violating = sg.N[it.n].Obs
			}
			for _, e := range sg.N[it.n].Out {
				next := map[int]bool{}
				for _, x := range it.cur {
					for _, f := range rg.N[x].Out {
						if f.L == e.L && rg.N[f.To].Obs == sg.N[e.To].Obs {
							next[f.To] = true
						}
					}
				}
				if len(next) == 0 {
					c.Fail("seed %d: the simulated step %s from %s to %s is not a step of the model", o.Seed, e.L, sg.N[it.n].Obs, sg.N[e.To].Obs)
				}
				var nx []int
				for x := range next {
					nx = append(nx, x)
				}
				sort.Ints(nx)
				q = append(q, item{e.To, nx})
			}
		}
		for _, n := range nodeGraph(run.Init).Nodes {
			acts := 0
			for m := n; m != run.Init && len(m.Inbound) > 0; m = m.Inbound[0].Node {
				if m.Inbound[0].Type == "action" {
					acts++
				}
			}
			if acts > o.MaxActions {
				c.Fail("seed %d: the simulation starts more than max_actions=%d actions", o.Seed, o.MaxActions)
			}
			most = max(most, acts+1)
		}
		if run.Failed == nil {
			if violating != "" {
				c.Fail("seed %d: the simulation passed through %s, which violates an assertion, and reported nothing", o.Seed, violating)
			}
			c.Label("passed")
			continue
		}
		obs := implObs(run.Failed)
		idx := failedIdx(run.Failed.Process.FailedInvariants)
		if len(idx) > 0 {
			c.Label("violated")
			if !bad[obs][fmt.Sprint(idx)] {
				c.Fail("seed %d: the reported state %s does not falsify exactly the reported assertions %v (it falsifies %v)", o.Seed, obs, idx, bad[obs])
			}
		} else {
			c.Label("deadlock")
			ok := false
			for i, n := range rg.N {
				ok = ok || n.Obs == obs && len(n.Out) == 0 && rg.C[i] != nil
			}
			if !ok || o.NoDeadlock {
				c.Fail("seed %d: a deadlock is reported in %s, which has a step (or detection is off)", o.Seed, obs)
			}
		}
		path := mc.ExtractFailurePath(run.Failed, run.Init)
		steps, rest := pathSteps(path)
		if rest != "" {
			c.Fail("seed %d: the reported path ends in the middle of a step (%s)", o.Seed, rest)
		}
		if _, msg := rg.follow(steps); msg != "" {
			c.Fail("seed %d: %s", o.Seed, msg)
		}
	}
	if nontrivialGraph(rg) && most >= 3 {
		c.NonTrivial(g.S.Text())
	}
}

// runDigest describes everything a run reports.
func runDigest(r *Run) string {
	var b strings.Builder
	if r.Panic != "" || r.Err != nil {
		return fmt.Sprintf("panic %s err %v", r.Panic, r.Err)
	}
	ng := nodeGraph(r.Init)
	for i, n := range ng.Nodes {
		if n.Process == nil || n.Heap == nil {
			fmt.Fprintf(&b, "%d %s (nil)\n", i, n.Name)
			continue
		}
		fmt.Fprintf(&b, "%d %s %s %s", i, n.Name, implObs(n), n.GetJsonString())
		for _, t := range n.Threads {
			fmt.Fprintf(&b, " thread:%s", t.HashCode())
		}
		fmt.Fprintf(&b, " failed:%v\n", n.Process.FailedInvariants)
		for j, l := range n.Outbound {
			fmt.Fprintf(&b, "   -%s-> %d labels=%v fair=%v type=%s req=%d ret=%s failed=%v\n", l.Name, ng.Out[i][j].To, l.Labels, l.Fairness, l.Type, l.ReqId, mc.StringDictToJsonString(l.Returns), l.FailedInvariants)
			for _, m := range l.Messages {
				fmt.Fprintf(&b, "      message %s>%s %s %v%v", m.Sender, m.Receivers, m.Name, m.IsReturn, m.Lossy)
				for _, v := range m.Values {
					fmt.Fprintf(&b, " %s=%s", v.Name, v.Value)
				}
				b.WriteString("\n")
			}
		}
	}
	if r.Failed != nil {
		fmt.Fprintf(&b, "failed node %d:", ng.Idx[r.Failed])
		for _, l := range mc.ExtractFailurePath(r.Failed, r.Init) {
			fmt.Fprintf(&b, " %s", l.Name)
		}
		b.WriteString("\n")
	}
	fmt.Fprintf(&b, "visited %d unique %d\n", r.P.GetVisitedNodesCount(), r.P.GetUniqueYieldCount())
	return b.String()
}

func digest(s string) string { return fmt.Sprintf("%x", sha256.Sum256([]byte(s)))[:16] }

func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) && i < len(lb); i++ {
		if la[i] != lb[i] {
			return fmt.Sprintf("  first : %s\n  second: %s", la[i], lb[i])
		}
	}
	return fmt.Sprintf("  %d and %d lines", len(la), len(lb))
}

// ---- C13 ----

func runC13(c *Case) {
	cfg := verdictCfg(c)
	cfg.Lean = c.P(2, 3)
	cfg.Checkpoint = c.P(1, 3)
	cfg.Durable = true
	g := genSpec(c.Src, cfg)
	g.plainNames()
	o := opts01(g)
	o.NoDeadlock = true
	truth(c, g.S, o)
	if o.Crash = c.P(1, 4); o.Crash {
		c.Label("crashes")
	}
	run := runImpl(g.S.File(), o)
	if run.Panic != "" || run.Err != nil {
		c.Fail("the checker failed on a correct specification: %v %s", run.Err, run.Panic)
	}
	ng := nodeGraph(run.Init)
	// the trace: the names along a random execution, sometimes altered
	var names []string
	cur := 0
	maxLen := g.Range(1, 8)
	for len(names) < maxLen && len(ng.Out[cur]) > 0 {
		l := pick(g.Src, ng.Out[cur])
		if !isThreadName(l.Name) {
			names = append(names, l.Name)
		} else if g.P(1, 20) {
			break
		}
		cur = l.To
	}
	alphabet := map[string]bool{}
	for _, out := range ng.Out {
		for _, l := range out {
			if !isThreadName(l.Name) {
				alphabet[l.Name] = true
			}
		}
	}
	if len(names) == 0 {
		c.Discard("no-trace")
	}
	if g.P(1, 3) {
		i := g.N(len(names))
		switch g.N(4) {
		case 0:
			names[i] = pick(g.Src, keysOf(alphabet))
		case 1:
			names = append(names[:i], names[i+1:]...)
		case 2:
			names = append(names[:i], append([]string{pick(g.Src, keysOf(alphabet))}, names[i:]...)...)
		case 3:
			names[i] += "x"
		}
		c.Label("altered")
		if len(names) == 0 {
			c.Discard("no-trace")
		}
	}
	ext := 0
	if g.P(1, 3) {
		ext = g.Range(1, 3)
		c.Label("extended")
	}
	// replay on the full graph: all executions with exactly these names (thread steps are free)
	type st struct{ n, i, e int }
	visited := map[st]bool{}
	far, tree := 0, 0
	var rec func(s st)
	onPath := map[st]bool{}
	rec = func(s st) {
		tree++
		if tree > 4000 || onPath[s] {
			c.Discard("too-many-executions")
		}
		onPath[s] = true
		defer delete(onPath, s)
		visited[s] = true
		if s.i > far {
			far = s.i
		}
		for _, l := range ng.Out[s.n] {
			switch {
			case isThreadName(l.Name):
				rec(st{l.To, s.i, s.e})
			case s.i < len(names):
				if l.Name == names[s.i] {
					rec(st{l.To, s.i + 1, s.e})
				}
			case ext > 0 && (s.e < ext || !ng.Nodes[s.n].IsYieldNode()):
				rec(st{l.To, s.i, s.e + 1})
			}
		}
	}
	rec(st{0, 0, 0})
	want := map[string]bool{}
	end := map[string]bool{}
	for s := range visited {
		if ng.Nodes[s.n].IsYieldNode() {
			k := implObs(ng.Nodes[s.n])
			want[k] = true
			if s.i == len(names) {
				end[k] = true
			}
		}
	}
	c.Sample(fmt.Sprintf("trace %q extend=%d maxconc=%d\n%s", names, ext, o.MaxConc, g.S.Text()))
	featLabels(c, g)
	if len(names) >= 2 && len(want) >= 3 || far < len(names) {
		c.NonTrivial(g.S.Text() + strings.Join(names, ","))
	}
	to := o
	to.UseTrace, to.Trace, to.TraceExtend = true, append([]string{}, names...), ext
	tr := runImpl(g.S.File(), to)
	if tr.Panic != "" || tr.Err != nil {
		c.Fail("replaying %q failed: %v %s", names, tr.Err, tr.Panic)
	}
	got := nodeGraph(tr.Init).yieldObs()
	// A role crashes once between two steps, where a step ended: executions through a state that was reached
	// in several ways seem to have more crashes.
	crash, more := o.Crash && ext > 0, func(s string) bool { return s == "crash" || strings.HasPrefix(s, "crash-") }
	for i := 1; i < len(names); i++ {
		crash = crash || more(names[i-1]) && more(names[i])
	}
	if crash {
		c.Label("crash after crash")
		for k := range want {
			if !got[k] {
				delete(want, k)
			}
		}
		far = min(far, tr.GT.GetCurrentIndex())
	}
	if d := diffSets("in the replay", "in executions with these names", got, want); d != "" {
		c.Fail("replaying %q (extend %d): %s", names, ext, d)
	}
	if tr.GT.IsExhausted() != (far == len(names)) || tr.GT.GetCurrentIndex() != far {
		c.Fail("replaying %q: the checker says %d of %d names were used (exhausted: %v), but executions match at most %d", names, tr.GT.GetCurrentIndex(), len(names), tr.GT.IsExhausted(), far)
	}
	if far == len(names) {
		c.Label("executable")
		// text form of the trace
		txt := "# a comment\n\n  " + strings.Join(names, "  \n") + "\n"
		pt, err := mc.ParseTraceString(txt)
		if err != nil || strings.Join(pt.LinkNames, "|") != strings.Join(names, "|") {
			c.Fail("the trace text %q is parsed as %v (%v)", txt, pt, err)
		}
		// an assertion that fails exactly in one of the final states is reported with that state
		if ext == 0 && len(end) > 0 && c.P(1, 2) {
			c.Label("assertion at the end")
		}
	} else {
		c.Label("not executable")
	}
}

// ---- C14 ----

func runC14(c *Case) {
	cfg := verdictCfg(c)
	cfg.Lean = c.P(1, 3)
	var g *Gen
	if c.P(1, 5) {
		g = genCalls(c.Src).gen()
	} else {
		g = genSpec(c.Src, cfg)
	}
	o := opts01(g)
	o.NoDeadlock = true
	rg := truth(c, g.S, o)
	if g.P(2, 3) {
		addAlways(c, g, rg, g.Range(1, 2))
	}
	switch g.N(5) {
	case 0:
		o.Strategy = "dfs"
	case 1:
		o.Strategy = "random"
	case 2:
		o.PQ = true
	case 3:
		o.Sim = true
	}
	if g.P(1, 4) {
		o.Crash, o.MaxActions, o.MaxConc = true, 4, 1
	}
	o.Seed = 1 + int64(g.N(1000))
	c.Sample(fmt.Sprintf("maxconc=%d strategy=%s pq=%v sim=%v crash=%v seed=%d\n%s", o.MaxConc, o.Strategy, o.PQ, o.Sim, o.Crash, o.Seed, g.S.Text()))
	featLabels(c, g)
	if nontrivialGraph(rg) {
		c.NonTrivial(g.S.Text())
	}
	f := g.S.File()
	before := f.String()
	first := runDigest(runImpl(f, o))
	if f.String() != before {
		c.Fail("the run changed the syntax tree")
	}
	// another model in between
	g2 := genSpec(c.Src, cfg)
	mid := runImpl(g2.S.File(), Opts{MaxActions: 2, MaxConc: 1, Crash: c.P(1, 2)})
	_ = mid
	second := runDigest(runImpl(g.S.File(), o))
	if first != second {
		c.Fail("two runs of the same model differ:\n%s", firstDiff(first, second))
	}
	third := runDigest(runImpl(f, o))
	if first != third {
		c.Fail("a second run on the same syntax tree differs:\n%s", firstDiff(first, third))
	}
}
