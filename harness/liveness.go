package main

import (
	"fmt"
	"strings"

	ast "fizz/proto"

	mc "github.com/fizzbee-io/fizzbee/modelchecker"
)

const (
	mcWeak   = ast.FairnessLevel_FAIRNESS_LEVEL_WEAK
	mcStrong = ast.FairnessLevel_FAIRNESS_LEVEL_STRONG
)

func init() {
	register(&Prop{ID: "C06", Quick: 1200, Thorough: 100000,
		Rule: "some liveness assertion is false in some but not all reachable states and the graph has a cycle through at least 2 states",
		Run:  runC06})
	register(&Prop{ID: "C07", Quick: 1200, Thorough: 150000,
		Rule: "at least 3 states, and the set of good states is neither empty nor everything",
		Run:  runC07})
}

// ---- infinite executions under fairness, on a graph of scheduling points ----

// A fair graph: edges carry the name of the action and its fairness. Executions are infinite; one that stops is
// continued by stuttering.
type fairEdge struct {
	to   int
	act  string
	fair Fair
}

type fairGraph struct {
	out   [][]fairEdge
	point []bool // scheduling point, not a choice in the middle of a step
	n     int    // the first n nodes are the states
	src   []int  // state the step started from
}

// fairGraph: every choice of a step is a node. fairAny: variables of fair choices.
func (rg *RefGraph) fairGraph(fairAny map[string]bool) *fairGraph {
	g := &fairGraph{n: len(rg.N)}
	add := func(p bool, src int) int {
		g.out = append(g.out, nil)
		g.point = append(g.point, p)
		g.src = append(g.src, src)
		return len(g.out) - 1
	}
	for i := range rg.N {
		add(true, i)
	}
	for i, n := range rg.N {
		mid := map[string]int{}
		have := map[string]bool{}
		for _, e := range n.Out {
			p := strings.Split(e.L, "|")
			at, pre := i, ""
			for j, l := range p {
				if k := strings.LastIndex(l, "{"); k > 0 && strings.HasSuffix(l, "}") && !strings.HasPrefix(l, "Any:") {
					l = l[:k]
				}
				pre += "|" + l
				to := e.To
				if j < len(p)-1 {
					t, ok := mid[pre]
					if !ok {
						t = add(false, i)
						mid[pre] = t
					}
					to = t
				}
				fe := fairEdge{to: to, act: l, fair: Fair(e.Fair)}
				if j == 0 && l == "thread" { // the only thread; it is bound to go on
					fe.act, fe.fair = "thread@"+itoa(i), FairStrong
				}
				if j > 0 {
					fe.fair = FairUnfair
					if strings.HasPrefix(l, "Any:") && fairAny[l[4:strings.Index(l, "=")]] {
						fe.fair = FairStrong
						if k := strings.Index(p[0], "."); k > 0 {
							fe.act += " of " + p[0][:k]
						}
					}
				}
				if k := fmt.Sprint(at, fe); !have[k] {
					have[k] = true
					g.out[at] = append(g.out[at], fe)
				}
				at = to
			}
		}
	}
	return g
}

// sccs of the nodes in sub
func (g *fairGraph) sccs(sub []int) [][]int {
	in := map[int]bool{}
	for _, n := range sub {
		in[n] = true
	}
	idx, low := map[int]int{}, map[int]int{}
	on := map[int]bool{}
	var st []int
	var out [][]int
	var visit func(v int)
	visit = func(v int) {
		idx[v] = len(idx) + 1
		low[v] = idx[v]
		st = append(st, v)
		on[v] = true
		for _, e := range g.out[v] {
			if !in[e.to] {
				continue
			}
			if idx[e.to] == 0 {
				visit(e.to)
				low[v] = min(low[v], low[e.to])
			} else if on[e.to] {
				low[v] = min(low[v], idx[e.to])
			}
		}
		if low[v] == idx[v] {
			var c []int
			for {
				w := st[len(st)-1]
				st = st[:len(st)-1]
				on[w] = false
				c = append(c, w)
				if w == v {
					break
				}
			}
			out = append(out, c)
		}
	}
	for _, n := range sub {
		if idx[n] == 0 {
			visit(n)
		}
	}
	return out
}

// fairSet: a set of states that some fair infinite execution inside sub visits infinitely often (exactly), containing a
// state for which need holds; nil if there is none.
func (g *fairGraph) fairSet(sub []int, need func(int) bool) []int {
	for _, c := range g.sccs(sub) {
		ok := false
		in := map[int]bool{}
		points, inside := 0, 0
		for _, n := range c {
			in[n] = true
			ok = ok || need(n)
			if g.point[n] {
				points++
			}
		}
		for _, n := range c {
			for _, e := range g.out[n] {
				if in[e.to] {
					inside++
				}
			}
		}
		// an execution may stop at a scheduling point
		if !ok || inside == 0 && points == 0 {
			continue
		}
		taken := map[string]bool{}
		enabled := map[string]int{}
		strong := map[string]bool{}
		for _, n := range c {
			seen := map[string]bool{}
			for _, e := range g.out[n] {
				if e.fair != FairWeak && e.fair != FairStrong {
					continue
				}
				if in[e.to] {
					taken[e.act] = true
				}
				if !seen[e.act] {
					seen[e.act] = true
					enabled[e.act]++
				}
				strong[e.act] = e.fair == FairStrong
			}
		}
		drop := map[string]bool{}
		for _, a := range keysOf(enabled) {
			if taken[a] {
				continue
			}
			if strong[a] {
				drop[a] = true
			} else if enabled[a] == points {
				ok = false
			}
		}
		if !ok {
			continue
		}
		if len(drop) == 0 {
			return c
		}
		var rest []int
		for _, n := range c {
			keep := true
			for _, e := range g.out[n] {
				keep = keep && !drop[e.act]
			}
			if keep {
				rest = append(rest, n)
			}
		}
		if r := g.fairSet(rest, need); r != nil {
			return r
		}
	}
	return nil
}

// live: the verdict on an assertion, given the states where its predicate holds.
func (g *fairGraph) live(kind string, good []bool) []int {
	var sub []int
	for i := range g.out {
		if kind == "eventually always" || i >= g.n || !good[i] {
			sub = append(sub, i)
		}
	}
	return g.fairSet(sub, func(i int) bool { return kind != "eventually always" || i < g.n && !good[i] })
}

func liveCfg(c *Case) GenCfg {
	cfg := cfgAll()
	cfg.Serial, cfg.Checkpoint, cfg.Fair, cfg.Lean = c.P(1, 2), false, true, true
	cfg.Returns, cfg.Labels = false, false
	cfg.InitChoice = c.P(1, 4)
	return cfg
}

func runC06(c *Case) {
	g := genSpec(c.Src, liveCfg(c))
	for _, a := range g.S.Actions {
		if g.P(1, 2) && a.Flow != FOneof {
			g.assertScope()
			a.Blk.Stmts = append([]*Stmt{{K: SRequire, E: g.boolE(1)}}, a.Blk.Stmts...)
		}
	}
	o := opts01(g)
	o.NoDeadlock = true
	o.Liveness = "strict"
	o.MaxConc = 1
	rg := truth(c, g.S, o)
	var confs []*Conf
	for _, x := range rg.C {
		if x != nil {
			confs = append(confs, x)
		}
	}
	na := g.Range(1, 2)
	for i := 0; i < na; i++ {
		a := Assertion{Name: "L" + itoa(i), Kind: pick(g.Src, []string{"always eventually", "eventually always"})}
		e := g.predicate(confs)
		if g.P(1, 2) {
			e = Not{e}
		}
		g.body(&a, e)
		g.S.Asserts = append(g.S.Asserts, a)
	}
	c.Sample(fmt.Sprintf("maxconc=%d\n%s", o.MaxConc, g.S.Text()))
	fg := rg.fairGraph(fairAnys(g.S))
	goods := make([][]bool, na)
	bad := make([][]int, na)
	mixed := false
	for i := range g.S.Asserts {
		a := &g.S.Asserts[i]
		goods[i] = make([]bool, len(rg.N))
		n := 0
		for j := range rg.N {
			// a state that only chooses between initial states counts as neither
			goods[i][j] = rg.C[j] == nil || a.eval(g.S, rg.C[j], nil)
			if goods[i][j] {
				n++
			}
		}
		bad[i] = fg.live(a.Kind, goods[i])
		mixed = mixed || n > 0 && n < len(rg.N)
	}
	cyc := false
	var all []int
	for i := range fg.out {
		all = append(all, i)
	}
	for _, s := range fg.sccs(all) {
		cyc = cyc || len(s) > 1
	}
	featLabels(c, g)
	if mixed && cyc {
		c.NonTrivial(g.S.Text())
	}
	run := runImpl(g.S.File(), o)
	if run.Panic != "" || run.Err != nil || run.Failed != nil {
		c.Fail("the checker failed on a correct specification: %v %s\n%s", run.Err, run.Panic, g.S.Text())
	}
	nodes, _, _, _ := mc.GetAllNodes(run.Init, int64(o.MaxActions))
	path, pos := mc.CheckStrictLiveness(run.Init, nodes)
	got := -1
	if pos != nil {
		got = pos.InvariantIndex
	}
	want := -1
	for i := range bad {
		if bad[i] != nil {
			want = i
			break
		}
	}
	again, _ := mc.CheckStrictLiveness(run.Init, nodes)
	if a, b := linkNames(path), linkNames(again); a != b {
		c.Fail("the same check reports two different counterexamples: %s and %s", a, b)
	}
	if got != want {
		if want >= 0 {
			c.Fail("%s (%s) is violated: a fair execution can stay in the states %v; the checker says %d", g.S.Asserts[want].Name, g.S.Asserts[want].Kind, rg.obsOf(fg, bad[want]), got)
		}
		c.Fail("%s (%s) is reported violated but holds on every fair execution", g.S.Asserts[got].Name, g.S.Asserts[got].Kind)
	}
	if want < 0 {
		c.Label("live")
		return
	}
	c.Label("violated: " + g.S.Asserts[want].Kind)
	goodObs := map[string]bool{}
	for j, n := range rg.N {
		goodObs[n.Obs] = goods[want][j]
	}
	checkLasso(c, run.Init, path, g.S.Asserts[want].Kind, goodObs, fairAnys(g.S))
}

func linkNames(p []*mc.Link) string {
	var s []string
	for _, l := range p {
		s = append(s, fmt.Sprintf("%s %s", l.Name, implObs(l.Node)))
	}
	return strings.Join(s, "; ")
}

func (rg *RefGraph) obsOf(g *fairGraph, s []int) []string {
	m := map[string]bool{}
	for _, i := range s {
		m[rg.N[g.src[i]].Obs] = true
	}
	return firstOf(keysOf(m), 4)
}

// fairAnys: the variables of the fair choices
func fairAnys(s *Spec) map[string]bool {
	m := map[string]bool{}
	var block func(b *Block)
	block = func(b *Block) {
		if b == nil {
			return
		}
		for _, s := range b.Stmts {
			if s.K == SAny && s.Fair == FairStrong {
				m[s.Var] = true
			}
			block(s.Blk)
			for _, x := range s.Blks {
				block(x)
			}
		}
	}
	for _, a := range s.Actions {
		block(a.Blk)
	}
	for _, r := range s.Roles {
		for _, a := range r.Actions {
			block(a.Blk)
		}
	}
	return m
}

// checkLasso: the reported path is an execution from the initial state into a cycle, the cycle is fair and shows the
// violation.
func checkLasso(c *Case, root *mc.Node, path []*mc.Link, kind string, good map[string]bool, fairAny map[string]bool) {
	if len(path) < 2 || path[0].Node != root {
		c.Fail("the reported path does not start in the initial state")
	}
	stutter := false
	for i := 1; i < len(path); i++ {
		if path[i].Name == "stutter" && i == len(path)-1 && path[i].Node == path[i-1].Node {
			stutter = true
			continue
		}
		found := false
		for _, l := range path[i-1].Node.Outbound {
			found = found || l.Node == path[i].Node && l.Name == path[i].Name
		}
		if !found {
			c.Fail("link %d (%s) of the reported path is not an outgoing link of the state before it", i, path[i].Name)
		}
	}
	last := path[len(path)-1].Node
	from := 0
	for path[from].Node != last {
		from++
	}
	if from == len(path)-1 {
		c.Fail("the reported path does not end in a cycle")
	}
	if stutter && from == len(path)-2 && !last.IsYieldNode() {
		c.Fail("the reported path stops in the middle of a step")
	}
	// the cycle: links from+1.., and the nodes they start from
	taken := map[string]bool{}
	always := map[string]int{}
	strong := map[string]bool{}
	points := 0
	shows := kind == "always eventually"
	isFairAny := func(n string) bool {
		return strings.HasPrefix(n, "Any:") && fairAny[n[4:strings.Index(n, "=")]]
	}
	name := func(l *mc.Link, act string) string {
		if isFairAny(l.Name) {
			if k := strings.Index(act, "."); k > 0 {
				return l.Name + " of " + act[:k]
			}
		}
		return l.Name
	}
	act := ""
	for k := 1; k <= from; k++ {
		if path[k-1].Node.IsYieldNode() {
			act = path[k].Name
		}
	}
	for i := from; i < len(path)-1; i++ {
		n := path[i].Node
		next := path[i+1]
		if n.IsYieldNode() {
			act = next.Name
			points++
			if g := good[implObs(n)]; kind == "always eventually" && g {
				c.Fail("the reported cycle visits a state where the predicate of the always eventually assertion holds: %s", implObs(n))
			} else if kind != "always eventually" && !g {
				shows = true
			}
		}
		seen := map[string]bool{}
		for _, l := range n.Outbound {
			k := name(l, act)
			if n.IsYieldNode() {
				if f := int(l.Fairness); f != int(mcWeak) && f != int(mcStrong) {
					continue
				} else if f == int(mcStrong) {
					strong[k] = true
				}
			} else if isFairAny(l.Name) {
				strong[k] = true
			} else {
				continue
			}
			if !seen[k] {
				seen[k] = true
				always[k]++
			}
		}
		if next.Name != "stutter" {
			taken[name(next, act)] = true
		}
	}
	if !shows {
		c.Fail("the predicate of the eventually always assertion holds in all states of the reported cycle")
	}
	for _, k := range keysOf(always) {
		if !taken[k] && (strong[k] || always[k] == points) {
			c.Fail("the reported cycle is not fair: %s is available but never taken", k)
		}
	}
}

// ---- C07: the mode that asks whether a good state stays reachable ----

// reach: the states that can reach one of the targets by steps accepted by ok
func (rg *RefGraph) reach(target []bool, ok func(GEdge) bool) []bool {
	in := make([][]int, len(rg.N))
	var q []int
	r := make([]bool, len(rg.N))
	for i, n := range rg.N {
		if target[i] {
			r[i] = true
			q = append(q, i)
		}
		for _, e := range n.Out {
			if ok(e) || rg.C[i] == nil {
				in[e.To] = append(in[e.To], i)
			}
		}
	}
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		for _, j := range in[n] {
			if !r[j] {
				r[j] = true
				q = append(q, j)
			}
		}
	}
	return r
}

func runC07(c *Case) {
	cfg := liveCfg(c)
	cfg.Serial = false
	g := genSpec(c.Src, cfg)
	for _, a := range g.S.Actions {
		if g.P(1, 2) && a.Flow != FOneof {
			g.assertScope()
			a.Blk.Stmts = append([]*Stmt{{K: SRequire, E: g.boolE(1)}}, a.Blk.Stmts...)
		}
	}
	o := opts01(g)
	o.NoDeadlock = true
	o.Liveness = "eventual"
	rg := truth(c, g.S, o)
	var confs []*Conf
	for _, x := range rg.C {
		if x != nil {
			confs = append(confs, x)
		}
	}
	na := g.Range(1, 2)
	for i := 0; i < na; i++ {
		a := Assertion{Name: "L" + itoa(i), Kind: pick(g.Src, []string{"always eventually", "eventually always"})}
		e := g.predicate(confs)
		if a.Kind != "always eventually" || g.P(1, 3) {
			e = Not{e}
		}
		if g.P(1, 4) {
			e = Bin{"or", e, g.stateEq(pick(g.Src, confs))}
		}
		g.body(&a, e)
		g.S.Asserts = append(g.S.Asserts, a)
	}
	c.Sample(g.S.Text())
	want := -1
	var goods, bads []bool
	interesting := false
	for i := range g.S.Asserts {
		a := &g.S.Asserts[i]
		good := make([]bool, len(rg.N))
		bad := make([]bool, len(rg.N))
		for j := range rg.N {
			if rg.C[j] != nil {
				good[j] = a.eval(g.S, rg.C[j], nil)
				bad[j] = !good[j]
			}
		}
		if a.Kind == "eventually always" {
			b := rg.reach(bad, func(GEdge) bool { return true })
			for j := range good {
				good[j] = good[j] && !b[j]
			}
		}
		r := rg.reach(good, func(e GEdge) bool { return Fair(e.Fair) == FairWeak || Fair(e.Fair) == FairStrong })
		n, m := 0, 0
		for j := range r {
			if !r[j] {
				n++
			}
			if good[j] {
				m++
			}
		}
		interesting = interesting || m > 0 && m < len(r)
		if n > 0 {
			want, goods, bads = i, good, r
			break
		}
	}
	featLabels(c, g)
	if interesting && len(rg.N) >= 3 {
		c.NonTrivial(g.S.Text())
	}
	run := runImpl(g.S.File(), o)
	if run.Panic != "" || run.Err != nil || run.Failed != nil {
		c.Fail("the checker failed on a correct specification: %v %s\n%s", run.Err, run.Panic, g.S.Text())
	}
	nodes, _, _, _ := mc.GetAllNodes(run.Init, int64(o.MaxActions))
	path, pos := mc.CheckFastLiveness(nodes)
	got := -1
	if pos != nil {
		got = pos.InvariantIndex
	}
	if got != want {
		if want < 0 {
			c.Fail("%s (%s) is reported violated but from every reachable state the fair steps lead to a good state", g.S.Asserts[got].Name, g.S.Asserts[got].Kind)
		}
		var l []string
		for j := range bads {
			if !bads[j] {
				l = append(l, rg.N[j].Obs)
			}
		}
		c.Fail("%s (%s): from %v no fair step leads to a good state; the checker says %d", g.S.Asserts[want].Name, g.S.Asserts[want].Kind, firstOf(l, 3), got)
	}
	if want < 0 {
		c.Label("live")
		return
	}
	c.Label("violated: " + g.S.Asserts[want].Kind)
	again, _ := mc.CheckFastLiveness(nodes)
	if a, b := linkNames(path), linkNames(again); a != b {
		c.Fail("the same check reports two different counterexamples: %s and %s", a, b)
	}
	// the path leads to states from which no good state can be reached
	if len(path) == 0 || path[0].Node != run.Init {
		c.Fail("the reported path does not start in the initial state")
	}
	for i := 1; i < len(path); i++ {
		if path[i].Name == "stutter" && path[i].Node == path[i-1].Node {
			continue
		}
		found := false
		for _, l := range path[i-1].Node.Outbound {
			found = found || l.Node == path[i].Node && l.Name == path[i].Name
		}
		if !found {
			c.Fail("link %d (%s) of the reported path is not an outgoing link of the state before it", i, path[i].Name)
		}
	}
	last := path[len(path)-1].Node
	if last.IsYieldNode() {
		okObs := false
		for j, n := range rg.N {
			okObs = okObs || n.Obs == implObs(last) && !bads[j] && !goods[j]
		}
		if !okObs {
			c.Fail("from the last state of the reported path a good state can be reached: %s", implObs(last))
		}
	}
}
