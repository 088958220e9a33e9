package main

import (
	"fmt"
	"sort"
	"strings"

	mc "github.com/fizzbee-io/fizzbee/modelchecker"
)

// ---- evaluation of assertions by the reference ----

type aEnv struct {
	c    *Conf
	spec *Spec
	loc  map[string]*V
	role map[int]*Conf // the configuration whose roles a struct's role values refer to (before/after)
}

func (e *aEnv) Lookup(n string) *V {
	if v, ok := e.loc[n]; ok {
		return v
	}
	if v, ok := e.c.G[n]; ok {
		return v
	}
	if v, ok := e.spec.ConstV[n]; ok {
		return v
	}
	return nil
}
func (e *aEnv) Field(role int, f string) *V { return e.c.Roles[role].get(f) }

// runBody executes the statements of an assertion body (python statements on locals, if, for, return).
func (e *aEnv) runBody(ss []*Stmt) (*V, bool) {
	for _, s := range ss {
		switch s.K {
		case SReturn:
			if s.E == nil {
				return vNone, true
			}
			return s.E.Ev(e), true
		case SIf:
			for i, cd := range s.Conds {
				if cd == nil || cd.Ev(e).truth() {
					if v, done := e.runBody(s.Blks[i].Stmts); done {
						return v, true
					}
					break
				}
			}
		case SFor:
			for _, x := range iterVals(s.E.Ev(e)) {
				e.loc[s.Var] = x
				if v, done := e.runBody(s.Blk.Stmts); done {
					return v, true
				}
			}
			delete(e.loc, s.Var)
		case SPy:
			a := s.Py.(Asg)
			e.loc[a.Var] = a.E.Ev(e)
		case SPass:
		default:
			panic("assertion statement")
		}
	}
	return vNone, false
}

func (a *Assertion) eval(spec *Spec, c *Conf, rets map[string]*V) bool {
	e := &aEnv{c: c, spec: spec, loc: map[string]*V{}}
	rd := &V{K: VDict}
	for k, v := range rets {
		rd.set(vStr(k), v)
	}
	e.loc["__returns__"] = rd
	if a.Blk != nil {
		v, _ := e.runBody(a.Blk.Stmts)
		return v.truth()
	}
	return a.E.Ev(e).truth()
}

// ---- generation of state predicates ----

// stateEq: an expression that is true in configurations agreeing with c on some randomly chosen variables.
func (g *Gen) stateEq(c *Conf) Expr {
	var ks []string
	for _, v := range g.Vars {
		ks = append(ks, v.N)
	}
	shuffle(g.Src, ks)
	n := g.Range(1, len(ks))
	var e Expr
	add := func(x Expr) {
		if e == nil {
			e = x
		} else {
			e = Bin{"and", e, x}
		}
	}
	for _, k := range ks[:n] {
		if v := c.G[k]; v != nil {
			add(Bin{"==", Var(k), valExpr(v)})
		}
	}
	for _, rv := range g.roleVar {
		v := c.G[rv.N]
		if v == nil || v.K != VRole || !g.P(1, 2) {
			continue
		}
		fs := g.rfields[c.Roles[v.R].Def.Name]
		if len(fs) == 0 {
			continue
		}
		f := pick(g.Src, fs)
		if x := c.Roles[v.R].Fields.get(vStr(f.N)); x != nil {
			add(Bin{"==", Attr{Var(rv.N), f.N}, valExpr(x)})
		}
	}
	if e == nil {
		return B(true)
	}
	return e
}

// valExpr renders a value as an expression.
func valExpr(v *V) Expr {
	switch v.K {
	case VSet:
		var l SetE
		for _, x := range v.L {
			l = append(l, valExpr(x))
		}
		if len(l) == 0 {
			return Call{"set", nil}
		}
		return l
	case VList:
		var l ListE
		for _, x := range v.L {
			l = append(l, valExpr(x))
		}
		return l
	case VTuple:
		var l TupE
		for _, x := range v.L {
			l = append(l, valExpr(x))
		}
		return l
	case VDict:
		d := DictE{}
		for i := range v.DK {
			d.K = append(d.K, valExpr(v.DK[i]))
			d.V = append(d.V, valExpr(v.DV[i]))
		}
		return d
	case VRec:
		d := RecE{}
		for i := range v.DK {
			d.N = append(d.N, v.DK[i].S)
			d.V = append(d.V, valExpr(v.DV[i]))
		}
		return d
	}
	return Lit{v}
}

// assertScope makes the generator's expressions refer to the state variables only.
func (g *Gen) assertScope() {
	g.loc, g.ro, g.fields, g.role, g.loop = nil, nil, nil, nil, 0
}

// predicate generates a state predicate; confs are reachable configurations to aim at.
func (g *Gen) predicate(confs []*Conf) Expr {
	g.assertScope()
	switch g.N(4) {
	case 0:
		return g.boolE(2)
	case 1:
		return Bin{pick(g.Src, []string{"and", "or"}), g.boolE(1), g.stateEq(pick(g.Src, confs))}
	default:
		return g.stateEq(pick(g.Src, confs))
	}
}

// body wraps a predicate as an assertion body in one of several shapes.
func (g *Gen) body(a *Assertion, e Expr) {
	ret := func(x Expr) *Stmt { return &Stmt{K: SReturn, E: x} }
	switch g.N(6) {
	case 0:
		a.Blk = blk(FAtomic, &Stmt{K: SIf, Conds: []Expr{e}, Blks: []*Block{blk(FAtomic, ret(B(true)))}}, ret(B(false)))
	case 1:
		a.Blk = blk(FAtomic, set("t0", e), ret(Var("t0")))
	case 2:
		a.Blk = blk(FAtomic, &Stmt{K: SFor, Var: "q", Flow: FAtomic, E: ListE{I(0), I(1)}, Blk: blk(FAtomic,
			&Stmt{K: SIf, Conds: []Expr{Bin{"and", Bin{"==", Var("q"), I(1)}, Not{e}}}, Blks: []*Block{blk(FAtomic, ret(B(false)))}})}, ret(B(true)))
	case 3: // truthiness of a non-boolean
		a.Blk = blk(FAtomic, ret(IfE{e, ListE{I(0)}, ListE{}}))
	default:
		a.E = e
	}
}

// truth explores the spec without its assertions and returns the graph the verdicts are judged by: the reference's
// (the variant of the reference that agrees with the checker if one does).
func truth(c *Case, s *Spec, o Opts) *RefGraph {
	bare := *s
	bare.Asserts = nil
	rg, merr, ok := refFor(&bare, o, Quirks{}).reference()
	if !ok {
		c.Discard("too-big")
	}
	if merr != "" {
		c.Discard("model-error")
	}
	o.NoDeadlock, o.ContinueFail, o.ContinuePath = true, false, false
	run := runImpl(bare.File(), o)
	if run.Panic != "" || run.Err != nil {
		c.Fail("the checker failed on a correct specification: %v %s\n%s", run.Err, run.Panic, s.Text())
	}
	ig := extract(run.Init, true)
	if diffGraphs("", "", ig, &rg.Graph) != "" {
		qg, _, ok := refFor(&bare, o, Quirks{ForkReset: true}).reference()
		if ok && diffGraphs("", "", ig, &qg.Graph) == "" {
			c.Label("graph has the known enabled-forgotten difference")
			return qg
		}
		c.Label("graph differs from the reference")
	}
	return rg
}

// visit calls f for each reachable configuration together with the values returned by the step that reached it.
func (g *RefGraph) visit(f func(c *Conf, rets map[string]*V)) {
	if g.C[0] != nil {
		f(g.C[0], nil)
	}
	for _, n := range g.N {
		for _, e := range n.Out {
			f(g.C[e.To], e.Rets)
		}
	}
}

// pathLabels splits a failure path into steps: label and observed state after it.
type pstep struct{ L, Obs string }

func pathSteps(path []*mc.Link) (steps []pstep, rest string) {
	p := ""
	for i, l := range path {
		if i == 0 {
			continue
		}
		if p != "" {
			p += "|"
		}
		p += normName(l.Name)
		if len(l.Labels) > 0 {
			p += "{" + strings.Join(l.Labels, ",") + "}"
		}
		p += retStr(l)
		if l.Node.IsYieldNode() {
			steps = append(steps, pstep{p, implObs(l.Node)})
			p = ""
		}
	}
	return steps, p
}

// follow runs the steps in the graph; it returns the possible end nodes, or an explanation.
func (g *Graph) follow(steps []pstep) ([]int, string) {
	cur := map[int]bool{0: true}
	for i, s := range steps {
		next := map[int]bool{}
		for n := range cur {
			for _, e := range g.N[n].Out {
				if e.L == s.L && g.N[e.To].Obs == s.Obs {
					next[e.To] = true
				}
			}
		}
		if len(next) == 0 {
			var avail []string
			for n := range cur {
				for _, e := range g.N[n].Out {
					avail = append(avail, e.L+" -> "+g.N[e.To].Obs)
				}
			}
			sort.Strings(avail)
			return nil, fmt.Sprintf("step %d of the path, %s -> %s, is not a step of the model there; possible:\n    %s", i+1, s.L, s.Obs, strings.Join(avail, "\n    "))
		}
		cur = next
	}
	var r []int
	for n := range cur {
		r = append(r, n)
	}
	sort.Ints(r)
	return r, ""
}

// checkPath verifies that the reported path to node is an execution of the model ending in a state observed as node is.
func checkPath(c *Case, rg *RefGraph, run *Run, n *mc.Node, what string) (path []*mc.Link, ends []int) {
	path = mc.ExtractFailurePath(n, run.Init)
	if len(path) == 0 || path[0].Node != run.Init {
		c.Fail("%s: the reported path does not start at the initial state", what)
	}
	if path[len(path)-1].Node != n {
		c.Fail("%s: the reported path does not end at the failing state", what)
	}
	for i := 1; i < len(path); i++ {
		found := false
		for _, l := range path[i-1].Node.Outbound {
			if l.Node == path[i].Node && l.Name == path[i].Name {
				found = true
			}
		}
		if !found {
			c.Fail("%s: link %d (%s) of the reported path is not an outgoing link of the state before it", what, i, path[i].Name)
		}
	}
	steps, rest := pathSteps(path)
	if rest != "" {
		c.Fail("%s: the reported path ends in the middle of a step (%s)", what, rest)
	}
	ends, msg := rg.follow(steps)
	if msg != "" {
		c.Fail("%s: %s", what, msg)
	}
	return path, ends
}

func failedIdx(m map[int][]int) []int {
	r := append([]int{}, m[0]...)
	sort.Ints(r)
	return r
}

func init() {
	register(&Prop{ID: "C02", Quick: 1000, Thorough: 60000,
		Rule: "the reachable states include at least 3 scheduling points and at least one always assertion is false in some but not all of them",
		Run:  runC02})
	register(&Prop{ID: "C03", Quick: 1000, Thorough: 60000,
		Rule: "some assertion is false on at least one reachable state-changing step and true on another",
		Run:  runC03})
	register(&Prop{ID: "C04", Quick: 1000, Thorough: 60000,
		Rule: "at least two exists assertions, or one that holds in some but not all reachable states",
		Run:  runC04})
	register(&Prop{ID: "C05", Quick: 900, Thorough: 100000,
		Rule: "at least 3 states and either a reachable state without steps or one with a choice whose alternatives are all disabled",
		Run:  runC05})
}

func verdictCfg(c *Case) GenCfg {
	cfg := cfgAll()
	cfg.Checkpoint = false
	return cfg
}

// filler: sometimes adds an assertion of another kind that always holds instead of a
func (g *Gen) filler(a *Assertion) bool {
	if !g.P(1, 4) {
		return false
	}
	k := pick(g.Src, []string{"always", "exists", "transition", "always eventually", "eventually always"})
	if k == a.Kind {
		return false
	}
	g.S.Asserts = append(g.S.Asserts, Assertion{Name: a.Name, Kind: k, E: B(true)})
	return true
}

func runC02(c *Case) {
	g := genSpec(c.Src, verdictCfg(c))
	o := opts01(g)
	o.NoDeadlock = g.P(1, 2)
	o.ContinueFail = g.P(1, 6)
	rg := truth(c, g.S, o)
	var confs []*Conf
	for _, x := range rg.C {
		if x != nil {
			confs = append(confs, x)
		}
	}
	na := g.Range(1, 4)
	for i := 0; i < na; i++ {
		a := Assertion{Name: "P" + itoa(i), Kind: "always"}
		if g.filler(&a) {
			continue
		}
		var e Expr = Not{g.predicate(confs)}
		if g.P(1, 8) && len(g.S.Actions) > 0 {
			an := pick(g.Src, g.S.Actions).Name
			e = Bin{"!=", MCall{Var("__returns__"), "get", []Expr{S(an), I(0)}}, I(g.Range(1, 2))}
		}
		g.body(&a, e)
		g.S.Asserts = append(g.S.Asserts, a)
	}
	c.Sample(fmt.Sprintf("maxconc=%d\n%s", o.MaxConc, g.S.Text()))
	bad := map[string]map[string]bool{} // observation -> sets of failing assertion indices
	anyBad, mixed, nobs := false, false, 0
	falseCnt := make([]int, na)
	total := 0
	rg.visit(func(x *Conf, rets map[string]*V) {
		total++
		var idx []int
		for i := range g.S.Asserts {
			if a := &g.S.Asserts[i]; a.Kind == "always" && !a.eval(g.S, x, rets) {
				idx = append(idx, i)
				falseCnt[i]++
			}
		}
		k := x.Obs()
		if bad[k] == nil {
			bad[k] = map[string]bool{}
			nobs++
		}
		bad[k][fmt.Sprint(idx)] = true
		anyBad = anyBad || len(idx) > 0
	})
	for _, f := range falseCnt {
		mixed = mixed || f > 0 && f < total
	}
	featLabels(c, g)
	if nobs >= 3 && mixed {
		c.NonTrivial(g.S.Text())
	}
	run := runImpl(g.S.File(), o)
	if run.Panic != "" || run.Err != nil {
		c.Fail("the checker failed on a correct specification: %v %s\n%s", run.Err, run.Panic, g.S.Text())
	}
	if anyBad {
		c.Label("violated")
	} else {
		c.Label("holds")
	}
	if run.Failed == nil {
		if anyBad {
			c.Fail("no violation reported although a reachable state violates an assertion")
		}
		return
	}
	idx := failedIdx(run.Failed.Process.FailedInvariants)
	if !anyBad {
		c.Fail("a violation of %v is reported (state %s) although every reachable state satisfies every assertion", idx, implObs(run.Failed))
	}
	obs := implObs(run.Failed)
	if bad[obs] == nil {
		c.Fail("the reported failing state is not reachable: %s", obs)
	}
	if len(idx) == 0 || !bad[obs][fmt.Sprint(idx)] {
		c.Fail("the reported failing state %s does not falsify exactly the reported assertions %v (it falsifies %v)", obs, idx, bad[obs])
	}
	path, _ := checkPath(c, rg, run, run.Failed, "always violation")
	if !o.ContinueFail {
		// the run stops at the first violation: no earlier state of the path violates anything
		for i := 1; i < len(path)-1; i++ {
			if path[i].Node.Process.HasFailedInvariants() {
				c.Fail("the path passes through another violating state at position %d", i)
			}
		}
	}
}

func confChanged(a, b *Conf) bool {
	oa, ob := a.Obs(), b.Obs()
	return oa[:strings.LastIndex(oa, " t")] != ob[:strings.LastIndex(ob, " t")]
}

// transEnv evaluates a transition assertion: before.x / after.x.
type transEnv struct {
	aEnv
	b *Conf
}

func structOf(c *Conf, off int) *V {
	r := &V{K: VRec}
	for k, v := range c.G {
		if v.K == VRole {
			v = &V{K: VRole, R: v.R + off}
		}
		r.set(vStr(k), v)
	}
	return r
}

const afterOff = 1000

func (e *transEnv) Lookup(n string) *V {
	switch n {
	case "before":
		return structOf(e.b, 0)
	case "after":
		return structOf(e.c, afterOff)
	}
	return e.aEnv.Lookup(n)
}
func (e *transEnv) Field(role int, f string) *V {
	if role >= afterOff {
		return e.c.Roles[role-afterOff].get(f)
	}
	return e.b.Roles[role].get(f)
}

// tloc: the expression for a location in the before / after state
func tloc(which string, v LV, recv string) Expr {
	if recv != "" {
		return Attr{Attr{Var(which), recv}, v.N}
	}
	return Attr{Var(which), v.N}
}

func (g *Gen) transPred(edges [][2]*Conf) Expr {
	type loc struct {
		v    LV
		recv string
	}
	var locs []loc
	for _, v := range g.Vars {
		locs = append(locs, loc{v, ""})
	}
	for _, rv := range g.roleVar {
		for _, f := range g.rfields[g.roleOfVar(rv)] {
			locs = append(locs, loc{f, rv.N})
		}
	}
	val := func(c *Conf, l loc) *V {
		if l.recv == "" {
			return c.G[l.v.N]
		}
		r := c.G[l.recv]
		if r == nil || r.K != VRole {
			return nil
		}
		return c.Roles[r.R].Fields.get(vStr(l.v.N))
	}
	rel := func(l loc) Expr {
		b, a := tloc("before", l.v, l.recv), tloc("after", l.v, l.recv)
		if l.v.T == TyInt {
			return Bin{pick(g.Src, []string{"<=", ">=", "!=", "=="}), b, a}
		}
		return Bin{pick(g.Src, []string{"==", "!="}), b, a}
	}
	switch g.N(3) {
	case 0:
		return rel(pick(g.Src, locs))
	case 1:
		return Bin{pick(g.Src, []string{"or", "and"}), rel(pick(g.Src, locs)), rel(pick(g.Src, locs))}
	}
	// not (before is like this and after is like that), aimed at an edge
	ed := pick(g.Src, edges)
	l1, l2 := pick(g.Src, locs), pick(g.Src, locs)
	v1, v2 := val(ed[0], l1), val(ed[1], l2)
	if v1 == nil || v2 == nil {
		return rel(locs[0])
	}
	return Not{Bin{"and", Bin{"==", tloc("before", l1.v, l1.recv), valExpr(v1)}, Bin{"==", tloc("after", l2.v, l2.recv), valExpr(v2)}}}
}

func (g *Gen) roleOfVar(v LV) string { return g.S.Roles[int(v.T)-100].Name }

func runC03(c *Case) {
	g := genSpec(c.Src, verdictCfg(c))
	o := opts01(g)
	o.NoDeadlock = true
	rg := truth(c, g.S, o)
	var edges [][2]*Conf
	for i, n := range rg.N {
		if rg.C[i] == nil {
			continue
		}
		for _, e := range n.Out {
			edges = append(edges, [2]*Conf{rg.C[i], rg.C[e.To]})
		}
	}
	if len(edges) == 0 {
		c.Discard("no-steps")
	}
	na := g.Range(1, 4)
	for i := 0; i < na; i++ {
		a := Assertion{Name: "T" + itoa(i), Kind: "transition"}
		if g.filler(&a) {
			continue
		}
		e := g.transPred(edges)
		if g.P(1, 3) {
			e = Bin{"or", e, g.transPred(edges)}
		}
		g.body(&a, e)
		g.S.Asserts = append(g.S.Asserts, a)
	}
	c.Sample(fmt.Sprintf("maxconc=%d\n%s", o.MaxConc, g.S.Text()))
	// observations of the step -> failing assertion sets
	bad := map[string]string{}
	anyBad, anyGood := false, false
	ev := func(b, a *Conf) []int {
		var idx []int
		for i := range g.S.Asserts {
			as := &g.S.Asserts[i]
			if as.Kind != "transition" {
				continue
			}
			e := &transEnv{aEnv{c: a, spec: g.S, loc: map[string]*V{}}, b}
			var v *V
			if as.Blk != nil {
				v = e.body(as.Blk.Stmts)
			} else {
				v = as.E.Ev(e)
			}
			if !v.truth() {
				idx = append(idx, i)
			}
		}
		return idx
	}
	stutter := false
	for _, ed := range edges {
		if !confChanged(ed[0], ed[1]) {
			stutter = true
			continue
		}
		idx := ev(ed[0], ed[1])
		k := ed[0].Obs() + " => " + ed[1].Obs()
		bad[k] = fmt.Sprint(idx)
		if len(idx) > 0 {
			anyBad = true
		} else {
			anyGood = true
		}
	}
	featLabels(c, g)
	if stutter {
		c.Label("has stutter steps")
	}
	if anyBad && anyGood {
		c.NonTrivial(g.S.Text())
	}
	run := runImpl(g.S.File(), o)
	if run.Panic != "" || run.Err != nil {
		c.Fail("the checker failed on a correct specification: %v %s\n%s", run.Err, run.Panic, g.S.Text())
	}
	if anyBad {
		c.Label("violated")
	} else {
		c.Label("holds")
	}
	if run.Failed == nil {
		if anyBad {
			var v []string
			for _, k := range keysOf(bad) {
				if bad[k] != "[]" && len(v) < 4 {
					v = append(v, k+" violates "+bad[k])
				}
			}
			c.Fail("no violation reported although a reachable step violates a transition assertion: %s", strings.Join(v, "; "))
		}
		return
	}
	path, _ := checkPath(c, rg, run, run.Failed, "transition violation")
	last := path[len(path)-1]
	idx := failedIdx(last.FailedInvariants)
	if !anyBad {
		c.Fail("a transition violation of %v is reported although every state-changing step satisfies every assertion", idx)
	}
	k := len(path) - 2
	for k > 0 && !path[k].Node.IsYieldNode() {
		k--
	}
	key := implObs(path[k].Node) + " => " + implObs(last.Node)
	if want, ok := bad[key]; !ok || want != fmt.Sprint(idx) || len(idx) == 0 {
		c.Fail("the reported step %s does not violate exactly the reported assertions %v (reference: %q)", key, idx, want)
	}
}

// body of a transition assertion
func (e *transEnv) body(ss []*Stmt) *V {
	v, _ := runStmts(e, e.loc, ss)
	return v
}

func runStmts(e Env, loc map[string]*V, ss []*Stmt) (*V, bool) {
	for _, s := range ss {
		switch s.K {
		case SReturn:
			return s.E.Ev(e), true
		case SIf:
			for i, cd := range s.Conds {
				if cd == nil || cd.Ev(e).truth() {
					if v, done := runStmts(e, loc, s.Blks[i].Stmts); done {
						return v, true
					}
					break
				}
			}
		case SFor:
			for _, x := range iterVals(s.E.Ev(e)) {
				loc[s.Var] = x
				if v, done := runStmts(e, loc, s.Blk.Stmts); done {
					return v, true
				}
			}
			delete(loc, s.Var)
		case SPy:
			a := s.Py.(Asg)
			loc[a.Var] = a.E.Ev(e)
		}
	}
	return vNone, false
}

func runC04(c *Case) {
	g := genSpec(c.Src, verdictCfg(c))
	o := opts01(g)
	o.NoDeadlock = true
	rg := truth(c, g.S, o)
	var confs []*Conf
	for _, x := range rg.C {
		if x != nil {
			confs = append(confs, x)
		}
	}
	na := g.Range(1, 4)
	for i := 0; i < na; i++ {
		a := Assertion{Name: "E" + itoa(i), Kind: "exists"}
		if g.filler(&a) {
			continue
		}
		e := g.predicate(confs)
		if g.P(1, 3) {
			e = Bin{"and", e, g.boolE(1)}
		}
		if g.P(1, 4) {
			e = Bin{"and", g.stateEq(pick(g.Src, confs)), g.stateEq(pick(g.Src, confs))}
		}
		g.body(&a, e)
		g.S.Asserts = append(g.S.Asserts, a)
	}
	strat := pick(g.Src, []string{"bfs", "bfs", "dfs", "random"})
	o.Strategy, o.Seed = strat, int64(g.Range(1, 5))
	c.Sample(fmt.Sprintf("maxconc=%d strategy=%s\n%s", o.MaxConc, strat, g.S.Text()))
	wit := make([]int, na)
	total, nex := 0, 0
	rg.visit(func(x *Conf, rets map[string]*V) {
		total++
		for i := range g.S.Asserts {
			if a := &g.S.Asserts[i]; a.Kind == "exists" && a.eval(g.S, x, rets) {
				wit[i]++
			}
		}
	})
	want := ""
	mixed := false
	for i, a := range g.S.Asserts {
		if a.Kind == "exists" {
			nex++
			if wit[i] == 0 {
				want += " " + itoa(i)
			}
			mixed = mixed || wit[i] > 0 && wit[i] < total
		}
	}
	featLabels(c, g)
	if nex > 1 || mixed {
		c.NonTrivial(g.S.Text())
	}
	run := runImpl(g.S.File(), o)
	if run.Panic != "" || run.Err != nil || run.Failed != nil {
		c.Fail("the checker failed on a correct specification: %v %s\n%s", run.Err, run.Panic, g.S.Text())
	}
	nodes, _, _, _ := mc.GetAllNodes(run.Init, int64(o.MaxActions))
	var got []int
	for _, p := range mc.CheckSimpleExistsWitness(nodes) {
		got = append(got, p.InvariantIndex)
	}
	sort.Ints(got)
	gs := ""
	for _, i := range got {
		gs += " " + itoa(i)
	}
	if gs != want {
		c.Fail("exists assertions without a witness: the checker says [%s ], the reachable states say [%s ]", gs, want)
	}
	if want != "" {
		c.Label("unreached")
	} else {
		c.Label("reached")
	}
}

func runC05(c *Case) {
	cfg := verdictCfg(c)
	cfg.Lean = c.P(1, 2)
	g := genSpec(c.Src, cfg)
	// guards that can become false make deadlocks
	for _, a := range g.S.Actions {
		if g.P(2, 3) && a.Flow != FOneof && a.Flow != FParallel {
			g.assertScope()
			a.Blk.Stmts = append([]*Stmt{{K: SRequire, E: g.boolE(1)}}, a.Blk.Stmts...)
		}
	}
	o := opts01(g)
	c.Sample(fmt.Sprintf("maxconc=%d\n%s", o.MaxConc, g.S.Text()))
	o.NoDeadlock = false
	rg := truth(c, g.S, o)
	dead := map[string]bool{}
	for i, n := range rg.N {
		if len(n.Out) == 0 && rg.C[i] != nil {
			dead[n.Obs] = true
		}
	}
	featLabels(c, g)
	if len(rg.N) >= 3 {
		c.NonTrivial(g.S.Text())
	}
	run := runImpl(g.S.File(), o)
	if run.Panic != "" || run.Err != nil || run.Failed != nil {
		c.Fail("the checker failed on a correct specification: %v %s\n%s", run.Err, run.Panic, g.S.Text())
	}
	_, _, d, _ := mc.GetAllNodes(run.Init, int64(o.MaxActions))
	if len(dead) > 0 {
		c.Label("deadlock")
	} else {
		c.Label("no deadlock")
	}
	if d == nil {
		if len(dead) > 0 {
			c.Fail("no deadlock reported although a reachable state has no step: %v", firstOf(keysOf(dead), 3))
		}
	} else {
		obs := implObs(d)
		if len(dead) == 0 {
			c.Fail("a deadlock is reported in %s but every reachable state has a step", obs)
		}
		if !dead[obs] {
			c.Fail("the state reported as deadlocked has a step: %s; deadlocked are %v", obs, firstOf(keysOf(dead), 3))
		}
		_, ends := checkPath(c, rg, run, d, "deadlock")
		ok := false
		for _, e := range ends {
			ok = ok || len(rg.N[e].Out) == 0
		}
		if !ok {
			st, _ := pathSteps(mc.ExtractFailurePath(d, run.Init))
			c.Fail("the reported path leads to a state that is not deadlocked: %s\npath %v\ndeadlocked: %v\nids %v of %d", obs, st, firstOf(keysOf(dead), 3), ends, len(rg.N))
		}
	}
}

func keysOf[T any](m map[string]T) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func firstOf(s []string, n int) []string {
	if len(s) > n {
		s = s[:n]
	}
	return s
}
