package main

// C26: composition of specifications on shared projections. C27: refinement under a mapping.

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	ast "fizz/proto"
)

func init() {
	register(&Prop{ID: "C26", Quick: 800, Thorough: 40000,
		Rule: "both: a joint step of all specifications in which at least one changes its state exists; and there is an assertion that some joint steps violate and others satisfy, or the projections of two specifications differ in some steps",
		Run:  runC26})
	register(&Prop{ID: "C27", Quick: 1000, Thorough: 40000,
		Rule: "the specification has at least 2 steps that change its state and the mapped states differ between some states",
		Run:  runC27})
}

// component: a specification with a function that maps its states to a projection.
type component struct {
	name  string
	g     *Gen
	s     *Spec
	o     Opts
	view  Expr
	rg    *RefGraph
	confs []*Conf
	steps [][2]*Conf // between states, also those that change nothing
}

func partCfg(c *Case) GenCfg {
	cfg := GenCfg{Types: []Ty{TyInt, TyBool}, MaxVars: 2, MaxActs: 2, MaxDepth: 2, MaxStmts: 2, Serial: true, Oneof: true, Any: true,
		Requires: true, Lean: true, CallStmts: true, Loops: true}
	switch c.N(4) {
	case 1:
		cfg.Types = []Ty{TyInt, TyTup, TyRec, TyList}
	case 2:
		cfg.MaxVars, cfg.MaxActs = 3, 3
		cfg.Funcs = true
	case 3:
		cfg.Roles = true
	}
	return cfg
}

// viewExpr: a mapping of the states, coarse enough to be shared.
func (k *component) viewExpr(kind int) Expr {
	g := k.g
	iv := I(0)
	v := pick(g.Src, g.Vars)
	x := Expr(Var(v.N))
	var ints []LV
	for _, w := range g.Vars {
		if w.T == TyInt {
			ints = append(ints, w)
		}
	}
	y := Expr(Var(pick(g.Src, ints).N))
	switch kind {
	case 0: // a truth value
		if v.T == TyBool {
			return x
		}
		return Bin{">", y, iv}
	case 1: // an integer
		return y
	case 2:
		return Bin{"%", y, I(2)}
	case 3:
		return TupE{Bin{">", y, iv}, Bin{"%", Var(pick(g.Src, ints).N), I(2)}}
	case 4:
		return I(1)
	}
	return x
}

func (k *component) addView() {
	k.s.Funcs = append(append([]*Func{}, k.s.Funcs...), &Func{Name: "view", Flow: FAtomic, Blk: &Block{Flow: FAtomic, Stmts: []*Stmt{{K: SReturn, E: k.view}}}})
}

func (k *component) proj(x *Conf) string {
	return pyText(k.view.Ev(&aEnv{c: x, spec: k.s, loc: map[string]*V{}}))
}

// pyText: a value as the checker prints it.
func pyText(v *V) string {
	switch v.K {
	case VBool:
		if v.truth() {
			return "True"
		}
		return "False"
	case VInt:
		return fmt.Sprint(v.I)
	case VTuple:
		l := []string{}
		for _, x := range v.L {
			l = append(l, pyText(x))
		}
		return "(" + strings.Join(l, ", ") + ")"
	}
	return v.String()
}

// explore: the states and steps of the component.
func (k *component) explore(c *Case, limit int) {
	ref := refFor(k.s, k.o, Quirks{})
	ref.Limit = limit
	rg, merr, ok := ref.reference()
	if !ok {
		c.Discard("too-big")
	}
	if merr != "" {
		c.Discard("model-error")
	}
	// the graph has to be the checker's: differences are C01's matter
	rg = truth(c, k.s, k.o)
	k.rg = rg
	k.confs, k.steps = nil, nil
	for i, x := range rg.C {
		if x == nil {
			continue
		}
		k.confs = append(k.confs, x)
		for _, e := range rg.N[i].Out {
			k.steps = append(k.steps, [2]*Conf{x, rg.C[e.To]})
		}
	}
}

func (k *component) file(yaml string) *ast.File {
	f := k.s.File()
	f.SourceInfo.FileName = k.name + ".fizz"
	setFrontMatter(f, yaml)
	return f
}

func (k *component) yaml() string {
	return fmt.Sprintf("options:\n  max_concurrent_actions: %d\n  crash_on_yield: false\ndeadlock_detection: false\n", k.o.MaxConc)
}

// obsHeap identifies the state variables (with the fields of roles) of a configuration.
func obsHeap(x *Conf) string {
	o := x.Obs()
	return o[:strings.LastIndex(o, " t")]
}

type tuple struct{ from, to []*Conf }

func runC26(c *Case) {
	n := 2 + c.W(4, 1)
	var ks []*component
	names := []string{"Left", "Right", "Third"}
	shuffle(c.Src, names)
	kind := c.N(5)
	for i := 0; i < n; i++ {
		k := &component{name: names[i]}
		if i > 0 && c.P(1, 4) { // the same specification twice, possibly with another projection
			k.g = ks[0].g
			s := *ks[0].s
			s.Funcs = k.g.S.Funcs
			k.s, k.o = &s, ks[0].o
		} else {
			k.g = genSpec(c.Src, partCfg(c))
			k.s = k.g.S
			k.o = Opts{MaxActions: 60, MaxConc: 1 + c.W(3, 1), NoDeadlock: true}
		}
		kd := kind
		if c.P(1, 6) {
			kd = c.N(5)
		}
		k.view = k.viewExpr(kd)
		k.addView()
		k.explore(c, 60)
		ks = append(ks, k)
	}
	// joint steps: by projection before and after
	keys := make([]map[string]map[[2]*Conf]bool, n)
	for i, k := range ks {
		keys[i] = map[string]map[[2]*Conf]bool{}
		put := func(a, b *Conf) {
			key := k.proj(a) + " -> " + k.proj(b)
			if keys[i][key] == nil {
				keys[i][key] = map[[2]*Conf]bool{}
			}
			keys[i][key][[2]*Conf{a, b}] = true
		}
		for _, x := range k.confs {
			put(x, x)
		}
		for _, e := range k.steps {
			put(e[0], e[1])
		}
	}
	var joint []tuple
	differ := false
	for key := range keys[0] {
		all := true
		for i := range ks {
			all = all && keys[i][key] != nil
		}
		if !all {
			differ = true
			continue
		}
		var rec func(i int, from, to []*Conf, moved bool)
		rec = func(i int, from, to []*Conf, moved bool) {
			if i == n {
				if moved {
					joint = append(joint, tuple{append([]*Conf{}, from...), append([]*Conf{}, to...)})
				}
				if len(joint) > 4000 {
					c.Discard("too-many-joint-steps")
				}
				return
			}
			for p := range keys[i][key] {
				rec(i+1, append(from, p[0]), append(to, p[1]), moved || obsHeap(p[0]) != obsHeap(p[1]))
			}
		}
		rec(0, nil, nil, false)
	}
	// stable order: the choices below must not depend on that of a map
	sort.Slice(joint, func(i, j int) bool { return joint[i].key() < joint[j].key() })
	// assertions of the composition
	spec := &Spec{}
	env := func(t tuple, trans bool) *aEnv {
		e := &aEnv{c: t.to[0], spec: spec, loc: map[string]*V{}}
		b, a := &V{K: VRec}, &V{K: VRec}
		for i, k := range ks {
			e.loc[k.name] = structOf(t.to[i], 0)
			b.set(vStr(k.name), structOf(t.from[i], 0))
			a.set(vStr(k.name), structOf(t.to[i], 0))
		}
		if trans {
			e.loc["before"], e.loc["after"] = b, a
		}
		return e
	}
	loc := func(i int, pre string) (Expr, LV) {
		v := pick(c.Src, ks[i].g.Vars)
		x := Expr(Var(ks[i].name))
		if pre != "" {
			x = Attr{Var(pre), ks[i].name}
		}
		return Attr{x, v.N}, v
	}
	intLoc := func(i int, pre string) Expr {
		x := Expr(Var(ks[i].name))
		if pre != "" {
			x = Attr{Var(pre), ks[i].name}
		}
		return Attr{x, ks[i].g.Vars[0].N} // the first variable is an integer
	}
	pair := func() (int, int) {
		i := c.N(n)
		j := c.N(n - 1)
		if j >= i {
			j++
		}
		return i, j
	}
	always := func() Expr {
		i, j := pair()
		if len(joint) > 0 && c.P(1, 2) {
			t := joint[c.N(len(joint))]
			x, v := loc(i, "")
			y, w := loc(j, "")
			if c.P(1, 6) { // possibly never both
				t.to = append([]*Conf{}, t.to...)
				t.to[j] = ks[j].confs[c.N(len(ks[j].confs))]
			}
			return Not{Bin{"and", Bin{"==", x, valExpr(t.to[i].G[v.N])}, Bin{"==", y, valExpr(t.to[j].G[w.N])}}}
		}
		switch c.N(3) {
		case 0:
			return Bin{"<=", Bin{"+", intLoc(i, ""), intLoc(j, "")}, I(1 + c.N(4))}
		case 1:
			return Bin{pick(c.Src, []string{"<=", "!=", "=="}), intLoc(i, ""), intLoc(j, "")}
		}
		return B(true)
	}
	trans := func() Expr {
		i, j := pair()
		if len(joint) > 0 && c.P(1, 2) {
			t := joint[c.N(len(joint))]
			x, v := loc(i, "before")
			y, w := loc(j, "after")
			return Not{Bin{"and", Bin{"==", x, valExpr(t.from[i].G[v.N])}, Bin{"==", y, valExpr(t.to[j].G[w.N])}}}
		}
		switch c.N(4) {
		case 0:
			return Bin{"<=", intLoc(i, "before"), intLoc(i, "after")}
		case 1:
			return Bin{"or", Bin{"==", intLoc(i, "before"), intLoc(i, "after")}, Bin{"==", intLoc(j, "before"), intLoc(j, "after")}}
		case 2:
			return Bin{"<=", intLoc(i, "before"), Bin{"+", intLoc(j, "after"), I(c.N(3))}}
		}
		return B(true)
	}
	bad := map[int]bool{}
	mixed := false
	for m := 1 + c.N(3); m > 0; m-- {
		a := Assertion{Name: "P" + itoa(m), Kind: "always"}
		var e Expr
		if c.P(1, 3) {
			a.Kind, e = "transition", trans()
		} else {
			e = always()
		}
		good := false
		for _, t := range joint {
			if e.Ev(env(t, a.Kind == "transition")).truth() {
				good = true
			} else {
				bad[len(spec.Asserts)] = true
			}
		}
		mixed = mixed || good && bad[len(spec.Asserts)]
		a.Blk = &Block{Flow: FAtomic, Stmts: []*Stmt{{K: SReturn, E: e}}}
		if a.Kind == "always" && c.P(1, 3) {
			a.Blk, a.E = nil, e
		}
		spec.Asserts = append(spec.Asserts, a)
	}
	f := spec.File()
	f.Composition = &ast.Composition{}
	files := map[string]any{}
	text := ""
	abort := ""
	for i, k := range ks {
		f.Composition.Specs = append(f.Composition.Specs, &ast.SpecEntry{Name: k.name, Expr: &ast.Expr{PyExpr: k.name + ".view"}})
		s := *k.s
		if abort == "" && c.P(1, 25) { // a component that fails by itself
			x := pick(c.Src, k.confs)
			s.Asserts = []Assertion{{Name: "Own", Kind: "always", E: Not{Bin{"==", Var(k.g.Vars[0].N), valExpr(x.G[k.g.Vars[0].N])}}}}
			abort = k.name
		}
		ks[i].s = &s
		files[k.name+".json"] = k.file(k.yaml())
		files[k.name+".fizz"] = s.Text()
		text += "==== " + k.name + "\n" + k.yaml() + s.Text()
	}
	files["spec.json"] = f
	var args []string
	if c.P(1, 2) {
		args = append(args, "--test")
	}
	if c.P(1, 4) {
		args = append(args, "--exploration_strategy", pick(c.Src, []string{"bfs", "dfs"}))
	}
	for i := 0; i < n; i++ {
		text += fmt.Sprintf("compose %s: %s.view\n", names[i], names[i])
	}
	c.Sample(text + spec.Text() + fmt.Sprintf("%d joint steps, violated assertions %v, own failure %q", len(joint), bad, abort))
	if len(joint) > 0 && (mixed || differ) {
		c.NonTrivial(text + spec.Text())
	}
	r := runCLI(c, files, args...)
	defer r.close()
	fail := func(format string, a ...any) {
		c.Fail("%s\nassertions violated by joint steps: %v, %d joint steps\n%s", fmt.Sprintf(format, a...), bad, len(joint), r.short())
	}
	if r.Code != 0 {
		fail("the run ended with exit status %d", r.Code)
	}
	if abort != "" {
		c.Label("a component fails")
		if !strings.Contains(r.Out, "Error in model checking composed spec: "+abort) || strings.Contains(r.Out, "Error composing") {
			fail("%s fails by itself, the run does not end there", abort)
		}
		return
	}
	if strings.Count(r.Out, "PASSED: Model checker completed successfully") != n {
		fail("%d specifications pass by themselves", n)
	}
	reported := strings.Contains(r.Out, "Error composing transitions: failed to compose transitions")
	if strings.Contains(r.Out, "Error composing transitions") != reported {
		fail("the composition was not examined")
	}
	if reported != (len(bad) > 0) {
		if reported {
			fail("a violation is reported, there is none")
		}
		fail("no violation is reported")
	}
	if !reported {
		c.Label("holds")
		return
	}
	c.Label("violated")
	m := regexp.MustCompile(`Composed (state|transition) failed invariants: map\[0:\[([0-9 ]+)\]\]`).FindStringSubmatch(r.Out)
	if m == nil {
		fail("the failing assertion is not reported")
	}
	kindOf := map[string]string{"state": "always", "transition": "transition"}[m[1]]
	var which []int
	for _, x := range strings.Fields(m[2]) {
		i, _ := strconv.Atoi(x)
		if !bad[i] || spec.Asserts[i].Kind != kindOf {
			fail("the violation of assertion %d is reported", i)
		}
		which = append(which, i)
	}
	c.Label("violated: " + kindOf)
	// the drawing ends in the failing joint state
	d, err := parseDot(r.outFile("error-graph.dot"))
	if err != nil {
		fail("error-graph.dot cannot be read: %v\n%s", err, r.outFile("error-graph.dot"))
	}
	end := "merged"
	if kindOf == "transition" {
		end = "composite_after"
	}
	last := func(end string) []string {
		l := make([]string, n)
		for _, e := range d.Edges {
			if e.To != end || strings.HasPrefix(e.From, "composite") {
				continue
			}
			for i, k := range ks {
				if strings.HasPrefix(e.From, k.name+"_") {
					if d.Nodes[e.From] == nil {
						fail("error-graph.dot connects %s, which is not drawn", e.From)
					}
					l[i] = d.Nodes[e.From]["label"]
				}
			}
		}
		return l
	}
	match := func(l []string, x []*Conf) bool {
		for i := range ks {
			if !showsVars(l[i], x[i]) {
				return false
			}
		}
		return true
	}
	to := last(end)
	var from []string
	if kindOf == "transition" {
		from = last("composite_before")
	}
	for _, t := range joint {
		if !match(to, t.to) || from != nil && !match(from, t.from) {
			continue
		}
		violates := true
		for _, i := range which {
			a := spec.Asserts[i]
			e := a.E
			if a.Blk != nil {
				e = a.Blk.Stmts[0].E
			}
			violates = violates && !e.Ev(env(t, kindOf == "transition")).truth()
		}
		if violates {
			return
		}
	}
	fail("the drawing shows the joint states %v -> %v, no joint step there violates the assertions reported\n%s", from, to, r.outFile("error-graph.dot"))
}

var plainText = strings.NewReplacer("\\", "", "\n", "", " ", "")

// showsVars: the text has the values that the numbers and truth values among the state variables have.
func showsVars(text string, x *Conf) bool {
	text = plainText.Replace(text)
	for n, v := range x.G {
		var w string
		switch v.K {
		case VInt:
			w = fmt.Sprint(v.I)
		case VBool:
			w = fmt.Sprint(v.truth())
		default:
			continue
		}
		w = "\"" + n + "\":" + w
		if !strings.Contains(text, w+",") && !strings.Contains(text, w+"}") {
			return false
		}
	}
	return true
}

func (t tuple) key() string {
	s := ""
	for i := range t.from {
		s += t.from[i].Key() + "|" + t.to[i].Key() + "|"
	}
	return s
}

func runC27(c *Case) {
	abs := &component{name: "Abs", g: genSpec(c.Src, partCfg(c))}
	abs.s = abs.g.S
	abs.o = Opts{MaxActions: 60, MaxConc: 1 + c.W(3, 1), NoDeadlock: true}
	impl := &component{name: "spec", o: abs.o}
	kind := c.N(5)
	related := c.P(2, 3)
	if related { // actions of the same specification, some on one side only
		c.Label("related")
		impl.g = abs.g
		s := *abs.s
		impl.s = &s
		drop := func(k *component) {
			s := *k.s
			s.Actions = nil
			for _, a := range k.g.S.Actions {
				if !c.P(1, 3) {
					s.Actions = append(s.Actions, a)
				}
			}
			if len(s.Actions) > 0 {
				k.s = &s
			}
		}
		if c.P(1, 2) {
			drop(impl)
		}
		if c.P(1, 3) {
			drop(abs)
		}
		if c.P(1, 4) {
			impl.o.MaxConc = 3 - impl.o.MaxConc
		}
	} else {
		impl.g = genSpec(c.Src, partCfg(c))
		impl.s = impl.g.S
	}
	abs.view = abs.viewExpr(kind)
	if related && c.P(3, 4) {
		impl.view = abs.view
	} else {
		impl.view = impl.viewExpr(kind)
	}
	abs.addView()
	impl.addView()
	abs.explore(c, 200)
	impl.explore(c, 200)
	allowed := map[string]bool{}
	for _, x := range abs.confs {
		allowed[abs.proj(x)+","+abs.proj(x)] = true
	}
	for _, e := range abs.steps {
		allowed[abs.proj(e[0])+","+abs.proj(e[1])] = true
	}
	bad, views := map[string]bool{}, map[string]bool{}
	moves := 0
	for _, x := range impl.confs {
		views[impl.proj(x)] = true
	}
	for _, e := range impl.steps {
		if !confChanged(e[0], e[1]) {
			continue
		}
		moves++
		if k := impl.proj(e[0]) + "," + impl.proj(e[1]); !allowed[k] {
			bad[k] = true
		}
	}
	if c.P(1, 12) { // an assertion of its own holds
		impl.s.Asserts = append(impl.s.Asserts, Assertion{Name: "Own", Kind: "always", E: B(true)})
	}
	f := impl.file(impl.yaml())
	f.SourceInfo.FileName = "spec.fizz"
	entries := []*ast.SpecEntry{{Name: "_", Expr: &ast.Expr{PyExpr: "view"}}, {Name: "Abs", Expr: &ast.Expr{PyExpr: "Abs.view"}}}
	if c.P(1, 2) {
		entries[0], entries[1] = entries[1], entries[0]
	}
	f.Refinements = []*ast.Refinement{{Specs: entries}}
	files := map[string]any{"spec.json": f, "spec.fizz": impl.s.Text(), "Abs.json": abs.file(abs.yaml()), "Abs.fizz": abs.s.Text()}
	var args []string
	if c.P(1, 2) {
		args = append(args, "--test")
	}
	if c.P(1, 4) {
		args = append(args, "--exploration_strategy", pick(c.Src, []string{"bfs", "dfs"}))
	}
	text := "==== Abs\n" + abs.yaml() + abs.s.Text() + "==== refined by\n" + impl.yaml() + impl.s.Text()
	c.Sample(fmt.Sprintf("%sargs %v\nsteps that map to no step of Abs: %v", text, args, bad))
	if moves >= 2 && len(views) >= 2 {
		c.NonTrivial(text)
	}
	r := runCLI(c, files, args...)
	defer r.close()
	fail := func(format string, a ...any) {
		c.Fail("%s\nsteps that map to no step of Abs: %v\n%s", fmt.Sprintf(format, a...), bad, r.short())
	}
	if r.Code != 0 {
		fail("the run ended with exit status %d", r.Code)
	}
	v := r.verdictLines()
	if len(v) != 2 || !strings.Contains(v[0], "PASSED") {
		fail("the verdicts are %q", v)
	}
	refused := strings.Contains(v[1], "FAILED: Model checker failed")
	if !refused && !strings.Contains(v[1], "PASSED") {
		fail("the verdicts are %q", v)
	}
	if refused != (len(bad) > 0) {
		if refused {
			fail("the refinement is refused, each step maps to a step of Abs or to none")
		}
		fail("the refinement is accepted")
	}
	if !refused {
		c.Label("refines")
		return
	}
	c.Label("does not refine")
	m := regexp.MustCompile(`(?m)^Join hash not found for key: (.*)$`).FindStringSubmatch(r.Out)
	if m == nil || !bad[m[1]] {
		fail("the step that does not map is reported as %q", m)
	}
	// the counterexample ends in such a step
	tr := printedTrace(r.Out)
	if len(tr) == 0 {
		fail("no counterexample is printed")
	}
	l := tr[len(tr)-1].State
	for _, e := range impl.steps {
		if confChanged(e[0], e[1]) && impl.proj(e[0])+","+impl.proj(e[1]) == m[1] && showsVars(l, e[1]) {
			return
		}
	}
	fail("the counterexample ends in %s, no step there is refused with %s", l, m[1])
}
