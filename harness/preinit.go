package main

import (
	"fmt"
	"strings"
)

// ---- C20: pre-init hooks ----

func init() {
	register(&Prop{ID: "C20", Quick: 900, Thorough: 60000,
		Rule: "the hook changes the value of a constant that the model uses, and the explored graph differs from the graph of the model without the hook",
		Run:  runC20})
}

// pgen: a model with constants, and a hook with its effect
type pgen struct {
	*Gen
	k     map[string]*V // the constants now
	hook  []string
	feats map[string]bool
}

func (p *pgen) i(n string) int64 { return p.k[n].I }

var preInts = []string{"K", "M", "N"}

func (p *pgen) funcs() []string {
	return []string{
		"def lim(x):\n    return x < K\n",
		"def inc(x):\n    if lim(x):\n        return x + 1\n    return M\n",
		"top = lambda x: x >= N\n",
	}
}

// expr: the text and value of a small int expression over the constants
func (p *pgen) cexpr() (string, int64) {
	a := pick(p.Src, preInts)
	switch p.N(6) {
	case 0:
		n := p.Range(0, 4)
		return fmt.Sprint(n), int64(n)
	case 1:
		b := pick(p.Src, preInts)
		return fmt.Sprintf("(%s + %s) %% 4", a, b), (p.i(a) + p.i(b)) % 4
	case 2:
		return "len(L)", int64(len(p.k["L"].L))
	case 3:
		return fmt.Sprintf("%s if %s > 1 else 3", a, a), func() int64 {
			if p.i(a) > 1 {
				return p.i(a)
			}
			return 3
		}()
	case 4:
		return "max(L + [0])", func() int64 {
			m := int64(0)
			for _, x := range p.k["L"].L {
				m = max(m, x.I)
			}
			return m
		}()
	}
	return fmt.Sprintf("(%s + 1) %% 4", a), (p.i(a) + 1) % 4
}

func (p *pgen) hookStmt() {
	a := pick(p.Src, preInts)
	add := func(f string, v ...any) { p.hook = append(p.hook, fmt.Sprintf(f, v...)) }
	set := func(n string, v int64) { p.k[n] = vInt(v) }
	switch p.N(11) {
	case 0, 1, 2:
		s, v := p.cexpr()
		add("%s = %s", a, s)
		set(a, v)
	case 3:
		b := pick(p.Src, preInts)
		add("%s, %s = %s, %s", a, b, b, a)
		if a != b {
			p.k[a], p.k[b] = p.k[b], p.k[a]
		}
	case 4:
		n := p.Range(1, 3)
		add("L = [i for i in range(%d)]", n)
		l := vList()
		for i := 0; i < n; i++ {
			l.L = append(l.L, vInt(int64(i)))
		}
		p.k["L"] = l
	case 5:
		if len(p.k["L"].L) > 2 {
			return
		}
		add("L.append(%s)", a)
		l := vList(append([]*V{}, p.k["L"].L...)...)
		l.L = append(l.L, vInt(p.i(a)))
		p.k["L"] = l
	case 6:
		s, v := p.cexpr()
		add("tmp_ = %s\n%s = tmp_ + 1", s, a)
		set(a, v+1)
	case 7:
		s, v := p.cexpr()
		add("if %s == %d:\n    %s = 2\nelse:\n    %s = 1", s, v, a, a)
		set(a, 2)
	case 8:
		add("def twice_(x):\n    return (x * 2) %% 5\n\n%s = twice_(%s)", a, a)
		set(a, p.i(a)*2%5)
	case 9:
		s, v := p.cexpr()
		add("D[\"hi\"] = %s", s)
		p.k["hi"] = vInt(v)
	default:
		s, v := p.cexpr()
		add("D = dict(hi = %s)", s)
		p.k["hi"] = vInt(v)
	}
}

func (p *pgen) lines() []string {
	var l []string
	for _, s := range p.k["L"].L {
		l = append(l, fmt.Sprint(s.I))
	}
	return []string{fmt.Sprintf("K = %d", p.i("K")), fmt.Sprintf("M = %d", p.i("M")), fmt.Sprintf("N = %d", p.i("N")),
		"L = [" + strings.Join(l, ", ") + "]", fmt.Sprintf("D = {\"hi\": %d}", p.i("hi"))}
}

// env gives the model's functions the values of the constants
func (p *pgen) use(kf func(n string) int64) {
	v := p.intVar()
	lim := func(x int64) bool { return x < kf("K") }
	f := func(s string, g func(x int64) *V) Expr {
		e := v.E()
		return rawF(fmt.Sprintf(s, e.Str()), func(en Env) *V { return g(e.Ev(en).I) })
	}
	a := act("Use", FAtomic)
	switch p.N(5) {
	case 0:
		a.Blk.Stmts = append(a.Blk.Stmts, &Stmt{K: SRequire, E: f("lim(%s)", func(x int64) *V { return vBool(lim(x)) })}, set(v.N, bin(v.E(), "+", I(1))))
	case 1:
		a.Blk.Stmts = append(a.Blk.Stmts, set(v.N, f("inc(%s)", func(x int64) *V {
			if lim(x) {
				return vInt(x + 1)
			}
			return vInt(kf("M"))
		})))
	case 2:
		a.Blk.Stmts = append(a.Blk.Stmts, iff(f("top(%s)", func(x int64) *V { return vBool(x >= kf("N")) }), blk(FAtomic, set(v.N, I(0)))))
	case 3:
		a.Blk.Stmts = append(a.Blk.Stmts, set(v.N, rawF("D[\"hi\"]", func(Env) *V { return vInt(kf("hi")) })))
	default:
		a.Blk.Stmts = append(a.Blk.Stmts, anyIn(v.N, Var("L")))
	}
	p.S.Actions = append(p.S.Actions, a)
}

func genPre(c *Case) *pgen {
	cfg := cfgAll()
	cfg.Lean = true
	cfg.PreConsts = true
	cfg.Returns = false
	p := &pgen{Gen: genSpec(c.Src, cfg), k: map[string]*V{}}
	for _, n := range preInts {
		p.k[n] = vInt(int64(p.Range(1, 3)))
	}
	p.k["L"] = vList(vInt(0), vInt(1))
	p.k["hi"] = vInt(int64(p.Range(0, 3)))
	for i := p.Range(1, 2); i > 0; i-- {
		p.use(func(n string) int64 { return p.k[n].I })
	}
	return p
}

func (p *pgen) apply() {
	p.S.Consts = append(p.lines(), p.funcs()...)
	for n, v := range p.k {
		if n != "hi" {
			p.S.ConstV[n] = v
		}
	}
}

var badHooks = []string{"K = nowhere", "K = = 1", "K = 1 // 0", "K = 1 + \"a\"", "L.append(1, 2)", "D = D[\"none\"]",
	"K = 3\nM = L[7]", "if K:\nM = 1", "def f(:\n  pass", "fail(\"no\")", "K = symmetry.nominal(1)"}

func runC20(c *Case) {
	p := genPre(c)
	p.apply()
	orig := p.S.File()
	origText := p.S.Text()
	o := Opts{MaxActions: 30, MaxConc: p.Range(1, 2), NoDeadlock: true}
	if c.P(1, 10) {
		// a hook that fails
		h := pick(c.Src, badHooks)
		if c.P(1, 2) {
			h = "N = 2\n" + h
		}
		if c.P(1, 4) {
			p.S.Consts = nil
			orig = (&Spec{Init: blk(FAtomic, set("a", I(0)))}).File()
			origText = "a model without constants"
			h = "x = nowhere"
		}
		c.Sample("failing hook:\n" + h + "\n" + origText)
		c.Label("failing hook")
		o.Preinit = h
		run := runImpl(orig, o)
		if run.Panic == "" && run.Err == nil {
			c.Fail("the hook fails but no error is reported")
		}
		return
	}
	base, berr, bok := refFor(p.S, o, Quirks{}).reference()
	before := map[string]*V{}
	for n, v := range p.k {
		before[n] = v
	}
	for i := p.Range(1, 4); i > 0; i-- {
		p.hookStmt()
	}
	for _, n := range append([]string{"hi"}, preInts...) {
		if p.i(n) > 6 {
			c.Discard("large constant")
		}
	}
	o.Preinit = strings.Join(p.hook, "\n")
	if c.P(1, 3) {
		o.Preinit += "\n"
	}
	p.apply()
	c.Sample("hook:\n" + o.Preinit + "\n" + origText)
	rg, merr, ok := refFor(p.S, o, Quirks{}).reference()
	if !ok {
		c.Discard("too-big")
	}
	if merr == "" && c.P(2, 5) {
		addAlways(c, p.Gen, rg, 1)
		orig.Invariants = p.S.File().Invariants
	}
	edited := o
	edited.Preinit = ""
	run, want := runImpl(orig, o), runImpl(p.S.File(), edited)
	if merr != "" {
		if run.Panic == "" && run.Err == nil {
			c.Fail("the model with the hook's constants has an error (%s) but none is reported", merr)
		}
		c.Discard("model-error")
	}
	if run.Panic != "" || run.Err != nil {
		c.Fail("the checker failed: %v %s", run.Err, run.Panic)
	}
	if want.Panic != "" || want.Err != nil {
		c.Fail("the checker failed on the model with the constants edited: %v %s", want.Err, want.Panic)
	}
	if (run.Failed == nil) != (want.Failed == nil) {
		c.Fail("the verdict differs: with the hook the assertion failed=%v, with edited constants failed=%v", run.Failed != nil, want.Failed != nil)
	}
	hg, eg := extract(run.Init, true), extract(want.Init, true)
	if d := diffGraphs("with the hook", "with edited constants", hg, eg); d != "" {
		c.Fail("%s", d)
	}
	if run.Failed != nil {
		c.Label("assertion violated")
	} else if d := diffGraphs("checker", "reference", hg, &rg.Graph); d != "" {
		qg, _, ok := refFor(p.S, o, Quirks{ForkReset: true}).reference()
		if !ok || diffGraphs("checker", "reference", hg, &qg.Graph) != "" {
			c.Fail("the graph explored with the hook differs from the reference's: %s", d)
		}
		c.Label("known enabled-forgotten difference")
	}
	changed := false
	for n, v := range p.k {
		changed = changed || !veq(v, before[n])
	}
	if changed && (!bok || berr != "" || diffGraphs("", "", &base.Graph, &rg.Graph) != "") {
		c.NonTrivial(o.Preinit + origText)
	}
}
