package main

import (
	"fmt"
	"strings"

	ast "fizz/proto"
)

// C01: the explored graph is exactly the specification's.

func opts01(g *Gen) Opts {
	return Opts{MaxActions: 60, MaxConc: g.Range(1, 2)}
}

// refFor builds the reference for a spec and options.
func refFor(s *Spec, o Opts, q Quirks) *Ref {
	return &Ref{S: s, Q: q, MaxConc: o.MaxConc, Act: o.Act, Labels: true, Limit: 1500, Crash: o.Crash, Total: o.Total}
}

// checkGraph compares the implementation's graph with the reference's; it reports the known finding when the
// difference is exactly the one the quirk describes.
func checkGraph(c *Case, s *Spec, o Opts, what string) (*Run, *RefGraph) {
	rg, merr, ok := refFor(s, o, Quirks{}).reference()
	if !ok {
		c.Discard("too-big")
	}
	run := runImpl(s.File(), o)
	if merr != "" {
		if run.Panic == "" && run.Err == nil {
			c.Fail("%s: the specification's execution has an error (%s) but the checker reported none\n%s", what, merr, s.Text())
		}
		c.Label("model-error")
		c.Discard("model-error")
	}
	if run.Panic != "" || run.Err != nil {
		c.Fail("%s: the checker failed on a correct specification: %v %s\n%s", what, run.Err, run.Panic, s.Text())
	}
	ig := extract(run.Init, true)
	d := diffGraphs("checker", "reference", ig, &rg.Graph)
	if d != "" {
		qg, _, ok := refFor(s, o, Quirks{ForkReset: true}).reference()
		if ok && diffGraphs("checker", "reference", ig, &qg.Graph) == "" {
			c.Known("enabled-forgotten-at-choice", "%s", d)
			return run, qg
		}
		c.Fail("%s: the explored graph differs from the specification's: %s\n%s", what, d, s.Text())
	}
	return run, rg
}

func nontrivialGraph(g *RefGraph) bool {
	if len(g.N) < 3 {
		return false
	}
	for _, n := range g.N {
		if len(n.Out) > 1 {
			return true
		}
	}
	return false
}

func featLabels(c *Case, g *Gen) {
	for f := range g.feats {
		c.Label("f:" + strings.TrimSpace(f))
	}
}

func sizeLabel(n int) string {
	switch {
	case n <= 2:
		return "states<=2"
	case n <= 10:
		return "states<=10"
	case n <= 100:
		return "states<=100"
	}
	return "states>100"
}

func init() {
	register(&Prop{ID: "C01", Quick: 2000, Thorough: 120000,
		Rule: "the reference graph has at least 3 states and at least one state with more than one outgoing step",
		Run: func(c *Case) {
			cfg := cfgAll()
			g := genSpec(c.Src, cfg)
			o := opts01(g)
			c.Sample(fmt.Sprintf("maxconc=%d\n%s", o.MaxConc, g.S.Text()))
			run, rg := checkGraph(c, g.S, o, "C01")
			if c.P(1, 3) {
				checkInitBlock(c, g.S, o, run)
			}
			featLabels(c, g)
			c.Label(sizeLabel(len(rg.N)))
			if nontrivialGraph(rg) {
				c.NonTrivial(g.S.Text())
			}
		},
		Fixed: []func(c *Case){
			func(c *Case) { // x = oneof [..] and nothing else: the assignment counts as a statement
				fixedSpec(c, &Spec{Init: blk(FAtomic, set("x", I(0))), Actions: []*Action{
					act("A", FAtomic, anyIn("x", ListE{I(0), I(1)}), iff(bin(Var("x"), "==", I(5)), blk(FAtomic, set("x", I(0)))))}}, Opts{MaxActions: 5, MaxConc: 1})
			},
		}})
}

// checkInitBlock: the same specification with an init: block instead of the Init action, if Init only assigns variables
func checkInitBlock(c *Case, s *Spec, o Opts, run *Run) {
	code := ""
	for _, st := range s.Init.Stmts {
		if st.K != SPy || st.Label != "" {
			return
		}
		if _, ok := st.Py.(PyCall); ok {
			return
		}
		code += st.Py.Str() + "\n"
	}
	if strings.Contains(code, "record(") {
		return // (the builtins are not available there)
	}
	c.Label("init block")
	f := s.File()
	f.States, f.Actions = &ast.StateVars{Code: code}, f.Actions[1:]
	r2 := runImpl(f, o)
	if r2.Panic != "" || r2.Err != nil {
		c.Fail("with an init: block the checker fails: %v %s\n%s", r2.Err, r2.Panic, s.Text())
	}
	a, b := extract(run.Init, true), extract(r2.Init, true)
	if d := diffGraphs("init: block", "Init action", b, a); d != "" {
		c.Fail("the graph with an init: block is another one than with an Init action: %s\n%s", d, s.Text())
	}
}

func fixedSpec(c *Case, s *Spec, o Opts) {
	c.Sample(s.Text())
	checkGraph(c, s, o, "fixed case")
}
