package main

import "fmt"

func init() {
	register(&Prop{ID: "C08", Quick: 4000, Thorough: 100000,
		Rule: "at least 3 states, and some limit is reached: without the limits the model has more states",
		Run:  runC08})
}

// counted makes the number of times each action was started part of the state.
func counted(g *Gen) {
	for i, a := range g.S.Actions {
		v := "k" + itoa(i)
		g.S.Init.Stmts = append([]*Stmt{set(v, I(0))}, g.S.Init.Stmts...)
		if a.Flow != FSerial {
			a.Flow = FAtomic
			a.Blk.Flow = FAtomic
		}
		a.Blk.Stmts = append([]*Stmt{set(v, bin(Var(v), "+", I(1)))}, a.Blk.Stmts...)
	}
	for _, r := range g.S.Roles {
		for i, a := range r.Actions[1:] {
			l := LV{N: "k" + itoa(i), T: TyInt, Fd: true}
			r.Actions[0].Blk.Stmts = append([]*Stmt{py(l.Asg(I(0)))}, r.Actions[0].Blk.Stmts...)
			if a.Flow != FSerial {
				a.Flow = FAtomic
				a.Blk.Flow = FAtomic
			}
			a.Blk.Stmts = append([]*Stmt{py(l.Asg(bin(l.E(), "+", I(1))))}, a.Blk.Stmts...)
		}
	}
}

func runC08(c *Case) {
	mode := c.N(4) // 0,1: counted; 2: only atomic actions and a total; 3: anything
	cfg := verdictCfg(c)
	cfg.Lean = true
	cfg.Returns = false
	if mode == 2 {
		cfg.Serial = false
	}
	if mode < 2 && c.P(1, 2) {
		cfg.MaxActs = 2
	}
	if cfg.Calls = c.P(1, 4); cfg.Calls {
		cfg.MaxActs, cfg.MaxVars = 1, 2
	}
	g := genSpec(c.Src, cfg)
	if mode < 2 {
		counted(g)
	}
	o := opts01(g)
	o.NoDeadlock = true
	o.MaxConc = g.Range(1, 3)
	if mode < 3 || g.P(1, 2) {
		o.MaxActions = g.Range(1, 5)
		o.Total = o.MaxActions
	}
	var keys []string
	for _, a := range g.S.Actions {
		keys = append(keys, a.Name)
	}
	// names of which one is the beginning or the end of another
	if g.P(1, 2) {
		names := []string{"R", "RR", "XR", "R1", "XR1", "RX", "XXR"}
		for _, r := range g.S.Roles {
			shuffle(g.Src, names)
			for i, a := range r.Actions[1:] {
				a.Name = names[i]
			}
		}
	}
	for i, r := range g.S.Roles {
		for _, a := range r.Actions[1:] {
			keys = append(keys, r.Name+"."+a.Name, r.Name+"#."+a.Name, r.Name+"#0."+a.Name, r.Name+"#1."+a.Name)
		}
		_ = i
	}
	lim := 0
	for _, k := range keys {
		if g.P(1, 2) {
			var ao ActOpt
			if mode != 2 && g.P(1, 2) {
				ao.MaxActions = g.Range(1, 2)
				lim++
			}
			if g.P(1, 2) {
				ao.MaxConc = g.Range(1, 2)
				lim++
			}
			if o.Act == nil {
				o.Act = map[string]ActOpt{}
			}
			o.Act[k] = ao
		}
	}
	c.Sample(fmt.Sprintf("mode=%d max_actions=%d maxconc=%d %v\n%s", mode, o.Total, o.MaxConc, o.Act, g.S.Text()))
	c.Label([]string{"counted", "counted", "atomic", "any"}[mode])
	featLabels(c, g)
	ref := refFor(g.S, o, Quirks{})
	ref.Product = mode >= 2
	rg, merr, ok := ref.reference()
	if !ok {
		c.Discard("too-big")
	}
	if merr != "" {
		c.Discard("model-error")
	}
	if nontrivialGraph(rg) {
		// reached: one more action would have been possible
		reached := false
		for _, x := range rg.C {
			if x == nil {
				continue
			}
			if o.Total > 0 && x.Total >= o.Total {
				reached = true
			}
			for _, n := range x.Count {
				reached = reached || lim > 0 && n > 0
			}
			reached = reached || x.nthreads() >= o.MaxConc
		}
		if reached {
			c.NonTrivial(g.S.Text())
		}
	}
	if mode < 2 {
		checkGraph(c, g.S, o, "bounded model")
		return
	}
	run := runImpl(g.S.File(), o)
	if run.Panic != "" || run.Err != nil || run.Failed != nil {
		c.Fail("the checker failed on a correct specification: %v %s\n%s", run.Err, run.Panic, g.S.Text())
	}
	got := map[string]bool{}
	ig := extract(run.Init, true)
	for _, n := range ig.N {
		got[n.Obs] = true
	}
	missing := ""
	cmp := func(q Quirks) string {
		ref := refFor(g.S, o, q)
		ref.Product = true
		rg, _, ok := ref.reference()
		if !ok {
			c.Discard("too-big")
		}
		want := map[string]bool{}
		for _, n := range rg.N {
			want[n.Obs] = true
		}
		for _, k := range keysOf(got) {
			if !want[k] {
				return fmt.Sprintf("the explored state %s is not reachable within the limits", k)
			}
		}
		for _, k := range keysOf(want) {
			if !got[k] && mode == 3 {
				missing = k
			}
			if !got[k] && mode == 2 {
				return fmt.Sprintf("the state %s is reachable within the limits but was not explored", k)
			}
		}
		return ""
	}
	d := cmp(Quirks{})
	if d == "" && missing != "" {
		// without limits on the number of actions, the same state is explored?
		o2 := o
		o2.MaxActions, o2.Total, o2.Act = 60, 0, map[string]ActOpt{}
		for k, a := range o.Act {
			a.MaxActions = 0
			o2.Act[k] = a
		}
		if _, _, ok := refFor(g.S, o2, Quirks{}).reference(); !ok {
			c.Discard("too-big")
		}
		for _, n := range extract(runImpl(g.S.File(), o2).Init, true).N {
			if n.Obs == missing {
				c.Known("bound-first-path", "the state %s is reachable within the limits but was not explored", missing)
				return
			}
		}
		d = fmt.Sprintf("the state %s is not explored, even without the limits", missing)
	}
	if d != "" {
		if cmp(Quirks{ForkReset: true}) == "" {
			c.Label("known enabled-forgotten difference")
			return
		}
		c.Fail("%s", d)
	}
}
