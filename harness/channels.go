package main

import (
	"fmt"
	"strings"
)

// ---- C19: messages over channels ----

func init() {
	register(&Prop{ID: "C19", Quick: 900, Thorough: 90000,
		Rule: "in some reachable state at least two messages are pending, or a delivered call stops half way while another message is pending",
		Run:  runC19})
}

func runC19(c *Case) {
	g := genMsgs(c.Src, c.W(0, 3, 2))
	o := Opts{MaxActions: 60, MaxConc: g.W(0, 3, 2), NoDeadlock: true}
	c.Sample(fmt.Sprintf("maxconc=%d\n%s", o.MaxConc, g.s.Text()))
	for f := range g.feats {
		c.Label("f:" + f)
	}
	if !g.hasJobs && g.P(1, 5) {
		o.Crash = true
		if msg := crashCompare(c, g.gen(), o, Quirks{}); msg != "" {
			if crashCompare(c, g.gen(), o, Quirks{ForkReset: true}) == "" {
				c.Label("known enabled-forgotten difference")
				return
			}
			c.Fail("with crashes: %s", msg)
		}
		c.Label("with crashes")
		return
	}
	ref := refFor(g.s, o, Quirks{})
	ref.Calls = true
	ref.Limit = 400
	rg, merr, ok := ref.reference()
	if !ok {
		c.Discard("too-big")
	}
	run := runImpl(g.s.File(), o)
	if merr != "" {
		if run.Panic == "" && run.Err == nil {
			c.Fail("the model's execution has an error (%s) but the checker reported none", merr)
		}
		c.Discard("model-error")
	}
	if run.Panic != "" || run.Err != nil {
		c.Fail("the checker failed on a correct specification: %v %s", run.Err, run.Panic)
	}
	c.Label(sizeLabel(len(rg.N)))
	ig, _ := extract3(run.Init, true, true)
	if d := diffGraphs("checker", "reference", ig, &rg.Graph); d != "" {
		q := refFor(g.s, o, Quirks{ForkReset: true})
		q.Calls, q.Limit = true, 800
		qg, _, ok := q.reference()
		if ok && diffGraphs("checker", "reference", ig, &qg.Graph) == "" {
			c.Label("known enabled-forgotten difference")
			return
		}
		c.Fail("the explored graph differs from the specification's: %s", d)
	}
	two, mid, both := false, false, map[int]bool{}
	for _, x := range rg.C {
		if x == nil {
			continue
		}
		n := 0
		for k, l := range x.Msgs {
			n += len(l)
			if len(l) > 0 {
				both[k] = true
			}
		}
		two = two || n > 1
		for _, t := range x.T {
			if t != nil && n > 0 && !strings.Contains(t.F[0].Name, ".") && t.F[0].Kind == 1 {
				mid = true
			}
		}
	}
	if len(both) > 1 {
		c.Label("two channels used")
	}
	if mid {
		c.Label("a delivered call stops half way")
	}
	if two || mid {
		c.NonTrivial(g.s.Text())
	}
}
