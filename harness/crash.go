package main

import (
	"fmt"
	"strings"
)

// ---- C09: crashes ----

func init() {
	register(&Prop{ID: "C09", Quick: 900, Thorough: 60000,
		Rule: "a reachable crash loses a thread stopped in the middle of an action, or resets a field that had changed",
		Run:  runC09})
}

// excluded: crashes of threads running the action are turned off
func crashOff(o Opts, root string) bool {
	a, ok := o.Act[root]
	return ok && a.Crash != nil && !*a.Crash
}

// threadCrash: the configuration after thread t stopped for good
func threadCrash(c *Conf, t int) *Conf {
	n := c.clone()
	n.T[t] = nil
	if t != c.Cur {
		for _, f := range c.Forks {
			x := f.clone()
			x.T[t] = nil
			n.Forks = append(n.Forks, x)
		}
	}
	return n
}

func hasSpec(r *RoleDef) bool { return len(r.Durable)+len(r.Ephemeral) > 0 }

func (r *RoleDef) durable(f string) bool {
	if len(r.Durable) > 0 {
		for _, x := range r.Durable {
			if x == f {
				return true
			}
		}
		return false
	}
	for _, x := range r.Ephemeral {
		if x == f {
			return false
		}
	}
	return true
}

// waiting: the role is waiting for a call to another role to return
func waiting(c *Conf, role int) bool {
	for _, t := range c.T {
		if t == nil {
			continue
		}
		top := t.F[len(t.F)-1].Obj
		for _, f := range t.F[:len(t.F)-1] {
			if f.Obj == role && top != role {
				return true
			}
		}
	}
	return false
}

func roleCrash1(c *Conf, role int) (*Conf, bool) {
	n := c.clone()
	cur := false
	for i, t := range n.T {
		if t != nil && t.F[len(t.F)-1].Obj == role {
			n.T[i] = nil
			cur = cur || i == c.Cur
		}
	}
	r := n.Roles[role]
	// the initial value may be a reference to a role instance: those are positions, which clone keeps
	for i, k := range r.Fields.DK {
		if !r.Def.durable(k.S) {
			if v := r.Init.get(k); v != nil {
				r.Fields.DV[i] = v.clone(map[*V]*V{})
			}
		}
	}
	return n, cur
}

// roleCrash: the configuration after a role instance crashed
func roleCrash(c *Conf, role int) *Conf {
	n, cur := roleCrash1(c, role)
	if !cur {
		for _, f := range c.Forks {
			x, _ := roleCrash1(f, role)
			n.Forks = append(n.Forks, x)
		}
	}
	return n
}

func sameButThreads(a, b *Conf) bool { return !confChanged(a, b) }

func runC09(c *Case) {
	cfg := verdictCfg(c)
	cfg.Lean = c.P(2, 3)
	cfg.Durable = true
	cfg.Labels = false
	cfg.Returns = false
	cfg.InitChoice = c.P(1, 2)
	if cfg.Calls = c.P(1, 4); cfg.Calls {
		cfg.MaxActs, cfg.MaxVars = 1, 2
	}
	g := genSpec(c.Src, cfg)
	g.plainNames()
	o := opts01(g)
	o.NoDeadlock = true
	o.Crash = g.P(7, 8)
	if g.P(1, 3) {
		o.Act = map[string]ActOpt{}
		off, on := false, true
		for _, a := range g.S.Actions {
			switch g.N(4) {
			case 0:
				o.Act[a.Name] = ActOpt{Crash: &off}
			case 1:
				o.Act[a.Name] = ActOpt{Crash: &on}
			}
		}
		for _, r := range g.S.Roles {
			for _, a := range r.Actions[1:] {
				if g.P(1, 3) {
					o.Act[r.Name+"."+a.Name] = ActOpt{Crash: &off}
				}
			}
		}
	}
	switch g.N(5) {
	case 0:
		o.Strategy, o.MaxActions = "dfs", 1000000
	case 1:
		o.Strategy, o.MaxActions, o.Seed = "random", 1000000, int64(g.Range(1, 9))
	case 2:
		o.PQ = true
	}
	var offs []string
	for k := range o.Act {
		if crashOff(o, k) {
			offs = append(offs, k)
		}
	}
	c.Sample(fmt.Sprintf("maxconc=%d crash=%v off=%v strategy=%s pq=%v\n%s", o.MaxConc, o.Crash, offs, o.Strategy, o.PQ, g.S.Text()))
	featLabels(c, g)
	if msg := crashCompare(c, g, o, Quirks{}); msg != "" {
		if crashCompare(c, g, o, Quirks{ForkReset: true}) == "" {
			c.Label("known enabled-forgotten difference")
			return
		}
		c.Fail("%s", msg)
	}
}

func obsEdge(a, l, b string) string { return a + "\n    --" + l + "-->\n    " + b }

func crashCompare(c *Case, g *Gen, o Opts, q Quirks) (msg string) {
	ref := refFor(g.S, o, q)
	ref.Labels = false
	must, may, steps, mustSteps := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	obs, mayObs := map[string]*Conf{}, map[string]*Conf{}
	nontriv := false
	tooLarge, merr := false, ""
	func() {
		defer func() {
			if x := recover(); x != nil {
				switch e := x.(type) {
				case tooBig:
					tooLarge = true
				case evalErr:
					merr = e.msg
				default:
					panic(x)
				}
			}
		}()
		// lower bound: the thread that just stopped crashes, or a role crashes where a thread just stopped;
		// upper bound: whatever crashes wherever threads are stopped
		type st struct {
			c      *Conf
			normal bool // reached by a step
		}
		key := func(x *Conf) string {
			k := x.Key()
			if len(x.Forks) > 0 {
				k += "|forks"
			}
			for _, r := range x.Roles {
				if hasSpec(r.Def) {
					var b strings.Builder
					r.Init.canon(&b, x.roleName)
					k += "|" + b.String()
				}
			}
			return k
		}
		explore := func(low bool, sink func(from *Conf, l string, to *Conf, crash bool), seenObs map[string]*Conf) {
			seen := map[string]*st{}
			var queue []*st
			add := func(x *Conf, normal bool) {
				k := key(x)
				s := seen[k]
				if s == nil {
					if len(seen) > 1200 {
						panic(tooBig{})
					}
					s = &st{c: x}
					seen[k] = s
					seenObs[x.Obs()] = x
					queue = append(queue, s)
				}
				if normal && !s.normal {
					s.normal = true
					if low {
						queue = append(queue, s)
					}
				}
			}
			inits := ref.Inits()
			for _, x := range inits {
				add(x.C, false)
			}
			stepped := map[*st]bool{}
			for i := 0; i < len(queue); i++ {
				s := queue[i]
				x := s.c
				if !stepped[s] {
					stepped[s] = true
					for _, y := range ref.Succ(x) {
						sink(x, y.L, y.C, false)
						add(y.C, true)
						if low && o.Crash && y.C.T[y.C.Cur] != nil && !crashOff(o, y.C.T[y.C.Cur].F[0].Name) {
							z := threadCrash(y.C, y.C.Cur)
							sink(y.C, "crash", z, true)
							add(z, false)
						}
					}
				}
				if !o.Crash || low && !s.normal {
					continue
				}
				for t := range x.T {
					if !low && x.T[t] != nil && !crashOff(o, x.T[t].F[0].Name) {
						z := threadCrash(x, t)
						sink(x, "crash", z, true)
						add(z, false)
					}
				}
				for r, ri := range x.Roles {
					if hasSpec(ri.Def) && !waiting(x, r) {
						z := roleCrash(x, r)
						sink(x, "crash-role "+ri.Ref(), z, true)
						add(z, false)
					}
				}
			}
		}
		explore(true, func(from *Conf, l string, to *Conf, crash bool) {
			k := obsEdge(from.Obs(), l, to.Obs())
			if crash {
				if from.Obs() != to.Obs() {
					must[k] = true
					nontriv = true
				}
			} else {
				mustSteps[k] = true
			}
		}, obs)
		explore(false, func(from *Conf, l string, to *Conf, crash bool) {
			k := obsEdge(from.Obs(), l, to.Obs())
			if crash {
				may[k] = true
			} else {
				steps[k] = true
			}
		}, mayObs)
	}()
	if tooLarge {
		c.Discard("too-big")
	}
	if merr != "" {
		c.Discard("model-error")
	}
	if nontriv {
		c.NonTrivial(g.S.Text())
	}
	run := runImpl(g.S.File(), o)
	if run.Panic != "" || run.Err != nil || run.Failed != nil {
		c.Fail("the checker failed on a correct specification: %v %s", run.Err, run.Panic)
	}
	ig := extract(run.Init, false)
	iobs, icrash, isteps := map[string]*Conf{}, map[string]bool{}, map[string]bool{}
	for _, n := range ig.N {
		if n.Obs == "root" {
			continue
		}
		iobs[n.Obs] = nil
		for _, e := range n.Out {
			k := obsEdge(n.Obs, e.L, ig.N[e.To].Obs)
			if strings.HasPrefix(e.L, "crash") {
				icrash[k] = true
			} else {
				isteps[k] = true
			}
		}
	}
	if x := minus(icrash, may); x != "" {
		return "this crash is not allowed, or loses something else than it should:\n    " + x
	}
	if x := minus(must, icrash); x != "" {
		return "this crash is missing:\n    " + x
	}
	if x := minus(iobs, mayObs); x != "" {
		return "this state is not reachable with crashes at yield points: " + x
	}
	if x := minus(obs, iobs); x != "" {
		return "this state is reachable but not explored: " + x
	}
	if x := minus(isteps, steps); x != "" {
		return "this step is not one of the model:\n    " + x
	}
	if x := minus(mustSteps, isteps); x != "" {
		return "this step is missing:\n    " + x
	}
	// assertions are checked in the states after a crash too
	if o.Crash && len(g.S.Asserts) == 0 {
		var confs []*Conf
		for _, k := range keysOf(mayObs) {
			confs = append(confs, mayObs[k])
		}
		a := Assertion{Name: "P", Kind: "always"}
		g.body(&a, Not{g.predicate(confs)})
		g.S.Asserts = append(g.S.Asserts, a)
	}
	if len(g.S.Asserts) > 0 {
		run := runImpl(g.S.File(), o)
		if run.Panic != "" || run.Err != nil {
			c.Fail("the checker failed on a correct specification: %v %s", run.Err, run.Panic)
		}
		holds := func(x *Conf) bool { return g.S.Asserts[0].eval(g.S, x, nil) }
		if run.Failed != nil {
			k := implObs(run.Failed)
			if x := mayObs[k]; x == nil || holds(x) {
				return "the state reported as violating the assertion satisfies it or is not reachable: " + k + "\n" + g.S.Text()
			}
			c.Label("assertion violated")
		} else {
			for _, k := range keysOf(obs) {
				if !holds(obs[k]) {
					return "no violation is reported although the reachable state violates the assertion: " + k + "\n" + g.S.Text()
				}
			}
			c.Label("assertion holds")
		}
	}
	return ""
}

func minus[A, B any](a map[string]A, b map[string]B) string {
	for _, k := range keysOf(a) {
		if _, ok := b[k]; !ok {
			return k
		}
	}
	return ""
}
