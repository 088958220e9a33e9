package main

// C31: errors raised by the model are reported, never swallowed.

import (
	"errors"
	"fmt"
	"strings"

	mc "github.com/fizzbee-io/fizzbee/modelchecker"
)

// expressions that cannot be evaluated, and what the error says
var badExprs = [][2]string{
	{"(1 // 0)", "division by zero"},
	{"(7 % 0)", "by zero"},
	{"{}['k']", "key"},
	{"[][0]", "out of range"},
	{"(1 + 'a')", "unknown binary op"},
	{"len(5)", "len"},
	{"[1].nosuch()", "nosuch"},
	{"record(x=1).nope", "nope"},
	{"5()", "call"},
	{"fail('boom')", "boom"},
	{"int('x')", "int"},
	{"{}.pop('q')", "pop"},
	{"min([])", "min"},
	{"set([[1]])", "unhashable"},
	{"bag([1]).nosuch()", "nosuch"},
	{"genericmap()['k']", "key"},
	{"(None < 1)", "not implemented"},
	{"enum('A').B", "B"},
}

// slot is a place of the specification where an expression is evaluated.
type slot struct {
	e    *Expr
	what string
	glob bool // state variables can be read there
}

func (s *Spec) slots() (r []slot) {
	add := func(e *Expr, what string, glob bool) {
		if *e != nil {
			r = append(r, slot{e, what, glob})
		}
	}
	var blk func(b *Block, where string, glob bool)
	blk = func(b *Block, where string, glob bool) {
		if b == nil {
			return
		}
		for _, st := range b.Stmts {
			what := []string{"statement", "pass", "block", "if", "for", "while", "break", "continue", "return", "require", "any", "call", "new", "checkpoint"}[st.K] + " in " + where
			add(&st.E, what, glob)
			add(&st.Cond, what+" condition", glob)
			for i := range st.Conds {
				add(&st.Conds[i], what, glob)
			}
			for i := range st.Args {
				add(&st.Args[i].E, what+" argument", glob)
			}
			if p, ok := st.Py.(Asg); ok {
				st := st
				var h Expr = asgHook{p.E, func(e Expr) { st.Py = Asg{p.Var, e} }}
				r = append(r, slot{&h, what, glob})
			}
			blk(st.Blk, where, glob)
			for _, b := range st.Blks {
				blk(b, where, glob)
			}
		}
	}
	blk(s.Init, "Init", false)
	for _, a := range s.Actions {
		blk(a.Blk, "action", true)
	}
	for _, f := range s.Funcs {
		blk(f.Blk, "function", true)
		for i := range f.Params {
			add(&f.Params[i].Default, "default", false)
		}
	}
	for _, ro := range s.Roles {
		for _, a := range ro.Actions {
			w, gl := "role action", true
			if a.Name == "Init" {
				w, gl = "role Init", false
			}
			blk(a.Blk, w, gl)
		}
		for _, f := range ro.Funcs {
			blk(f.Blk, "role function", true)
			for i := range f.Params {
				add(&f.Params[i].Default, "default", false)
			}
		}
	}
	for i := range s.Asserts {
		a := &s.Asserts[i]
		if a.Blk != nil {
			blk(a.Blk, a.Kind+" assertion", a.Kind != "transition")
		} else {
			add(&a.E, a.Kind+" assertion", a.Kind != "transition")
		}
	}
	return
}

// asgHook stands for the right-hand side of an assignment.
type asgHook struct {
	Expr
	put func(Expr)
}

func (s slot) set(f func(old Expr) Expr) {
	if h, ok := (*s.e).(asgHook); ok {
		h.put(f(h.Expr))
	} else {
		*s.e = f(*s.e)
	}
}

func causeOf(r *Run) string {
	s := r.Panic
	var err error = r.Err
	if me, ok := r.PanicVal.(*mc.ModelError); ok {
		err = me
	} else if e, ok := r.PanicVal.(error); ok {
		err = e
	}
	for err != nil {
		s += " | " + err.Error()
		var me *mc.ModelError
		if errors.As(err, &me) {
			err = me.NestedError
		} else {
			err = errors.Unwrap(err)
		}
	}
	return s
}

func init() {
	register(&Prop{ID: "C31", Quick: 1200, Thorough: 60000,
		Rule: "the specification has an expression that raises an error in some states only, and at least 3 scheduling points are explored or the error is reached",
		Run:  runC31})
}

func runC31(c *Case) {
	cfg := cfgAll()
	cfg.Checkpoint = c.P(1, 3)
	cfg.Lean = c.P(1, 2)
	var g *Gen
	if c.P(1, 4) {
		g = genCalls(c.Src).gen()
	} else {
		g = genSpec(c.Src, cfg)
	}
	o := opts01(g)
	o.NoDeadlock = c.P(1, 2)
	// assertions that never fail: none, or one of each of some kinds
	for i, k := range []string{"always", "exists", "transition", "always eventually", "eventually always"} {
		if !c.P(1, 3) {
			continue
		}
		a := Assertion{Name: "Q" + itoa(i), Kind: k, E: B(true)}
		if c.P(1, 2) {
			a.Blk = blk(FAtomic, set("t0", B(true)), &Stmt{K: SReturn, E: Var("t0")})
		}
		g.S.Asserts = append(g.S.Asserts, a)
	}
	clean := *g.S
	sl := clean.slots()
	n := c.Range(0, 2)
	if c.P(3, 4) && n == 0 {
		n = 1
	}
	var causes []string
	where := ""
	partial := false
	for i := 0; i < n && len(sl) > 0; i++ {
		var s slot
		// the kinds of places equally often
		kinds := map[string][]slot{}
		for _, x := range sl {
			kinds[x.what] = append(kinds[x.what], x)
		}
		s = pick(c.Src, kinds[pick(c.Src, keysOf(kinds))])
		be := pick(c.Src, badExprs)
		bad := Raw{be[0], func(Env) *V { throw("%s", be[1]); return nil }}
		var cond Expr
		if s.glob {
			g.assertScope()
			cond = g.boolE(1)
			partial = true
		}
		if !s.glob && c.P(2, 3) {
			continue // always: less often
		}
		s.set(func(old Expr) Expr {
			if cond == nil {
				return bad
			}
			return IfE{cond, bad, old}
		})
		causes = append(causes, be[1])
		where += " " + s.what
		c.Label("error in " + s.what)
	}
	c.Sample(fmt.Sprintf("maxconc=%d deadlock_detection=%v\n%s", o.MaxConc, !o.NoDeadlock, g.S.Text()))
	want, ok := c31Errors(g, o, Quirks{})
	if !ok {
		c.Discard("too-big")
	}
	if want {
		c.Label("error reachable")
	} else if n > 0 {
		c.Label("error not reachable")
	}
	if partial {
		c.NonTrivial(g.S.Text())
	}
	judge := func(what string, err bool, report string) {
		if err == want {
			if err {
				for _, x := range causes {
					if strings.Contains(report, x) {
						return
					}
				}
				c.Fail("%s: an error is reachable (%v) and the run ended, but the report does not say so: %s", what, causes, report)
			}
			return
		}
		if w2, ok := c31Errors(g, o, Quirks{ForkReset: true}); ok && w2 == err {
			c.Label("graph has the known enabled-forgotten difference")
			return
		}
		if want {
			c.Fail("%s: a reachable evaluation raises an error (%v in%s), but none is reported: %s", what, causes, where, report)
		}
		c.Fail("%s: no reachable evaluation raises an error, but one is reported: %s", what, report)
	}
	switch c.N(8) {
	case 0: // the command line
		f := g.S.File()
		yaml := fmt.Sprintf("options:\n  max_concurrent_actions: %d\n  crash_on_yield: false\ndeadlock_detection: false\nliveness: \"false\"\n", o.MaxConc)
		args := []string{"--test"}
		if c.P(1, 3) {
			args = append(args, "--experimental_processed_queue")
		}
		if c.P(1, 3) {
			args = append(args, "--exploration_strategy", pick(c.Src, []string{"dfs", "random"}))
		}
		r := runCLI(c, map[string]any{"spec.json": f, "fizz.yaml": yaml}, args...)
		defer r.close()
		passed := strings.Contains(r.Out, "PASSED")
		if r.Code != 0 && passed {
			c.Fail("the command line reports success and fails: %s", r.short())
		}
		if r.Code == 0 && !passed {
			c.Fail("the command line reports neither success nor an error: %s", r.short())
		}
		c.Label("command line")
		judge("command line", r.Code != 0, r.short())
		return
	case 1:
		o.PQ, o.NoDeadlock = true, true // otherwise it stops at a deadlock
	case 2:
		o.NoGraph, o.NoDeadlock = true, true
	case 3:
		o.Strategy, o.Seed = pick(c.Src, []string{"dfs", "random"}), int64(c.Range(1, 9))
	case 4:
		o.Sim, o.Seed = true, int64(c.Range(1, 99))
	}
	run := runImpl(g.S.File(), o)
	err := run.Panic != "" || run.Err != nil
	if o.Sim {
		c.Label("simulation")
		if err && !want {
			judge("simulation", err, causeOf(run))
		}
		return
	}
	judge(fmt.Sprintf("run (PQ=%v NoGraph=%v strategy=%s seed=%d)", o.PQ, o.NoGraph, o.Strategy, o.Seed), err, causeOf(run))
}

// c31Errors: whether some reachable evaluation, of a step or of an assertion, raises an error.
func c31Errors(g *Gen, o Opts, q Quirks) (err, ok bool) {
	bare := *g.S
	bare.Asserts = nil
	rg, merr, ok := refFor(&bare, o, q).reference()
	if !ok || merr != "" {
		return true, ok
	}
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(evalErr); !is {
				panic(x)
			}
			err, ok = true, true
		}
	}()
	rg.visit(func(x *Conf, rets map[string]*V) {
		for i := range g.S.Asserts {
			if a := &g.S.Asserts[i]; a.Kind != "transition" {
				a.eval(g.S, x, rets)
			}
		}
	})
	for i, n := range rg.N {
		if rg.C[i] == nil {
			continue
		}
		for _, e := range n.Out {
			b, x := rg.C[i], rg.C[e.To]
			if !confChanged(b, x) {
				continue
			}
			for i := range g.S.Asserts {
				if a := &g.S.Asserts[i]; a.Kind == "transition" {
					te := &transEnv{aEnv{c: x, spec: g.S, loc: map[string]*V{}}, b}
					if a.Blk != nil {
						te.body(a.Blk.Stmts)
					} else {
						a.E.Ev(te)
					}
				}
			}
		}
	}
	return false, true
}
