package main

import (
	"fmt"
	"strings"
)

// ---- C18: roles, functions and calls ----

func init() {
	register(&Prop{ID: "C18", Quick: 1200, Thorough: 90000,
		Rule: "a step of the explored graph goes through a call between two different role instances, and some function is called from two places, on two instances or while another call is pending",
		Run:  runC18})
}

// cgen generates models made of role instances that call each other.
type cgen struct {
	*Src
	s       *Spec
	role    *RoleDef        // where code is being generated
	fn      *Func           // nil: an action
	level   int             // functions below it may be called
	loc     []string        // int variables visible (locals, parameters)
	rvar    []string        // variables holding an instance of Srv
	rany    map[string]bool // of them, those that hold a Cli
	size    int
	nloc    int
	feats   map[string]bool
	lists   bool
	hasJobs bool
	chans   int // channels; calls to servers may go through stubs t0, t1
	sends   int // messages sent at most
}

var srvNames = []string{"s0", "s1"}

func (g *cgen) f(s string) { g.feats[s] = true }

func self(f string) Expr { return Attr{Var("self"), f} }

func mod(e Expr, n int) Expr { return bin(e, "%", I(n)) }

// atom: a small int expression
func (g *cgen) atom() Expr {
	var l []Expr
	l = append(l, I(g.Range(0, 2)))
	for _, v := range g.loc {
		l = append(l, Var(v), Var(v))
	}
	if g.role != nil {
		l = append(l, self("x"))
		if g.role.Name == "Cli" {
			l = append(l, self("got"))
		}
	} else if g.fn == nil {
		l = append(l, Var("a"))
	}
	return pick(g.Src, l)
}

func (g *cgen) expr() Expr {
	switch g.N(4) {
	case 0:
		return bin(g.atom(), "+", g.atom())
	case 1:
		return bin(bin(g.atom(), "*", I(2)), "+", g.atom())
	}
	return g.atom()
}

func (g *cgen) cond() Expr {
	return bin(g.atom(), pick(g.Src, []string{"==", "!=", "<", ">"}), g.atom())
}

func (g *cgen) newLoc() string {
	// the same few names everywhere: locals of different frames are often called the same
	n := pick(g.Src, []string{"v", "w", "t"})
	for _, l := range g.loc {
		if l == n {
			return n
		}
	}
	g.loc = append(g.loc, n)
	return n
}

func (g *cgen) assign() *Stmt {
	if g.role != nil && g.P(3, 5) {
		f := "x"
		if g.role.Name == "Cli" && g.P(1, 2) {
			f = "got"
		}
		return py(AsgAttr{Var("self"), f, mod(g.expr(), 3)})
	}
	if g.role == nil && g.P(1, 2) || g.P(1, 6) {
		return set("a", mod(g.expr(), 3))
	}
	e := mod(g.expr(), 4)
	return set(g.newLoc(), e)
}

// callee: the functions that may be called on a receiver of the role (or plain functions)
func (g *cgen) callable(role string) []*Func {
	var l []*Func
	lv := func(f *Func) int { return int(f.Name[1] - '0') }
	fs := g.s.Funcs
	if role != "" {
		fs = g.s.role(role).Funcs
	}
	for _, f := range fs {
		if lv(f) < g.level {
			l = append(l, f)
		}
	}
	return l
}

func (g *cgen) call() *Stmt {
	type opt struct {
		recv string
		f    *Func
	}
	var l []opt
	add := func(recv, role string) {
		for _, f := range g.callable(role) {
			l = append(l, opt{recv, f})
		}
	}
	for _, n := range srvNames {
		add(n, "Srv")
	}
	for _, n := range g.rvar {
		if g.rany[n] {
			add(n, "Cli")
		} else {
			add(n, "Srv")
			add(n, "Srv")
		}
	}
	add("", "")
	if g.role != nil {
		add("self", g.role.Name)
	}
	if len(l) == 0 {
		return g.assign()
	}
	o := pick(g.Src, l)
	s := &Stmt{K: SCall, Recv: o.recv, Fn: o.f.Name}
	n := len(o.f.Params)
	if n > 0 && o.f.Params[n-1].Default != nil && g.P(1, 2) {
		n--
		g.f("default argument")
	}
	named := g.P(1, 6)
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	if named {
		g.f("named arguments")
		for i := n - 1; i > 0; i-- {
			j := g.Range(0, i)
			idx[i], idx[j] = idx[j], idx[i]
		}
	}
	for _, i := range idx {
		p := o.f.Params[i]
		a := Arg{}
		switch p.Name {
		case "who":
			a.E = Var("self")
			if g.role == nil || g.role.Name != "Cli" {
				a.E = Var(pick(g.Src, []string{"c0", "c1"}))
			}
			g.f("callback")
		case "l":
			a.E = Var("b")
		default:
			a.E = g.expr()
		}
		if named {
			a.Name = p.Name
		}
		s.Args = append(s.Args, a)
	}
	if g.chans > 0 && (o.recv == "s0" || o.recv == "s1") && g.P(3, 4) {
		s.Recv = "t" + o.recv[1:]
		if g.chans > 1 && g.P(1, 2) {
			s.Recv = "u" + o.recv[1:]
		}
		return g.send(s)
	}
	if o.recv == "d" {
		return g.send(s)
	}
	if g.P(2, 3) {
		if g.role == nil && g.fn == nil && g.P(1, 3) {
			s.Var = "a"
		} else {
			s.Var = g.newLoc()
		}
	}
	return s
}

// send: at most g.sends messages in all
func (g *cgen) send(s *Stmt) *Stmt {
	g.f("send")
	r := iff(bin(Var("k"), "<", I(g.sends)), blk(FAtomic, set("k", bin(Var("k"), "+", I(1))), s))
	if g.P(1, 3) {
		r.Conds, r.Blks = append(r.Conds, nil), append(r.Blks, blk(FAtomic, g.assign()))
	}
	return r
}

// use: a call, and what it returned put where it can be seen
func (g *cgen) use() []*Stmt {
	c := g.call()
	r := []*Stmt{c}
	if c.K != SCall || c.Var == "" {
		return r
	}
	fn := g.fnOf(c)
	if fn != nil && !returnsInt(fn) {
		// None: comparable only
		v := IfE{bin(Var(c.Var), "==", Lit{vNone}), I(0), I(1)}
		r = append(r, set(c.Var, v))
	}
	if c.Var == "a" {
		return append(r, set("a", mod(Var("a"), 3)))
	}
	if g.role != nil && g.P(2, 3) {
		f := "x"
		if g.role.Name == "Cli" {
			f = "got"
		}
		r = append(r, py(AsgAttr{Var("self"), f, mod(bin(Var(c.Var), "+", I(1)), 3)}))
	}
	return r
}

func (g *cgen) fnOf(c *Stmt) *Func {
	var all []*Func
	all = append(all, g.s.Funcs...)
	for _, r := range g.s.Roles {
		all = append(all, r.Funcs...)
	}
	for _, f := range all {
		if f.Name == c.Fn {
			return f
		}
	}
	return nil
}

// returnsInt: the last statement returns an int (so does every other return statement generated)
func returnsInt(f *Func) bool {
	s := f.Blk.Stmts
	last := s[len(s)-1]
	return f.Blk.Flow != FOneof && f.Blk.Flow != FParallel && last.K == SReturn && last.E != nil
}

func (g *cgen) stmts(cur Flow, depth int) []*Stmt {
	g.size--
	k := g.W(5, 5, 2, 2, 2, 1, 1, 1)
	if depth > 2 || g.size <= 0 {
		k = g.W(2, 1)
	}
	one := cur == FOneof || cur == FParallel
	switch k {
	case 0:
		return []*Stmt{g.assign()}
	case 1:
		u := g.use()
		if one && len(u) > 1 {
			return []*Stmt{sb(pick(g.Src, []Flow{FAtomic, FSerial}), u...)}
		}
		return u
	case 2:
		g.f("if")
		s := &Stmt{K: SIf, Conds: []Expr{g.cond()}, Blks: []*Block{g.block(FAtomic, depth+1)}}
		if g.P(1, 2) {
			s.Conds = append(s.Conds, nil)
			s.Blks = append(s.Blks, g.block(FAtomic, depth+1))
		}
		return []*Stmt{s}
	case 3:
		fl := pick(g.Src, []Flow{FAtomic, FSerial, FOneof, FParallel})
		if one && fl != FAtomic {
			fl = FSerial
		}
		if g.fn != nil && cur == FAtomic {
			fl = pick(g.Src, []Flow{FAtomic, FOneof})
		}
		g.f("block " + strings.TrimSpace(fl.String()))
		return []*Stmt{{K: SBlock, Blk: g.block(fl, depth+1)}}
	case 4:
		g.f("for")
		v := "i"
		loc := g.loc
		rv := g.rvar
		s := &Stmt{K: SFor, Var: v, E: Call{F: "range", A: []Expr{I(2)}}}
		fl := []Flow{FAtomic, FSerial}
		if cur == FAtomic || cur == FOneof {
			fl = []Flow{FAtomic}
		} else if cur == FParallel || depth == 0 {
			fl = append(fl, FParallel)
		}
		s.Flow = pick(g.Src, fl)
		bf := FAtomic
		if s.Flow != FAtomic && g.P(1, 2) {
			bf = FSerial
		}
		if g.P(1, 2) {
			g.f("for over instances")
			s.Var = "q"
			s.E = ListE{Var("s0"), Var("s1")}
			g.rvar = append(append([]string{}, g.rvar...), "q")
		} else {
			g.loc = append(append([]string{}, g.loc...), v)
		}
		s.Blk = g.block(bf, depth+1)
		g.loc, g.rvar = loc, rv
		return []*Stmt{s}
	case 5:
		g.f("any instance")
		rv := g.rvar
		g.rvar = append(append([]string{}, g.rvar...), "q")
		s := anyB("q", ListE{Var("s0"), Var("s1")}, g.block(FAtomic, depth+1))
		s.Flow = FAtomic
		g.rvar = rv
		return []*Stmt{s}
	case 6:
		if g.fn != nil {
			g.f("early return")
			return []*Stmt{iff(g.cond(), blk(FAtomic, &Stmt{K: SReturn, E: g.ret()}))}
		}
		g.f("require")
		return []*Stmt{{K: SRequire, E: g.cond()}}
	default:
		if g.role != nil && g.role.Name == "Cli" && !one {
			// the instance the field refers to
			g.f("instance held by a field")
			n := "p"
			g.rvar = append(append([]string{}, g.rvar...), n)
			return append([]*Stmt{set(n, self("peer"))}, g.use()...)
		}
		return []*Stmt{g.assign()}
	}
}

func (g *cgen) ret() Expr {
	if g.fn != nil {
		return g.expr()
	}
	return I(1)
}

func (g *cgen) block(f Flow, depth int) *Block {
	b := &Block{Flow: f}
	loc, rv := g.loc, g.rvar
	n := g.Range(1, 3)
	if f == FOneof || f == FParallel {
		n = 2
	}
	for i := 0; i < n; i++ {
		if f == FOneof || f == FParallel {
			// each is an alternative: what one of them assigns is unknown to the other
			g.loc, g.rvar = loc, rv
		}
		ss := g.stmts(f, depth)
		if (f == FOneof || f == FParallel) && len(ss) > 1 {
			ss = []*Stmt{sb(FAtomic, ss...)}
		}
		b.Stmts = append(b.Stmts, ss...)
	}
	g.loc, g.rvar = loc, rv
	return b
}

func (g *cgen) fun(name string, role *RoleDef) *Func {
	f := &Func{Name: name}
	g.role, g.fn = role, f
	g.level = int(name[1] - '0')
	g.loc, g.rvar, g.rany = nil, nil, map[string]bool{}
	np := g.Range(0, 2)
	for i := 0; i < np; i++ {
		p := Param{Name: pick(g.Src, []string{"v", "p", "k"})}
		dup := false
		for _, x := range f.Params {
			dup = dup || x.Name == p.Name
		}
		if dup {
			continue
		}
		if i == np-1 && g.P(1, 3) {
			p.Default = I(1)
		}
		f.Params = append(f.Params, p)
		g.loc = append(g.loc, p.Name)
	}
	if role != nil && role.Name == "Srv" && g.level > 0 && g.P(1, 3) {
		f.Params = append([]Param{{Name: "who"}}, f.Params...)
		g.rvar = append(g.rvar, "who")
		g.rany["who"] = true
	}
	if g.P(1, 5) && (len(f.Params) == 0 || f.Params[len(f.Params)-1].Default == nil) {
		f.Params = append(f.Params, Param{Name: "l"})
		g.f("list argument")
		g.lists = true
	}
	f.Flow = pick(g.Src, []Flow{FAtomic, FSerial, FSerial, FSerial, FOneof})
	if role == nil {
		f.Flow = FAtomic
	}
	g.f("func " + strings.TrimSpace(f.Flow.String()))
	g.size = 3
	loc := g.loc
	f.Blk = g.block(f.Flow, 1)
	g.loc = loc
	if role == nil {
		plainCalls(f.Blk)
	}
	if n := len(f.Params); n > 0 && f.Params[n-1].Name == "l" {
		// the caller's list
		m := iff(bin(Call{F: "len", A: []Expr{Var("l")}}, "<", I(2)), blk(FAtomic, py(Meth{X: Var("l"), M: "append", A: []Expr{I(1)}})))
		if f.Flow == FOneof {
			f.Blk.Stmts = append(f.Blk.Stmts, m)
		} else {
			f.Blk.Stmts = append([]*Stmt{m}, f.Blk.Stmts...)
		}
	}
	if f.Flow != FOneof && g.P(3, 4) {
		f.Blk.Stmts = append(f.Blk.Stmts, &Stmt{K: SReturn, E: g.ret()})
	}
	g.role, g.fn = nil, nil
	return f
}

func (g *cgen) action(name string, role *RoleDef) *Action {
	g.role, g.fn, g.level = role, nil, 9
	g.loc, g.rvar, g.rany = nil, nil, map[string]bool{}
	g.size = 5
	fl := pick(g.Src, []Flow{FAtomic, FSerial, FSerial, FParallel, FOneof})
	if role == nil && fl != FOneof {
		fl = FAtomic
	}
	a := &Action{Name: name, Flow: fl, Blk: g.block(fl, 0)}
	if role == nil {
		plainCalls(a.Blk)
	}
	g.role = nil
	return a
}

// plainCalls: calls outside roles are possible in atomic context only
func plainCalls(b *Block) {
	for _, s := range b.Stmts {
		for _, x := range append([]*Block{s.Blk}, s.Blks...) {
			if x != nil {
				if x.Flow == FSerial || x.Flow == FParallel {
					x.Flow = FAtomic
				}
				plainCalls(x)
			}
		}
		if s.K == SFor && s.Flow != FAtomic {
			s.Flow = FAtomic
		}
	}
}

// jobs: instances made in an action that only a message refers to for a while
func (g *cgen) jobs(cli, srv *RoleDef) {
	g.f("instance in a message")
	g.hasJobs = true
	job := &RoleDef{Name: "Job", Actions: []*Action{{Name: "Init", Flow: FAtomic, Blk: blk(FAtomic, py(AsgAttr{Var("self"), "x", I(0)}))}}}
	if g.P(2, 3) {
		job.Actions = append(job.Actions, &Action{Name: "Tick", Flow: FAtomic, Blk: blk(FAtomic,
			&Stmt{K: SRequire, E: bin(self("x"), "<", I(2))}, py(AsgAttr{Var("self"), "x", bin(self("x"), "+", I(1))}))})
	}
	fn := &Func{Name: "add", Flow: FAtomic, Params: []Param{{Name: "v"}}, Blk: blk(FAtomic, py(AsgAttr{Var("self"), "x", bin(self("x"), "+", Var("v"))}))}
	job.Funcs = []*Func{fn}
	g.s.Roles = append(g.s.Roles, job)
	fl := pick(g.Src, []Flow{FAtomic, FSerial})
	take := &Func{Name: "take", Flow: fl, Params: []Param{{Name: "who"}}, Blk: blk(fl)}
	if g.P(1, 2) {
		take.Blk.Stmts = append(take.Blk.Stmts, &Stmt{K: SCall, Recv: "who", Fn: "add", Args: []Arg{{E: I(1)}}})
	}
	// from then on it stays referred to
	keep := func(v string) *Stmt { return py(Meth{X: Var("jobs"), M: "append", A: []Expr{Var(v)}}) }
	take.Blk.Stmts = append(take.Blk.Stmts, keep("who"))
	if g.P(1, 2) {
		take.Blk.Stmts = append(take.Blk.Stmts, py(AsgAttr{Var("self"), "x", Attr{Var("who"), "x"}}))
	}
	srv.Funcs = append(srv.Funcs, take)
	b := blk(FAtomic, &Stmt{K: SRequire, E: bin(Var("k"), "<", I(g.sends))}, set("k", bin(Var("k"), "+", I(1))), &Stmt{K: SNew, Var: "w", Role: "Job"})
	recv := pick(g.Src, []string{"t0", "t1"})
	if g.P(1, 3) {
		// the receiver of the message: the instance itself
		job.Funcs = append(job.Funcs, &Func{Name: "own", Flow: FAtomic, Params: fn.Params, Blk: blk(FAtomic, append([]*Stmt{keep("self")}, fn.Blk.Stmts...)...)})
		b.Stmts = append(b.Stmts, py(Stub{"y", "w", 0}), &Stmt{K: SCall, Recv: "y", Fn: "own", Args: []Arg{{E: I(1)}}})
	} else {
		b.Stmts = append(b.Stmts, &Stmt{K: SCall, Recv: recv, Fn: "take", Args: []Arg{{E: Var("w")}}})
	}
	a := &Action{Name: "Spawn", Flow: FAtomic, Blk: b}
	if g.P(1, 2) {
		cli.Actions = append(cli.Actions, a)
	} else {
		g.s.Actions = append(g.s.Actions, a)
	}
}

func genCalls(src *Src) *cgen { return genMsgs(src, 0) }

// genMsgs: with channels
func genMsgs(src *Src, chans int) *cgen {
	g := &cgen{Src: src, s: &Spec{ConstV: map[string]*V{}}, feats: map[string]bool{}, chans: chans}
	if chans > 0 {
		g.sends = 1 + g.W(2, 3, 1)
	}
	ini := func(fs ...string) *Action {
		b := blk(FAtomic)
		for _, f := range fs {
			b.Stmts = append(b.Stmts, py(AsgAttr{Var("self"), f, I(0)}))
		}
		return &Action{Name: "Init", Flow: FAtomic, Blk: b}
	}
	cli := &RoleDef{Name: "Cli", Actions: []*Action{ini("x", "got")}}
	srv := &RoleDef{Name: "Srv", Actions: []*Action{ini("x")}}
	cli.Actions[0].Blk.Stmts = append(cli.Actions[0].Blk.Stmts, py(AsgAttr{Var("self"), "peer", Lit{vNone}}))
	if g.P(1, 3) {
		g.f("ephemeral")
		srv.Ephemeral = []string{"x"}
	}
	if g.P(1, 4) {
		g.f("ephemeral")
		cli.Ephemeral = []string{"got"}
	}
	g.s.Roles = []*RoleDef{cli, srv}
	if g.P(1, 2) {
		g.s.Roles = []*RoleDef{srv, cli}
	}
	// level 0: leaves
	levels := g.Range(1, 3)
	for l := 0; l < levels; l++ {
		// "c"+level, "s"+level, "f"+level: unique, and the level can be read from the name
		if l < 2 && g.P(1, 2) {
			cli.Funcs = append(cli.Funcs, g.fun(fmt.Sprintf("c%d", l), cli))
		}
		srv.Funcs = append(srv.Funcs, g.fun(fmt.Sprintf("s%d", l), srv))
		if g.P(1, 3) {
			g.s.Funcs = append(g.s.Funcs, g.fun(fmt.Sprintf("f%d", l), nil))
		}
	}
	if g.P(1, 4) {
		// recursion
		g.f("recursion")
		r := &Func{Name: "r0", Flow: FAtomic, Params: []Param{{Name: "v"}}, Blk: blk(FAtomic,
			iff(bin(Var("v"), "<=", I(0)), blk(FAtomic, &Stmt{K: SReturn, E: I(0)})),
			&Stmt{K: SCall, Recv: "self", Fn: "r0", Args: []Arg{{E: bin(Var("v"), "-", I(1))}}, Var: "w"},
			&Stmt{K: SReturn, E: bin(Var("w"), "+", Var("v"))})}
		if g.P(1, 2) {
			r.Flow, r.Blk.Flow = FSerial, FSerial
		}
		srv.Funcs = append(srv.Funcs, r)
	}
	cli.Actions = append(cli.Actions, g.action("Go", cli))
	if g.P(1, 3) {
		cli.Actions = append(cli.Actions, g.action("Do", cli))
	}
	if g.P(1, 4) {
		srv.Actions = append(srv.Actions, g.action("Run", srv))
	}
	if g.P(1, 3) {
		g.s.Actions = append(g.s.Actions, g.action("Top", nil))
	}
	if chans > 0 && g.P(1, 4) {
		g.jobs(cli, srv)
	}
	nc := g.Range(1, 2)
	init := blk(FAtomic, set("a", I(0)))
	if g.lists {
		init.Stmts = append(init.Stmts, set("b", ListE{}))
	}
	if chans > 0 {
		init.Stmts = append(init.Stmts, set("k", I(0)))
		if g.hasJobs {
			init.Stmts = append(init.Stmts, set("jobs", ListE{}))
		}
		for i := 0; i < chans; i++ {
			init.Stmts = append(init.Stmts, py(NewChan(i)))
		}
	}
	order := g.P(1, 2)
	mk := func(v, r string) { init.Stmts = append(init.Stmts, &Stmt{K: SNew, Var: v, Role: r}) }
	if order {
		mk("s0", "Srv")
		mk("s1", "Srv")
	}
	mk("c0", "Cli")
	if nc == 2 {
		mk("c1", "Cli")
	} else {
		init.Stmts = append(init.Stmts, set("c1", Var("c0")))
	}
	if !order {
		mk("s0", "Srv")
		mk("s1", "Srv")
	}
	for i := 0; i < chans; i++ {
		for j, n := range srvNames {
			init.Stmts = append(init.Stmts, py(Stub{fmt.Sprintf("%s%d", []string{"t", "u"}[i], j), n, i}))
		}
	}
	init.Stmts = append(init.Stmts, py(AsgAttr{Var("c0"), "peer", Var(pick(g.Src, srvNames))}))
	if nc == 2 {
		init.Stmts = append(init.Stmts, py(AsgAttr{Var("c1"), "peer", Var(pick(g.Src, srvNames))}))
	}
	g.s.Init = init
	return g
}

// gen: the same model for the generators of assertions
func (g *cgen) gen() *Gen {
	fs := []LV{{N: "x", T: TyInt, M: 3}}
	return &Gen{Src: g.Src, S: g.s, Vars: []LV{{N: "a", T: TyInt, M: 3}}, feats: g.feats, Cfg: cfgAll(),
		roleVar: []LV{{N: "s0"}, {N: "s1"}, {N: "c0"}}, rfields: map[string][]LV{"Srv": fs, "Cli": fs}}
}

func runC18(c *Case) {
	g := genCalls(c.Src)
	o := Opts{MaxActions: 60, MaxConc: g.W(0, 3, 2), NoDeadlock: true}
	o.Crash = g.P(1, 3)
	c.Sample(fmt.Sprintf("maxconc=%d crash=%v\n%s", o.MaxConc, o.Crash, g.s.Text()))
	for f := range g.feats {
		c.Label("f:" + f)
	}
	ref := refFor(g.s, o, Quirks{})
	ref.Calls = true
	if o.Crash {
		as := g.gen
		if msg := crashCompare(c, as(), o, Quirks{}); msg != "" {
			if crashCompare(c, as(), o, Quirks{ForkReset: true}) == "" {
				c.Label("known enabled-forgotten difference")
				return
			}
			c.Fail("%s", msg)
		}
		c.Label("with crashes")
		return
	}
	ref.Limit = 600
	rg, merr, ok := ref.reference()
	if !ok {
		c.Discard("too-big")
	}
	run := runImpl(g.s.File(), o)
	if merr != "" {
		if run.Panic == "" && run.Err == nil {
			c.Fail("the model's execution has an error (%s) but the checker reported none", merr)
		}
		c.Discard("model-error")
	}
	if run.Panic != "" || run.Err != nil {
		c.Fail("the checker failed on a correct specification: %v %s", run.Err, run.Panic)
	}
	c.Label(sizeLabel(len(rg.N)))
	ig, _ := extract3(run.Init, true, true)
	d := diffGraphs("checker", "reference", ig, &rg.Graph)
	if d != "" {
		q := refFor(g.s, o, Quirks{ForkReset: true})
		q.Calls, q.Limit = true, 1200
		qg, _, ok := q.reference()
		if ok && diffGraphs("checker", "reference", ig, &qg.Graph) == "" {
			c.Known("enabled-forgotten-at-choice", "%s", d)
			return
		}
		c.Fail("the explored graph differs from the specification's: %s", d)
	}
	between, pending := false, false
	for i, n := range rg.N {
		for _, e := range n.Out {
			if strings.Contains(e.L, "call ") {
				between = true
			}
		}
		if rg.C[i] != nil {
			for _, t := range rg.C[i].T {
				if t != nil && len(t.F) > 1 {
					pending = true
				}
			}
		}
	}
	if pending {
		c.Label("stops inside a call")
	}
	if between && (pending || len(g.s.role("Srv").Funcs) > 1) {
		c.NonTrivial(g.s.Text())
	}
}
