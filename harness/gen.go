package main

// ---- generator of finite specifications ----

type Ty int

const (
	TyInt  Ty = iota // 0..M-1
	TyBool
	TySet  // subset of {0,1,2}
	TyList // length <= 2
	TyDict // keys "p","q" -> 0..2
	TyRec  // record(f=0..2, g=bool)
	TyTup  // (0..2, 0..2)
)

// LV is a mutable location.
type LV struct {
	N  string // variable or field name
	T  Ty
	M  int  // modulus
	Fd bool // self.N
	Lc bool // local of the action
}

func (l LV) E() Expr {
	if l.Fd {
		return Attr{Var("self"), l.N}
	}
	return Var(l.N)
}

func (l LV) Asg(e Expr) PyOp {
	if l.Fd {
		return AsgAttr{Var("self"), l.N, e}
	}
	return Asg{l.N, e}
}

type GenCfg struct {
	Types      []Ty
	MaxVars    int
	MaxActs    int
	MaxDepth   int // nesting of blocks
	MaxStmts   int
	Serial     bool // serial and parallel flows
	Oneof      bool
	Loops      bool
	Any        bool
	Requires   bool
	Funcs      bool
	Roles      bool
	Labels     bool
	Checkpoint bool
	Fair       bool
	Returns    bool
	InitChoice bool
	CallStmts  bool // render l.append(x) as the parser does: a call statement
	Consts     bool
	PreConsts  bool // K, M, N, L: their values are decided by the caller
	NoPar      bool
	Durable    bool
	PlainNames bool // actions are called A0...
	Lean       bool // few, small actions
	Calls      bool // instances of two roles, with calls between them
}

func cfgAll() GenCfg {
	return GenCfg{Types: []Ty{TyInt, TyBool, TySet, TyList, TyDict, TyRec, TyTup}, MaxVars: 3, MaxActs: 3, MaxDepth: 3, MaxStmts: 3,
		Serial: true, Oneof: true, Loops: true, Any: true, Requires: true, Labels: true, Checkpoint: true, Returns: true,
		InitChoice: true, CallStmts: true, Consts: true, Funcs: true, Roles: true}
}

type Gen struct {
	*Src
	Cfg    GenCfg
	S      *Spec
	Vars   []LV // globals
	Consts []string
	nloc   int
	// scope of the action being generated
	loc     []LV // local variables (readable and assignable)
	ro      []string
	fields  []LV
	role    *RoleDef
	funcs   []*Func // callable
	peers   []peerFunc
	params  []Expr // int expressions over the parameters of role instances
	parList bool   // self.L is a list
	inFunc  bool
	serFn   bool // a function whose statements interleave with others
	inInit  bool
	loop    int
	size    int
	roleVar []LV // globals holding role instances
	feats   map[string]bool
	pure    bool // function bodies: no flow
	rfields map[string][]LV
}

// peerFunc: a function of an instance of the role before
type peerFunc struct {
	recv string
	f    *Func
}

func (g *Gen) feat(s string) { g.feats[s] = true }

func initVal(t Ty) Expr {
	switch t {
	case TyInt:
		return I(0)
	case TyBool:
		return B(false)
	case TySet:
		return Call{"set", nil}
	case TyList:
		return ListE{}
	case TyDict:
		return DictE{[]Expr{S("p")}, []Expr{I(0)}}
	case TyRec:
		return RecE{[]string{"f", "g"}, []Expr{I(0), B(false)}}
	case TyTup:
		return TupE{I(0), I(1)}
	}
	panic("ty")
}

func genSpec(s *Src, cfg GenCfg) *Gen {
	g := &Gen{Src: s, Cfg: cfg, S: &Spec{ConstV: map[string]*V{}}, feats: map[string]bool{}}
	nv := g.Range(1, cfg.MaxVars)
	init := &Block{Flow: FAtomic}
	g.inInit = true
	for i := 0; i < nv; i++ {
		v := LV{N: string(rune('a' + i)), T: cfg.Types[0], M: g.Range(2, 3)}
		if i > 0 {
			v.T = pick(g.Src, cfg.Types)
			if g.P(1, 16) {
				g.feat("variable named like a builtin")
				v.N = []string{"", "bag", "sum", "enum", "min", "max"}[min(i, 5)]
			}
		}
		init.Stmts = append(init.Stmts, py(Asg{v.N, initVal(v.T)}))
		g.Vars = append(g.Vars, v)
	}
	if cfg.PreConsts {
		g.Consts = preInts
	} else if cfg.Consts && g.P(1, 4) {
		g.S.Consts = append(g.S.Consts, "K = 2", "L = [0, 1]")
		g.S.ConstV["K"] = vInt(2)
		g.S.ConstV["L"] = vList(vInt(0), vInt(1))
		g.Consts = []string{"K"}
		g.feat("const")
	}
	if cfg.InitChoice && g.P(1, 6) {
		g.feat("init-choice")
		v := g.intVar()
		init.Stmts = append(init.Stmts, anyIn(v.N, ListE{I(0), I(1)}))
	}
	g.S.Init = init
	if cfg.Funcs && g.P(1, 3) {
		g.feat("func")
		n := g.Range(1, 2)
		for i := 0; i < n; i++ {
			f := g.fun("F" + itoa(i))
			g.S.Funcs = append(g.S.Funcs, f)
			g.funcs = append(g.funcs, f)
		}
	}
	if cfg.Roles && (cfg.Calls || g.P(1, 3)) {
		g.roles(init)
	}
	g.inInit = false
	na := g.Range(1, cfg.MaxActs)
	for i := 0; i < na; i++ {
		g.S.Actions = append(g.S.Actions, g.action("A"+itoa(i)))
	}
	if !cfg.PlainNames && g.P(1, 6) {
		// names that the checker also uses for something of its own
		g.S.Actions[g.N(na)].Name = pick(g.Src, []string{"crash", "init", "crash", "init", "toplevel", "checkpoint", "threads", "Any", "For", "state", "oneof_", "A", "AA0"})
	}
	return g
}

// plainNames: no action has the name of crashes.
func (g *Gen) plainNames() {
	for _, a := range g.S.Actions {
		if a.Name == "crash" {
			a.Name = "Az"
		}
	}
}

func (g *Gen) intVar() LV {
	var l []LV
	for _, v := range g.Vars {
		if v.T == TyInt {
			l = append(l, v)
		}
	}
	return pick(g.Src, l)
}

func (g *Gen) roles(init *Block) {
	g.feat("role")
	nd := g.Range(1, 2)
	if g.Cfg.Calls {
		nd = 2
	}
	withParams := g.P(1, 3)
	var gparams []Expr
	for d := 0; d < nd; d++ {
		rd := &RoleDef{Name: []string{"Node", "Peer"}[d]}
		if d == 1 && g.P(1, 3) {
			rd.Name = "NodeB" // starts with the name of the other role
		}
		g.role = rd
		g.fields = nil
		nf := g.Range(1, 2)
		ib := &Block{Flow: FAtomic}
		for i := 0; i < nf; i++ {
			v := LV{N: string(rune('u' + i)), T: g.Cfg.Types[0], M: 2, Fd: true}
			if i > 0 {
				v.T = pick(g.Src, []Ty{TyInt, TyBool, TySet})
			}
			if g.Cfg.InitChoice && v.T == TyInt && g.P(1, 4) {
				g.feat("choice in role Init")
				ib.Stmts = append(ib.Stmts, anyB("x"+itoa(i), ListE{I(0), I(1)}, blk(FAtomic, py(v.Asg(Var("x"+itoa(i)))))))
			} else {
				ib.Stmts = append(ib.Stmts, py(v.Asg(initVal(v.T))))
			}
			g.fields = append(g.fields, v)
		}
		pi, pl, po := withParams && g.P(2, 3), withParams && g.P(1, 3), withParams && d == 1 && g.rfields["Node"][0].T == TyInt && g.P(1, 2)
		g.parList = pl
		self := func(f string) Expr { return Attr{Var("self"), f} }
		if pi {
			g.params = append(g.params, self("P"))
			if g.P(1, 2) && g.fields[0].T == TyInt {
				ib.Stmts = append(ib.Stmts, py(g.fields[0].Asg(Bin{"%", self("P"), I(2)})))
			}
		}
		if pl {
			g.params = append(g.params, Call{"len", []Expr{self("L")}})
		}
		if po {
			g.params = append(g.params, Attr{self("o"), "u"})
		}
		rd.Actions = append(rd.Actions, &Action{Name: "Init", Flow: FAtomic, Blk: ib})
		if g.Cfg.Durable && g.P(1, 2) {
			g.feat("durable")
			if g.P(1, 2) {
				rd.Durable = []string{g.fields[0].N}
			} else {
				rd.Ephemeral = []string{g.fields[0].N}
			}
		}
		if g.rfields == nil {
			g.rfields = map[string][]LV{}
		}
		g.rfields[rd.Name] = append([]LV{}, g.fields...)
		g.S.Roles = append(g.S.Roles, rd)
		saved := g.funcs
		g.inInit = false
		if g.Cfg.Funcs && (g.Cfg.Calls && d == 0 || g.P(1, 2)) {
			f := g.fun("Rf" + itoa(d))
			rd.Funcs = append(rd.Funcs, f)
		}
		na := g.Range(0, 2)
		if d == 0 && !g.Cfg.Calls || d == 1 && g.Cfg.Calls {
			na = g.Range(1, 2)
		}
		for i := 0; i < na; i++ {
			rd.Actions = append(rd.Actions, g.action("R"+itoa(i)))
		}
		g.inInit = true
		g.funcs = saved
		g.params, g.parList = nil, false
		ni := g.Range(1, 2)
		for i := 0; i < ni; i++ {
			n := []string{"n", "m"}[d] + itoa(i)
			st := &Stmt{K: SNew, Var: n, Role: rd.Name}
			if pi {
				st.Args = append(st.Args, Arg{"P", I(g.N(3))})
			}
			if pl {
				st.Args = append(st.Args, Arg{"L", ListE{}})
			}
			if po {
				st.Args = append(st.Args, Arg{"o", Var("n0")})
			}
			if withParams {
				g.feat("role parameters")
				for i := range st.Args {
					j := g.N(i + 1)
					st.Args[i], st.Args[j] = st.Args[j], st.Args[i]
				}
			}
			if pi {
				gparams = append(gparams, Attr{Var(n), "P"})
			}
			init.Stmts = append(init.Stmts, st)
			g.roleVar = append(g.roleVar, LV{N: n, T: Ty(100 + d)})
			for _, f := range rd.Funcs {
				g.peers = append(g.peers, peerFunc{n, f})
			}
		}
	}
	g.role, g.fields, g.peers = nil, nil, nil
	g.params = gparams
}

func (g *Gen) fun(name string) *Func {
	f := &Func{Name: name, Flow: FAtomic}
	loc, ro := g.loc, g.ro
	g.loc, g.ro = nil, nil
	np := g.Range(0, 2)
	for i := 0; i < np; i++ {
		p := Param{Name: "p" + itoa(i)}
		if i == 0 && g.P(1, 8) {
			g.feat("parameter named like a variable")
			p.Name = g.intVar().N
		}
		if i == np-1 && g.P(1, 3) {
			p.Default = I(1)
		}
		f.Params = append(f.Params, p)
		g.ro = append(g.ro, p.Name)
	}
	g.inFunc = true
	g.size = 6
	funcs := g.funcs
	if g.P(2, 3) {
		g.funcs = nil
	}
	g.serFn = g.role != nil && g.Cfg.Serial && g.P(1, 2)
	if g.serFn {
		g.feat("serial func")
		f.Flow = FSerial
	}
	f.Blk = g.block(f.Flow, 1)
	g.serFn = false
	g.funcs = funcs
	if g.P(2, 3) {
		f.Blk.Stmts = append(f.Blk.Stmts, &Stmt{K: SReturn, E: g.intE(2)})
	}
	g.inFunc = false
	g.loc, g.ro = loc, ro
	return f
}

func (g *Gen) action(name string) *Action {
	a := &Action{Name: name}
	fl := []Flow{FAtomic}
	if g.Cfg.Serial {
		fl = append(fl, FSerial, FSerial)
		if !g.Cfg.NoPar {
			fl = append(fl, FParallel)
		}
	}
	if g.Cfg.Oneof {
		fl = append(fl, FOneof)
	}
	a.Flow = pick(g.Src, fl)
	if g.Cfg.Fair {
		a.Fair = pick(g.Src, []Fair{FairNone, FairWeak, FairStrong})
	}
	g.loc, g.ro, g.loop = nil, nil, 0
	g.size = 9
	if g.Cfg.Lean {
		g.size = 5
	}
	a.Blk = g.block(a.Flow, 0)
	g.feat("flow:" + a.Flow.String())
	if g.Cfg.Returns && g.P(1, 6) && (a.Flow == FAtomic || a.Flow == FSerial) {
		g.feat("return")
		a.Blk.Stmts = append(a.Blk.Stmts, &Stmt{K: SReturn, E: g.intE(1)})
	}
	return a
}

// block generates a block of the given flow.
func (g *Gen) block(fl Flow, depth int) *Block {
	b := &Block{Flow: fl}
	max := g.Cfg.MaxStmts
	n := g.Range(1, max)
	if fl == FOneof || fl == FParallel {
		n = g.Range(2, max)
	}
	nl := len(g.loc)
	lp := g.loop
	if fl == FParallel {
		g.loop = 0
	}
	for i := 0; i < n; i++ {
		var s *Stmt
		switch fl {
		case FParallel:
			s = g.parStmt(depth)
		case FOneof:
			s = g.stmt(fl, depth)
		default:
			s = g.stmt(fl, depth)
		}
		if g.Cfg.Labels && s.K != SCheckpoint && g.P(1, 8) {
			s.Label = pick(g.Src, []string{"lab", "lx"})
			g.feat("label")
		}
		b.Stmts = append(b.Stmts, s)
		if s.K == SBreak || s.K == SContinue {
			break
		}
		if fl == FOneof || fl == FParallel {
			g.loc = g.loc[:nl]
		}
	}
	g.loc = g.loc[:nl]
	g.loop = lp
	return b
}

// parStmt: a statement of a parallel block; each certainly executes a python statement. (A parallel branch that
// executes nothing leaves an intermediate state with the same identity as a yield point; see DESIGN.md.)
func (g *Gen) parStmt(depth int) *Stmt {
	if g.P(1, 3) {
		return g.stmt(FParallel, depth)
	}
	g.size--
	if depth < g.Cfg.MaxDepth && g.size > 0 && g.P(1, 3) {
		fl := FAtomic
		if g.P(1, 2) {
			fl = FSerial
		}
		g.feat("parallel-nested")
		b := g.block(fl, depth+1)
		b.Stmts = append([]*Stmt{g.certain()}, b.Stmts...)
		switch g.N(3) {
		case 0:
			return &Stmt{K: SBlock, Blk: b}
		case 1:
			b2 := &Block{Flow: FAtomic, Stmts: []*Stmt{g.certain()}}
			return &Stmt{K: SIf, Conds: []Expr{g.boolE(1), nil}, Blks: []*Block{b, b2}}
		default:
			return &Stmt{K: SAny, Var: g.newLoc(), E: ListE{I(0), I(1)}, Blk: b, Flow: b.Flow}
		}
	}
	return g.certain()
}

// fairAny: only where the variable's name tells the statement
func (g *Gen) fairAny(s *Stmt) {
	if g.Cfg.Fair && !g.inFunc && (g.role == nil || !g.Cfg.Serial) && g.P(1, 3) {
		g.feat("fair-any")
		s.Fair = FairStrong
	}
}

func (g *Gen) certain() *Stmt {
	for {
		if s := g.simple(); s.K == SPy {
			return s
		}
	}
}

// yields: may a block inside one of flow cur be serial?
func (g *Gen) yields(cur Flow) bool { return !g.inFunc || g.serFn && cur != FAtomic }

func (g *Gen) subFlow(cur Flow) Flow {
	fl := []Flow{FAtomic}
	if cur == FSerial || cur == FAtomic {
		fl = append(fl, FUnknown)
	}
	if g.Cfg.Serial && g.yields(cur) {
		fl = append(fl, FSerial)
		if !g.Cfg.NoPar {
			fl = append(fl, FParallel)
		}
	}
	if g.Cfg.Oneof {
		fl = append(fl, FOneof)
	}
	return pick(g.Src, fl)
}

func eff(fl, cur Flow) Flow {
	if fl == FUnknown {
		return cur
	}
	return fl
}

func (g *Gen) sub(cur Flow, depth int) *Block {
	fl := g.subFlow(cur)
	b := g.block(eff(fl, cur), depth+1)
	b.Flow = fl
	return b
}

// seqSub: an atomic or serial block
func (g *Gen) seqSub(cur Flow, depth int) *Block {
	fl := FAtomic
	if g.Cfg.Serial && (!g.inFunc || g.serFn) && g.P(1, 2) {
		fl = FSerial
	}
	b := g.block(fl, depth+1)
	return b
}

func (g *Gen) stmt(cur Flow, depth int) *Stmt {
	g.size--
	if depth >= g.Cfg.MaxDepth || g.size <= 0 {
		return g.simple()
	}
	w := []int{10, 3, 0, 0, 0, 0, 0, 0, 1, 0, 0}
	c := g.Cfg
	if c.Serial || c.Oneof {
		w[2] = 3
	}
	if c.Any {
		w[3] = 3
		if cur != FParallel {
			w[4] = 2
		}
	}
	if c.Loops {
		w[5] = 2
		if g.loop > 0 && (cur == FAtomic || cur == FSerial) {
			w[6] = 1
		}
	}
	if c.Requires {
		w[7] = 2
	}
	if c.Checkpoint && !g.inFunc && cur != FOneof && cur != FParallel {
		w[9] = 1
	}
	if (len(g.funcs) > 0 || g.roleFunc()) && (cur == FAtomic || g.role != nil) {
		w[10] = 3
		if c.Calls {
			w[10] = 12
		}
	}
	switch g.W(w...) {
	case 0:
		return g.simple()
	case 1:
		g.feat("if")
		s := &Stmt{K: SIf, Conds: []Expr{g.boolE(2)}, Blks: []*Block{g.sub(cur, depth)}}
		if g.P(1, 4) {
			s.Conds = append(s.Conds, g.boolE(1))
			s.Blks = append(s.Blks, g.sub(cur, depth))
		}
		if g.P(1, 3) {
			s.Conds = append(s.Conds, nil)
			s.Blks = append(s.Blks, g.sub(cur, depth))
		}
		return s
	case 2:
		fl := g.subFlow(cur)
		if fl == FUnknown {
			fl = FAtomic
		}
		g.feat("block:" + fl.String())
		return &Stmt{K: SBlock, Blk: g.block(fl, depth+1)}
	case 3:
		g.feat("any")
		if g.P(1, 12) {
			g.feat("any-block")
		}
		s := &Stmt{K: SAny, Var: g.newLoc(), E: g.iterE()}
		g.fairAny(s)
		if g.P(1, 4) {
			s.Cond = g.condOn(s.Var)
		}
		g.ro = append(g.ro, s.Var)
		s.Blk = g.seqOrSub(cur, depth)
		s.Flow = s.Blk.Flow
		g.ro = g.ro[:len(g.ro)-1]
		return s
	case 4:
		g.feat("any-inline")
		if g.P(1, 2) && len(g.Vars) > 0 && g.role == nil {
			v := g.intVar()
			e := Expr(ListE{I(0), I(1)})
			if g.P(1, 3) {
				e = g.iterE()
			}
			s := anyIn(v.N, e)
			if g.P(1, 5) {
				s.Cond = g.condOn(v.N)
			}
			return s
		}
		s := anyIn(g.newLoc(), g.iterE())
		g.fairAny(s)
		g.loc = append(g.loc, LV{N: s.Var, T: TyInt, M: 3, Lc: true})
		return s
	case 5:
		fl := FAtomic
		if g.Cfg.Serial && (!g.inFunc || g.serFn) && cur != FAtomic && g.P(1, 2) {
			fl = FSerial
		}
		if g.P(1, 2) {
			if fl == FSerial && !g.Cfg.NoPar && g.P(1, 3) {
				fl = FParallel
			}
			g.feat("for:" + fl.String())
			s := &Stmt{K: SFor, Var: g.newLoc(), E: g.iterE(), Flow: fl}
			g.ro = append(g.ro, s.Var)
			bf := fl
			if fl == FParallel {
				bf = pick(g.Src, []Flow{FAtomic, FSerial})
				lp := g.loop
				g.loop = 0
				s.Blk = g.block(bf, g.Cfg.MaxDepth)
				g.loop = lp
			} else {
				g.loop++
				s.Blk = g.block(bf, depth+1)
				g.loop--
			}
			g.ro = g.ro[:len(g.ro)-1]
			return s
		}
		g.feat("while:" + fl.String())
		w := g.newLoc()
		s := &Stmt{K: SWhile, E: Bin{"<", Var(w), I(g.Range(1, 2))}, Flow: fl}
		g.ro = append(g.ro, w)
		g.loop++
		s.Blk = g.block(fl, depth+1)
		g.loop--
		g.ro = g.ro[:len(g.ro)-1]
		s.Blk.Stmts = append([]*Stmt{py(Asg{w, Bin{"+", Var(w), I(1)}})}, s.Blk.Stmts...)
		bf := cur
		if cur == FOneof || cur == FParallel {
			bf = FAtomic
		}
		return &Stmt{K: SBlock, Blk: &Block{Flow: bf, Stmts: []*Stmt{py(Asg{w, I(0)}), s}}}
	case 6:
		g.feat("break/continue")
		if g.P(1, 2) {
			return &Stmt{K: SContinue}
		}
		return &Stmt{K: SBreak}
	case 7:
		g.feat("require")
		return &Stmt{K: SRequire, E: g.boolE(1)}
	case 8:
		g.feat("pass")
		return &Stmt{K: SPass}
	case 9:
		g.feat("checkpoint")
		return &Stmt{K: SCheckpoint}
	default:
		return g.call()
	}
}

func (g *Gen) roleFunc() bool { return g.role != nil && (len(g.role.Funcs) > 0 || len(g.peers) > 0) && !g.inFunc }

func (g *Gen) call() *Stmt {
	g.feat("call")
	s := &Stmt{K: SCall}
	var f *Func
	if g.roleFunc() && (len(g.funcs) == 0 || g.P(1, 2)) {
		l := []peerFunc{}
		for _, x := range g.role.Funcs {
			l = append(l, peerFunc{"self", x})
		}
		x := pick(g.Src, append(l, g.peers...))
		if x.recv != "self" {
			g.feat("call of another instance")
		}
		f, s.Recv = x.f, x.recv
	} else {
		f = pick(g.Src, g.funcs)
	}
	s.Fn = f.Name
	n := len(f.Params)
	if n > 0 && f.Params[n-1].Default != nil && g.P(1, 2) {
		n--
	}
	named := false
	for i := 0; i < n; i++ {
		a := Arg{E: g.smallInt(1)}
		if named || g.P(1, 5) {
			a.Name = f.Params[i].Name
			named = true
		}
		s.Args = append(s.Args, a)
	}
	if g.P(1, 2) {
		if g.role == nil && g.P(1, 2) {
			s.Var = g.newLoc()
		} else {
			s.Var = g.newLoc()
		}
	}
	return s
}

func (g *Gen) seqOrSub(cur Flow, depth int) *Block {
	fl := FAtomic
	if g.Cfg.Serial && (!g.inFunc || g.serFn) && cur != FAtomic && g.P(1, 2) {
		fl = FSerial
	}
	return g.block(fl, depth+1)
}

func (g *Gen) newLoc() string {
	g.nloc++
	return "v" + itoa(g.nloc)
}

func (g *Gen) condOn(v string) Expr {
	return Bin{pick(g.Src, []string{"!=", "<=", "=="}), Var(v), g.smallInt(1)}
}

// lvs: assignable locations of type t (any if t < 0)
func (g *Gen) lvs(t Ty) []LV {
	var l []LV
	add := func(vs []LV) {
		for _, v := range vs {
			if t < 0 || v.T == t {
				l = append(l, v)
			}
		}
	}
	add(g.fields)
	add(g.Vars)
	add(g.loc)
	return l
}

func (g *Gen) simple() *Stmt {
	if g.parList && g.role != nil && g.P(1, 4) {
		l := Attr{Var("self"), "L"}
		if g.P(1, 3) {
			return py(Meth{l, "clear", nil})
		}
		return iff(Bin{"<", Call{"len", []Expr{l}}, I(2)}, blk(FAtomic, py(Meth{l, "append", []Expr{g.smallInt(1)}})))
	}
	v := pick(g.Src, g.lvs(-1))
	return g.mutate(v)
}

func (g *Gen) mutate(v LV) *Stmt {
	plain := !v.Fd
	meth := func(m string, a ...Expr) *Stmt {
		if g.Cfg.CallStmts && plain && g.P(1, 2) {
			g.feat("pycall")
			return py(PyCall{Meth{v.E(), m, a}})
		}
		return py(Meth{v.E(), m, a})
	}
	switch v.T {
	case TyInt:
		switch g.N(4) {
		case 0:
			return py(v.Asg(Bin{"%", Bin{"+", v.E(), I(1)}, I(v.M)}))
		case 1:
			return py(v.Asg(Bin{"%", g.intE(2), I(v.M)}))
		case 2:
			if plain {
				return py(AsgN{[]string{v.N, v.N}, []Expr{I(0), Bin{"%", Bin{"+", v.E(), I(1)}, I(v.M)}}})
			}
			return py(v.Asg(I(1)))
		default:
			return py(v.Asg(I(g.N(v.M))))
		}
	case TyBool:
		if g.P(1, 2) {
			return py(v.Asg(g.boolE(2)))
		}
		return py(v.Asg(Not{v.E()}))
	case TySet:
		switch g.N(4) {
		case 0:
			return meth("add", g.smallInt(1))
		case 1:
			return meth("discard", g.smallInt(1))
		case 2:
			return meth("clear")
		default:
			return py(v.Asg(Bin{pick(g.Src, []string{"|", "-", "&"}), v.E(), SetE{g.smallInt(1)}}))
		}
	case TyList:
		switch g.N(4) {
		case 0:
			return py(v.Asg(IfE{Bin{"<", Call{"len", []Expr{v.E()}}, I(2)}, Bin{"+", v.E(), ListE{g.smallInt(1)}}, ListE{}}))
		case 1:
			return meth("clear")
		case 2:
			return py(v.Asg(ListE{g.smallInt(1)}))
		default:
			return &Stmt{K: SIf, Conds: []Expr{Bin{"<", Call{"len", []Expr{v.E()}}, I(2)}}, Blks: []*Block{{Flow: FAtomic, Stmts: []*Stmt{meth("append", g.smallInt(1))}}}}
		}
	case TyDict:
		switch g.N(4) {
		case 0, 1:
			return py(AsgIdx{v.E(), S(pick(g.Src, []string{"p", "q"})), g.smallInt(1)})
		case 2:
			return py(Meth{v.E(), "pop", []Expr{S("q"), I(0)}})
		default:
			return py(v.Asg(DictE{[]Expr{S("p")}, []Expr{g.smallInt(1)}}))
		}
	case TyRec:
		if g.P(1, 2) {
			return py(AsgAttr{v.E(), "f", g.smallInt(1)})
		}
		return py(AsgAttr{v.E(), "g", g.boolE(1)})
	case TyTup:
		return py(v.Asg(TupE{g.smallInt(1), g.smallInt(1)}))
	}
	panic("ty")
}

// smallInt: an expression with values in 0..2
func (g *Gen) smallInt(d int) Expr {
	if d <= 0 || g.P(1, 2) {
		switch g.N(3) {
		case 0:
			return I(g.N(3))
		case 1:
			if len(g.ro) > 0 {
				return Bin{"%", Var(pick(g.Src, g.ro)), I(3)}
			}
			return I(1)
		}
		if l := g.lvs(TyInt); len(l) > 0 {
			return pick(g.Src, l).E()
		}
		return I(0)
	}
	return Bin{"%", g.intE(d), I(3)}
}

func (g *Gen) intE(d int) Expr {
	if d <= 0 {
		switch g.N(5) {
		case 0:
			return I(g.N(3))
		case 1:
			if len(g.params) > 0 && g.P(1, 2) {
				return pick(g.Src, g.params)
			}
			if len(g.ro) > 0 {
				return Var(pick(g.Src, g.ro))
			}
		case 2:
			if len(g.Consts) > 0 {
				return Var(pick(g.Src, g.Consts))
			}
		}
		if l := g.lvs(TyInt); len(l) > 0 {
			return pick(g.Src, l).E()
		}
		return I(1)
	}
	switch g.N(8) {
	case 0, 1:
		return g.intE(0)
	case 2:
		return Bin{pick(g.Src, []string{"+", "*", "-"}), g.intE(d - 1), g.intE(0)}
	case 3:
		return IfE{g.boolE(d - 1), g.intE(d - 1), g.intE(0)}
	case 4:
		l := append(g.lvs(TySet), append(g.lvs(TyList), g.lvs(TyDict)...)...)
		if len(l) > 0 {
			return Call{"len", []Expr{pick(g.Src, l).E()}}
		}
	case 5:
		if l := g.lvs(TyRec); len(l) > 0 {
			return Attr{pick(g.Src, l).E(), "f"}
		}
	case 6:
		if l := g.lvs(TyDict); len(l) > 0 {
			return MCall{pick(g.Src, l).E(), "get", []Expr{S(pick(g.Src, []string{"p", "q"})), I(0)}}
		}
	case 7:
		if l := g.lvs(TyTup); len(l) > 0 {
			return Idx{pick(g.Src, l).E(), I(g.N(2))}
		}
	}
	return Call{pick(g.Src, []string{"min", "max"}), []Expr{g.intE(d - 1), I(1)}}
}

func (g *Gen) boolE(d int) Expr {
	if d <= 0 {
		if l := g.lvs(TyBool); len(l) > 0 && g.P(1, 2) {
			return pick(g.Src, l).E()
		}
		return Bin{pick(g.Src, []string{"==", "!=", "<", "<=", ">", ">="}), g.intE(0), I(g.N(3))}
	}
	switch g.N(7) {
	case 0, 1, 2:
		return g.boolE(0)
	case 3:
		return Bin{pick(g.Src, []string{"and", "or"}), g.boolE(d - 1), g.boolE(0)}
	case 4:
		l := append(g.lvs(TySet), g.lvs(TyList)...)
		if len(l) > 0 {
			return Bin{pick(g.Src, []string{"in", "not in"}), g.smallInt(0), pick(g.Src, l).E()}
		}
	case 5:
		if l := g.lvs(TyDict); len(l) > 0 {
			return Bin{"in", S("q"), pick(g.Src, l).E()}
		}
	case 6:
		return Not{g.boolE(d - 1)}
	}
	return g.boolE(0)
}

// iterE: a small collection
func (g *Gen) iterE() Expr {
	switch g.N(8) {
	case 0:
		return ListE{I(0), I(1)}
	case 1:
		return ListE{I(g.N(3))}
	case 2:
		return Call{"range", []Expr{I(g.Range(1, 2))}}
	case 3:
		if l := g.lvs(TySet); len(l) > 0 {
			return Call{"sorted", []Expr{pick(g.Src, l).E()}}
		}
	case 4:
		if l := g.lvs(TyList); len(l) > 0 {
			return pick(g.Src, l).E()
		}
	case 5:
		return Comp{Var("z"), "z", ListE{I(0), I(1), I(2)}, Bin{"!=", Var("z"), g.smallInt(0)}}
	case 6:
		if len(g.Consts) > 0 {
			return Var("L")
		}
	case 7:
		return Call{"range", []Expr{g.smallInt(0)}}
	}
	return ListE{I(0), I(1)}
}
