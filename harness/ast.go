package main

import (
	"fmt"
	"strings"

	ast "fizz/proto"
)

// ---- program syntax (the harness's own tree; rendered to the checker's ast.File) ----

type Flow int

const (
	FUnknown Flow = iota
	FAtomic
	FSerial
	FOneof
	FParallel
)

func (f Flow) pb() ast.Flow {
	switch f {
	case FAtomic:
		return ast.Flow_FLOW_ATOMIC
	case FSerial:
		return ast.Flow_FLOW_SERIAL
	case FOneof:
		return ast.Flow_FLOW_ONEOF
	case FParallel:
		return ast.Flow_FLOW_PARALLEL
	}
	return ast.Flow_FLOW_UNKNOWN
}

func (f Flow) String() string {
	return []string{"", "atomic ", "serial ", "oneof ", "parallel "}[f]
}

type Fair int

const (
	FairNone Fair = iota
	FairUnfair
	FairWeak
	FairStrong
)

func (f Fair) pb() *ast.Fairness {
	switch f {
	case FairUnfair:
		return &ast.Fairness{Level: ast.FairnessLevel_FAIRNESS_LEVEL_UNFAIR}
	case FairWeak:
		return &ast.Fairness{Level: ast.FairnessLevel_FAIRNESS_LEVEL_WEAK}
	case FairStrong:
		return &ast.Fairness{Level: ast.FairnessLevel_FAIRNESS_LEVEL_STRONG}
	}
	return nil
}

func (f Fair) String() string { return []string{"", "", "fair ", "fair<strong> "}[f] }

type SKind int

const (
	SPy       SKind = iota // Code executed as a python statement; semantics in Do
	SPass
	SBlock
	SIf
	SFor
	SWhile
	SBreak
	SContinue
	SReturn
	SRequire
	SAny     // inline when Blk == nil
	SCall    // fizz function call
	SNew     // Var = Role()
	SCheckpoint
)

type Arg struct {
	Name string
	E    Expr
}

type Stmt struct {
	K     SKind
	Label string
	// SPy: Target/Op
	Py    PyOp
	Var   string // loop variable, assigned variable of call
	E     Expr   // condition / iterable / return value (may be nil)
	Cond  Expr   // any ... if cond
	Flow  Flow
	Blk   *Block
	Conds []Expr   // SIf: one per branch, nil = else
	Blks  []*Block // SIf
	Fair  Fair
	Recv  string
	Fn    string
	Args  []Arg
	Role  string // SNew
}

type Block struct {
	Flow  Flow
	Stmts []*Stmt
	id    int
}

type Action struct {
	Name string
	Flow Flow
	Fair Fair
	Blk  *Block
}

type Func struct {
	Name   string
	Flow   Flow
	Params []Param
	Blk    *Block
}

type Param struct {
	Name    string
	Default Expr
}

type RoleDef struct {
	Name      string
	Symmetric bool
	Durable   []string // nil: no annotation
	Ephemeral []string
	Actions   []*Action // may contain Init
	Funcs     []*Func
}

type Assertion struct {
	Name string
	Kind string // always, exists, transition, always eventually, eventually always
	E    Expr
	Blk  *Block // body; nil: "return E"
}

type Spec struct {
	Consts  []string // top level python statements
	ConstV  map[string]*V
	Init    *Block
	Actions []*Action
	Funcs   []*Func
	Roles   []*RoleDef
	Asserts []Assertion
}

// ---- rendering ----

func pyStmt(code string) *ast.Statement {
	return &ast.Statement{PyStmt: &ast.PyStmt{Code: code}}
}

func pbExpr(e Expr) *ast.Expr {
	if e == nil {
		return nil
	}
	return &ast.Expr{PyExpr: e.Str()}
}

func (s *Stmt) pb() *ast.Statement {
	st := &ast.Statement{Label: s.Label}
	switch s.K {
	case SPy:
		if pc, ok := s.Py.(PyCall); ok {
			st.CallStmt = pc.pb()
			break
		}
		st.PyStmt = &ast.PyStmt{Code: s.Py.Str()}
	case SNew:
		st.PyStmt = &ast.PyStmt{Code: s.Var + " = " + s.Role + "(" + argsStr(s.Args) + ")"}
	case SPass:
		st.PyStmt = &ast.PyStmt{Code: "pass"}
	case SCheckpoint:
		st.Label = "checkpoint"
		st.PyStmt = &ast.PyStmt{Code: "pass"}
	case SBlock:
		st.Block = s.Blk.pb()
	case SIf:
		f := &ast.IfStmt{Flow: s.Flow.pb()}
		for i, c := range s.Conds {
			br := &ast.Branch{Block: s.Blks[i].pb()}
			if c == nil {
				br.Condition = "True"
				br.ConditionExpr = &ast.Expr{PyExpr: "True"}
			} else {
				br.Condition = c.Str()
				br.ConditionExpr = pbExpr(c)
			}
			f.Branches = append(f.Branches, br)
		}
		st.IfStmt = f
	case SFor:
		st.ForStmt = &ast.ForStmt{Flow: s.Flow.pb(), LoopVars: []string{s.Var}, PyExpr: s.E.Str(), IterExpr: pbExpr(s.E), Block: s.Blk.pb()}
	case SWhile:
		st.WhileStmt = &ast.WhileStmt{Flow: s.Flow.pb(), PyExpr: s.E.Str(), IterExpr: pbExpr(s.E), Block: s.Blk.pb()}
	case SBreak:
		st.BreakStmt = &ast.BreakStmt{}
	case SContinue:
		st.ContinueStmt = &ast.ContinueStmt{}
	case SReturn:
		r := &ast.ReturnStmt{}
		if s.E != nil {
			r.PyExpr = s.E.Str()
			r.Expr = pbExpr(s.E)
		}
		st.ReturnStmt = r
	case SRequire:
		st.RequireStmt = &ast.RequireStmt{Condition: s.E.Str(), ConditionExpr: pbExpr(s.E)}
	case SAny:
		a := &ast.AnyStmt{Flow: s.Flow.pb(), LoopVars: []string{s.Var}, PyExpr: s.E.Str(), IterExpr: pbExpr(s.E), Fairness: s.Fair.pb()}
		if s.Cond != nil {
			a.Condition = s.Cond.Str()
			a.ConditionExpr = pbExpr(s.Cond)
		}
		if s.Blk != nil {
			a.Block = s.Blk.pb()
		}
		st.AnyStmt = a
	case SCall:
		c := &ast.CallStmt{Name: s.Fn, Receiver: s.Recv}
		if s.Var != "" {
			c.Vars = []string{s.Var}
		}
		for _, a := range s.Args {
			c.Args = append(c.Args, &ast.Argument{Name: a.Name, PyExpr: a.E.Str(), Expr: pbExpr(a.E)})
		}
		st.CallStmt = c
	}
	return st
}

func argsStr(as []Arg) string {
	var p []string
	for _, a := range as {
		if a.Name != "" {
			p = append(p, a.Name+"="+a.E.Str())
		} else {
			p = append(p, a.E.Str())
		}
	}
	return strings.Join(p, ", ")
}

func (b *Block) pb() *ast.Block {
	x := &ast.Block{Flow: b.Flow.pb()}
	for _, s := range b.Stmts {
		x.Stmts = append(x.Stmts, s.pb())
	}
	return x
}

func (a *Action) pb() *ast.Action {
	b := a.Blk.pb()
	b.Flow = a.Flow.pb()
	fair := a.Fair.pb()
	if fair == nil {
		fair = FairUnfair.pb()
	}
	return &ast.Action{Name: a.Name, Flow: a.Flow.pb(), Fairness: fair, Block: b}
}

func (f *Func) pb() *ast.Function {
	b := f.Blk.pb()
	b.Flow = f.Flow.pb()
	x := &ast.Function{Name: f.Name, Flow: f.Flow.pb(), Block: b}
	for _, p := range f.Params {
		q := &ast.Parameter{Name: p.Name}
		if p.Default != nil {
			q.DefaultPyExpr = p.Default.Str()
			q.DefaultExpr = pbExpr(p.Default)
		}
		x.Params = append(x.Params, q)
	}
	return x
}

func (a Assertion) pb() *ast.Invariant {
	inv := &ast.Invariant{Name: a.Name}
	if a.Kind == "transition" {
		inv.Params = []*ast.Parameter{{Name: "before"}, {Name: "after"}}
	}
	inv.TemporalOperators = strings.Fields(a.Kind)
	b := &ast.Block{}
	if a.Blk != nil {
		b = a.Blk.pb()
	} else {
		b.Stmts = append(b.Stmts, (&Stmt{K: SReturn, E: a.E}).pb())
	}
	b.Flow = ast.Flow_FLOW_ATOMIC
	inv.Block = b
	return inv
}

func (s *Spec) File() *ast.File {
	f := &ast.File{SourceInfo: &ast.SourceInfo{FileName: "spec.fizz"}}
	for _, c := range s.Consts {
		f.Stmts = append(f.Stmts, pyStmt(c))
	}
	if s.Init != nil {
		ib := s.Init.pb()
		ib.Flow = ast.Flow_FLOW_ATOMIC
		f.Actions = append(f.Actions, &ast.Action{Name: "Init", Flow: ast.Flow_FLOW_ATOMIC, Fairness: FairUnfair.pb(), Block: ib})
	}
	for _, a := range s.Actions {
		f.Actions = append(f.Actions, a.pb())
	}
	for _, fn := range s.Funcs {
		f.Functions = append(f.Functions, fn.pb())
	}
	for _, r := range s.Roles {
		x := &ast.Role{Name: r.Name}
		if r.Symmetric {
			x.Modifiers = append(x.Modifiers, "symmetric")
		}
		if r.Durable != nil || r.Ephemeral != nil {
			d := &ast.Decorator{Name: "state"}
			mk := func(name string, l []string) {
				q := make([]string, len(l))
				for i, z := range l {
					q[i] = "'" + z + "'"
				}
				e := "[" + strings.Join(q, ", ") + "]"
				e = name + " = " + e
				d.Args = append(d.Args, &ast.Argument{PyExpr: e, Expr: &ast.Expr{PyExpr: e}})
			}
			if r.Durable != nil {
				mk("durable", r.Durable)
			} else {
				mk("ephemeral", r.Ephemeral)
			}
			x.Decorators = append(x.Decorators, d)
		}
		for _, a := range r.Actions {
			x.Actions = append(x.Actions, a.pb())
		}
		for _, fn := range r.Funcs {
			x.Functions = append(x.Functions, fn.pb())
		}
		f.Roles = append(f.Roles, x)
	}
	for _, a := range s.Asserts {
		f.Invariants = append(f.Invariants, a.pb())
	}
	return f
}

// ---- pretty printing (fizz-like source, for samples and replay files) ----

func (s *Spec) Text() string {
	var b strings.Builder
	for _, c := range s.Consts {
		b.WriteString(c + "\n")
	}
	if s.Init != nil {
		b.WriteString("action Init:\n")
		s.Init.text(&b, "  ")
	}
	for _, a := range s.Actions {
		a.text(&b, "")
	}
	for _, f := range s.Funcs {
		f.text(&b, "")
	}
	for _, r := range s.Roles {
		if r.Durable != nil {
			fmt.Fprintf(&b, "@state(durable=%q)\n", r.Durable)
		} else if r.Ephemeral != nil {
			fmt.Fprintf(&b, "@state(ephemeral=%q)\n", r.Ephemeral)
		}
		if r.Symmetric {
			b.WriteString("symmetric ")
		}
		fmt.Fprintf(&b, "role %s:\n", r.Name)
		for _, a := range r.Actions {
			a.text(&b, "  ")
		}
		for _, f := range r.Funcs {
			f.text(&b, "  ")
		}
	}
	for _, a := range s.Asserts {
		p := ""
		if a.Kind == "transition" {
			p = "(before, after)"
		}
		fmt.Fprintf(&b, "%s assertion %s%s:\n", a.Kind, a.Name, p)
		if a.Blk != nil {
			a.Blk.text(&b, "  ")
		} else {
			fmt.Fprintf(&b, "  return %s\n", a.E.Str())
		}
	}
	return b.String()
}

func (a *Action) text(b *strings.Builder, ind string) {
	fmt.Fprintf(b, "%s%s%saction %s:\n", ind, a.Flow, a.Fair, a.Name)
	a.Blk.text(b, ind+"  ")
}

func (f *Func) text(b *strings.Builder, ind string) {
	var ps []string
	for _, p := range f.Params {
		if p.Default != nil {
			ps = append(ps, p.Name+"="+p.Default.Str())
		} else {
			ps = append(ps, p.Name)
		}
	}
	fmt.Fprintf(b, "%s%sfunc %s(%s):\n", ind, f.Flow, f.Name, strings.Join(ps, ", "))
	f.Blk.text(b, ind+"  ")
}

func (bl *Block) text(b *strings.Builder, ind string) {
	for _, s := range bl.Stmts {
		s.text(b, ind)
	}
}

func (s *Stmt) text(b *strings.Builder, ind string) {
	b.WriteString(ind)
	if s.Label != "" {
		b.WriteString("`" + s.Label + "` ")
	}
	switch s.K {
	case SPy:
		b.WriteString(s.Py.Str() + "\n")
	case SNew:
		fmt.Fprintf(b, "%s = %s(%s)\n", s.Var, s.Role, argsStr(s.Args))
	case SPass:
		b.WriteString("pass\n")
	case SCheckpoint:
		b.WriteString("`checkpoint`\n")
	case SBlock:
		fmt.Fprintf(b, "%s:\n", strings.TrimSpace("block "+s.Blk.Flow.String()))
		s.Blk.text(b, ind+"  ")
	case SIf:
		for i, c := range s.Conds {
			kw := "elif"
			if i == 0 {
				kw = "if"
			} else {
				b.WriteString(ind)
			}
			if c == nil {
				fmt.Fprintf(b, "else: #%s\n", s.Blks[i].Flow)
			} else {
				fmt.Fprintf(b, "%s %s: #%s\n", kw, c.Str(), s.Blks[i].Flow)
			}
			s.Blks[i].text(b, ind+"  ")
		}
	case SFor:
		fmt.Fprintf(b, "%sfor %s in %s: #%s\n", s.Flow, s.Var, s.E.Str(), s.Blk.Flow)
		s.Blk.text(b, ind+"  ")
	case SWhile:
		fmt.Fprintf(b, "%swhile %s: #%s\n", s.Flow, s.E.Str(), s.Blk.Flow)
		s.Blk.text(b, ind+"  ")
	case SBreak:
		b.WriteString("break\n")
	case SContinue:
		b.WriteString("continue\n")
	case SReturn:
		b.WriteString("return")
		if s.E != nil {
			b.WriteString(" " + s.E.Str())
		}
		b.WriteString("\n")
	case SRequire:
		b.WriteString("require " + s.E.Str() + "\n")
	case SAny:
		c := ""
		if s.Cond != nil {
			c = " if " + s.Cond.Str()
		}
		if s.Blk == nil {
			fmt.Fprintf(b, "%s = %soneof %s%s\n", s.Var, s.Fair, s.E.Str(), c)
		} else {
			fmt.Fprintf(b, "%s%soneof %s in %s%s: #%s\n", s.Flow, s.Fair, s.Var, s.E.Str(), c, s.Blk.Flow)
			s.Blk.text(b, ind+"  ")
		}
	case SCall:
		if s.Var != "" {
			b.WriteString(s.Var + " = ")
		}
		if s.Recv != "" {
			b.WriteString(s.Recv + ".")
		}
		fmt.Fprintf(b, "%s(%s)\n", s.Fn, argsStr(s.Args))
	}
}

// PyCall is a method call the parser turns into a call statement: l.append(1).
type PyCall struct{ M Meth }

func (p PyCall) Str() string { return p.M.Str() }
func (p PyCall) pb() *ast.CallStmt {
	c := &ast.CallStmt{Receiver: p.M.X.Str(), Name: p.M.M}
	for _, a := range p.M.A {
		c.Args = append(c.Args, &ast.Argument{PyExpr: a.Str(), Expr: pbExpr(a)})
	}
	return c
}
