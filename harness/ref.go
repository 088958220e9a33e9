package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// ---- reference semantics: an explicit-state interpreter of the specification language ----
//
// A configuration is (state variables, role instances, threads, in-flight messages). A step runs one thread
// from one yield point to the next and is identified by the names of the choices made.

type Ctx struct {
	Blk     *Block // block context
	I       int    // current statement
	End     bool
	Pending bool // parallel block between two statements
	Flow    Flow
	Skip    []int
	St      *Stmt // loop or any context
	Rest    []*V
}

type Frame struct {
	Name   string
	Obj    int // role index or -1
	Args   map[string]*V
	Vars   map[string]*V
	C      []Ctx
	Assign string
	Kind   int // 0 action, 1 function, 2 role Init, 3 Init
	Start  *Block
	Act    string // name under which a returned value is reported
}

type Thr struct {
	F    []*Frame
	Fair Fair
}

type RoleI struct {
	Def    *RoleDef
	Id     int
	Fields *V // record
	Params *V // record: the arguments of the constructor
	Init   *V
	Dead   bool // nothing refers to the instance
}

func (r *RoleI) Ref() string { return r.Def.Name + "#" + strconv.Itoa(r.Id) }

type ChanMsg struct {
	Recv string
	F    *Frame
}

type Conf struct {
	G     map[string]*V
	Roles []*RoleI
	T     []*Thr
	Cur   int
	Msgs  map[int][]*ChanMsg
	Total int            // actions started
	Count map[string]int // by action and instance
	// parallel blocks: the alternatives the yielding thread may continue with
	Forks []*Conf
}

type Quirks struct {
	ForkReset bool // alternatives forget that a statement was executed before the choice in the same step
}

type Ref struct {
	S       *Spec
	Q       Quirks
	MaxConc int
	Act     map[string]ActOpt
	Limit   int // states
	Labels  bool
	Calls   bool // record the messages between role instances
	Crash   bool
	Total   int  // bound on the actions started; 0: none
	Product bool // the numbers of actions started are part of the configuration
	steps   int
}

type tooBig struct{}

func cpMap(m map[string]*V, memo map[*V]*V) map[string]*V {
	if m == nil {
		return nil
	}
	r := make(map[string]*V, len(m))
	for k, v := range m {
		r[k] = v.clone(memo)
	}
	return r
}

func (f *Frame) clone(memo map[*V]*V) *Frame {
	n := *f
	n.Args = cpMap(f.Args, memo)
	n.Vars = cpMap(f.Vars, memo)
	n.C = make([]Ctx, len(f.C))
	for i, c := range f.C {
		c.Skip = append([]int{}, c.Skip...)
		if c.Rest != nil {
			r := make([]*V, len(c.Rest))
			for j, v := range c.Rest {
				r[j] = v.clone(memo)
			}
			c.Rest = r
		}
		n.C[i] = c
	}
	return &n
}

func (c *Conf) clone() *Conf {
	memo := map[*V]*V{}
	n := &Conf{G: cpMap(c.G, memo), Cur: c.Cur, Total: c.Total}
	if c.Count != nil {
		n.Count = map[string]int{}
		for k, v := range c.Count {
			n.Count[k] = v
		}
	}
	for _, r := range c.Roles {
		n.Roles = append(n.Roles, &RoleI{Def: r.Def, Id: r.Id, Fields: r.Fields.clone(memo), Params: r.Params.clone(memo), Init: r.Init.clone(memo), Dead: r.Dead})
	}
	for _, t := range c.T {
		if t == nil {
			n.T = append(n.T, nil)
			continue
		}
		nt := &Thr{Fair: t.Fair}
		for _, f := range t.F {
			nt.F = append(nt.F, f.clone(memo))
		}
		n.T = append(n.T, nt)
	}
	if c.Msgs != nil {
		n.Msgs = map[int][]*ChanMsg{}
		for k, l := range c.Msgs {
			for _, m := range l {
				n.Msgs[k] = append(n.Msgs[k], &ChanMsg{m.Recv, m.F.clone(memo)})
			}
		}
	}
	return n
}

// gc: instances that nothing refers to are gone at the next step
func (c *Conf) gc() *Conf {
	live := make([]bool, len(c.Roles))
	seen := map[*V]bool{}
	var walk func(v *V)
	role := func(i int) {
		if i >= 0 && !live[i] {
			live[i] = true
			walk(c.Roles[i].Fields)
			walk(c.Roles[i].Params)
			walk(c.Roles[i].Init)
		}
	}
	walk = func(v *V) {
		if v == nil || seen[v] {
			return
		}
		if v.K == VRole {
			role(v.R)
			return
		}
		if len(v.L)+len(v.DK)+len(v.DV) > 0 {
			seen[v] = true
		}
		for _, l := range [][]*V{v.L, v.DK, v.DV} {
			for _, x := range l {
				walk(x)
			}
		}
	}
	vars := func(m map[string]*V) {
		for _, v := range m {
			walk(v)
		}
	}
	frame := func(f *Frame) {
		role(f.Obj)
		vars(f.Args)
		vars(f.Vars)
		for _, x := range f.C {
			for _, v := range x.Rest {
				walk(v)
			}
		}
	}
	vars(c.G)
	for _, t := range c.T {
		if t != nil {
			for _, f := range t.F {
				frame(f)
			}
		}
	}
	for _, l := range c.Msgs {
		for _, m := range l {
			frame(m.F)
		}
	}
	n := c
	for i, r := range c.Roles {
		if !live[i] && !r.Dead {
			if n == c {
				n = c.clone()
			}
			n.Roles[i].Dead = true
		}
	}
	return n
}

func (c *Conf) nthreads() int {
	n := 0
	for _, t := range c.T {
		if t != nil {
			n++
		}
	}
	return n
}

func (c *Conf) roleName(i int) string { return "role " + c.Roles[i].Ref() }

func canonMap(b *strings.Builder, m map[string]*V, rn func(int) string) {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	b.WriteByte('{')
	for i, k := range ks {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(strconv.Quote(k))
		b.WriteByte(':')
		m[k].canon(b, rn)
	}
	b.WriteByte('}')
}

func (f *Frame) key(c *Conf) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s/%d/%s/%d[", f.Name, f.Obj, f.Assign, f.Kind)
	canonMap(&b, f.Args, c.roleName)
	canonMap(&b, f.Vars, c.roleName)
	for _, x := range f.C {
		if x.Blk != nil {
			fmt.Fprintf(&b, "(%p %d %v %v %v)", x.Blk, x.I, x.End, x.Pending, sortedInts(x.Skip))
		} else {
			fmt.Fprintf(&b, "(%p", x.St)
			for _, v := range x.Rest {
				b.WriteByte(' ')
				v.canon(&b, c.roleName)
			}
			b.WriteByte(')')
		}
	}
	if len(f.C) == 0 {
		fmt.Fprintf(&b, "%p", f.Start)
	}
	b.WriteByte(']')
	return b.String()
}

func sortedInts(l []int) []int {
	r := append([]int{}, l...)
	sort.Ints(r)
	return r
}

// Key identifies a configuration at a yield point.
func (r *RoleI) get(f string) *V {
	if v := r.Fields.get(vStr(f)); v != nil {
		return v
	}
	return r.Params.get(vStr(f))
}

// canon: the values of a role instance
func (r *RoleI) canon(b *strings.Builder, c *Conf) {
	if len(r.Params.DK) > 0 {
		r.Params.canon(b, c.roleName)
	}
	r.Fields.canon(b, c.roleName)
}

func (c *Conf) Key() string {
	var b strings.Builder
	b.WriteString(c.Obs())
	var ts []string
	for _, t := range c.T {
		if t == nil {
			continue
		}
		var q strings.Builder
		for _, f := range t.F {
			q.WriteString(f.key(c))
		}
		ts = append(ts, q.String())
	}
	sort.Strings(ts)
	b.WriteString(strings.Join(ts, ";"))
	var ks []int
	for k := range c.Msgs {
		if len(c.Msgs[k]) > 0 {
			ks = append(ks, k)
		}
	}
	sort.Ints(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "ch%d", k)
		var ms []string
		for _, m := range c.Msgs[k] {
			ms = append(ms, m.Recv+m.F.key(c))
		}
		sort.Strings(ms) // unordered
		b.WriteString(strings.Join(ms, ";"))
	}
	return b.String()
}

// Obs: what the checker exposes of a state, in the form of implObs.
func (c *Conf) Obs() string {
	var b strings.Builder
	canonMap(&b, c.G, c.roleName)
	for _, r := range c.Roles {
		if r.Dead {
			continue
		}
		b.WriteString(" " + r.Ref())
		r.canon(&b, c)
	}
	fmt.Fprintf(&b, " t%d", c.nthreads())
	n := 0
	for _, l := range c.Msgs {
		n += len(l)
	}
	if n > 0 {
		fmt.Fprintf(&b, " m%d", n)
	}
	return b.String()
}

// ---- one step ----

type mach struct {
	r        *Ref
	c        *Conf
	enabled  bool
	progress bool
	path     []string
	labels   []string
	msgs     []string
	ckpt     bool
	rets     map[string]*V
	topVars  map[string]bool
	nonEnd   bool // something other than block ends ran since the last choice
	inline   bool // the last choice was an inline any
	act      string
	ran      []string // kinds executed, for statistics
	fair     Fair
}

type Outcome struct {
	L    string
	C    *Conf
	Fair Fair
	Path []string
	Rets map[string]*V
}

type res int

const (
	rCont res = iota
	rYield
	rYieldNow
	rForks
	rAbort
)

type fork struct {
	name string
	m    *mach
	inl  bool
}

func (m *mach) thr() *Thr     { return m.c.T[m.c.Cur] }
func (m *mach) fr() *Frame    { t := m.thr(); return t.F[len(t.F)-1] }
func (m *mach) top() *Ctx     { f := m.fr(); return &f.C[len(f.C)-1] }
func (m *mach) roleS(i int) string { return m.c.Roles[i].Ref() }

func (m *mach) Lookup(n string) *V {
	f := m.fr()
	if v, ok := f.Vars[n]; ok {
		return v
	}
	if v, ok := f.Args[n]; ok {
		return v
	}
	if n == "self" && f.Obj >= 0 {
		return &V{K: VRole, R: f.Obj}
	}
	if v, ok := m.c.G[n]; ok {
		return v
	}
	if v, ok := m.r.S.ConstV[n]; ok {
		return v
	}
	return nil
}
func (m *mach) Field(role int, f string) *V { return m.c.Roles[role].get(f) }

func (m *mach) assign(n string, v *V) {
	f := m.fr()
	if _, ok := f.Vars[n]; ok {
		f.Vars[n] = v
		return
	}
	if _, ok := f.Args[n]; ok {
		f.Args[n] = v
		return
	}
	if _, ok := m.c.G[n]; ok {
		m.c.G[n] = v
		return
	}
	if _, ok := m.r.S.ConstV[n]; ok {
		return
	}
	f.Vars[n] = v
	if f.Kind == 3 && len(f.C) == 1 {
		m.topVars[n] = true
	}
}

func (m *mach) fork(name string) *mach {
	n := &mach{r: m.r, c: m.c.clone(), path: append(append([]string{}, m.path[:len(m.path)-1]...), m.seal()), act: m.act, fair: m.fair}
	n.path = append(n.path, name)
	n.topVars = map[string]bool{}
	for k := range m.topVars {
		n.topVars[k] = true
	}
	if !m.r.Q.ForkReset {
		n.enabled = m.enabled
	}
	n.ran = append([]string{}, m.ran...)
	return n
}

// seal returns the last path element with its labels.
func (m *mach) seal() string {
	p := m.path[len(m.path)-1]
	if m.r.Labels && len(m.labels) > 0 {
		p += "{" + strings.Join(m.labels, ",") + "}"
	}
	if m.r.Calls && len(m.msgs) > 0 {
		p += "<" + strings.Join(m.msgs, " ") + ">"
	}
	return p
}

// sent records a call or a return between different role instances.
func (m *mach) sent(from, to int, name, what, vals string) {
	if from == to {
		return
	}
	ref := func(i int) string {
		if i < 0 {
			return ""
		}
		return m.c.Roles[i].Ref()
	}
	m.msgs = append(m.msgs, what+" "+ref(from)+">"+ref(to)+" "+name+"("+vals+")")
}

func (m *mach) push(c Ctx) {
	f := m.fr()
	f.C = append(f.C, c)
}
func (m *mach) pop() {
	f := m.fr()
	f.C = f.C[:len(f.C)-1]
}

// enter a block: pushes its context; oneof and parallel blocks fork at once.
func (m *mach) enter(b *Block) (res, []fork) {
	f := m.fr()
	flow := b.Flow
	if flow == FUnknown {
		if len(f.C) == 0 {
			panic("no flow")
		}
		flow = f.C[len(f.C)-1].Flow
	}
	m.push(Ctx{Blk: b, Flow: flow})
	switch flow {
	case FAtomic, FSerial:
		return rCont, nil
	}
	var fs []fork
	for i := range b.Stmts {
		n := m.fork("Stmt:" + itoa(i))
		n.top().I = i
		if flow == FParallel {
			n.top().Skip = []int{i}
		}
		fs = append(fs, fork{"", n, false})
	}
	return rForks, fs
}

// endStmt applies the rule for the end of a statement in the current context.
func (m *mach) endStmt() (res, []fork) {
	c := m.top()
	if c.Blk == nil {
		k := c.St.K
		if k == SAny {
			fl := c.Flow
			m.pop()
			if pf := m.top().Flow; pf == FOneof || pf == FParallel {
				return m.endStmt()
			}
			m.top().I++
			if fl == FSerial && m.enabled {
				return rYield, nil
			}
			return rCont, nil
		}
		if (c.Flow == FSerial || c.Flow == FParallel) && m.enabled {
			return rYield, nil
		}
		return rCont, nil
	}
	switch c.Flow {
	case FAtomic:
		c.I++
		return rCont, nil
	case FSerial:
		c.I++
		if m.enabled {
			return rYield, nil
		}
		return rCont, nil
	case FOneof:
		c.End = true
		return rCont, nil
	case FParallel:
		if len(c.Skip) == len(c.Blk.Stmts) {
			c.End = true
			return rCont, nil
		}
		var fs []fork
		for i := range c.Blk.Stmts {
			used := false
			for _, s := range c.Skip {
				used = used || s == i
			}
			if used {
				continue
			}
			n := m.fork("Stmt:" + itoa(i))
			t := n.top()
			t.I = i
			t.Skip = append(t.Skip, i)
			fs = append(fs, fork{"", n, false})
		}
		c.Pending = true
		if m.enabled {
			return rYield, fs
		}
		return rForks, fs
	}
	panic("flow")
}

func (m *mach) atEnd() bool {
	c := m.top()
	return c.Blk != nil && (c.End || c.I >= len(c.Blk.Stmts))
}

// endBlock leaves the block on top.
func (m *mach) endBlock() (res, []fork) {
	f := m.fr()
	m.pop()
	if len(f.C) == 0 {
		if f.Kind == 3 {
			for k, v := range f.Vars {
				if m.topVars[k] {
					m.c.G[k] = v
				}
			}
		}
		return m.popFrame(vNone, false)
	}
	parent := m.top().Blk == nil && m.top().St.K == SAny
	r, fs := m.endStmt()
	if r != rCont {
		return r, fs
	}
	_ = parent
	if fl := m.top().Flow; (fl == FSerial || fl == FParallel) && m.enabled {
		return rYield, nil
	}
	return rCont, nil
}

// popFrame ends the current frame.
func (m *mach) popFrame(v *V, ret bool) (res, []fork) {
	t := m.thr()
	f := m.fr()
	t.F = t.F[:len(t.F)-1]
	if len(t.F) == 0 {
		m.c.T[m.c.Cur] = nil
		return rYield, nil
	}
	if f.Kind == 1 {
		m.sent(m.fr().Obj, f.Obj, f.Name, "return", v.repr(m.c.roleName))
	}
	if f.Kind == 2 {
		m.c.Roles[f.Obj].Init = m.c.Roles[f.Obj].Fields.clone(map[*V]*V{})
	}
	if f.Assign != "" {
		m.assign(f.Assign, v)
		m.enabled = true
	}
	return m.endStmt()
}

// run executes the machine to its yield points, reporting each outcome.
func (m *mach) run(out func(*mach, []fork)) {
	for {
		m.r.steps++
		if m.r.steps > 3000000 {
			panic(tooBig{})
		}
		var r res
		var fs []fork
		if len(m.fr().C) == 0 {
			m.nonEnd = true
			r, fs = m.enter(m.fr().Start)
		} else if m.atEnd() {
			r, fs = m.endBlock()
			if r == rYield {
				// a yield at the end of a block does not absorb the ends of the enclosing blocks
				r = rYieldNow
				if m.r.Q.ForkReset && !m.nonEnd && m.inline && m.thr() == nil {
					m.enabled = true
				}
			}
		} else {
			m.nonEnd = true
			r, fs = m.stmt()
		}
		switch r {
		case rCont:
			continue
		case rAbort:
			return
		case rForks:
			for _, f := range fs {
				f.m.inline = f.inl
				f.m.run(out)
			}
			return
		case rYield:
			if fs == nil {
				for m.thr() != nil && len(m.fr().C) > 0 && m.atEnd() {
					_, fs = m.endBlock()
					if fs != nil {
						break
					}
				}
			}
			fallthrough
		case rYieldNow:
			if !m.enabled && !m.progress {
				return
			}
			out(m, fs)
			return
		}
	}
}

func (m *mach) ev(e Expr) *V { return e.Ev(m) }

func (m *mach) stmt() (res, []fork) {
	c := m.top()
	if c.Blk == nil { // loop head
		if c.St.K == SFor {
			if len(c.Rest) == 0 {
				m.pop()
				return m.endStmt()
			}
			if c.Flow == FAtomic || c.Flow == FSerial {
				m.fr().Vars[c.St.Var] = c.Rest[0]
				c.Rest = c.Rest[1:]
				return m.enter(c.St.Blk)
			}
			var fs []fork
			for i := range c.Rest {
				n := m.fork("For:" + c.Rest[i].repr(m.c.roleName))
				t := n.top()
				x := t.Rest[i]
				n.fr().Vars[c.St.Var] = x
				t.Rest = append(append([]*V{}, t.Rest[:i]...), t.Rest[i+1:]...)
				n2, fs2 := n.enterFork(c.St.Blk)
				if fs2 != nil {
					panic("parallel for over a forking block")
				}
				fs = append(fs, fork{"", n2, false})
			}
			return rForks, fs
		}
		if m.ev(c.St.E).truth() {
			return m.enter(c.St.Blk)
		}
		m.pop()
		return m.endStmt()
	}
	s := c.Blk.Stmts[c.I]
	if s.K == SCheckpoint && m.ckpt {
		n := m.fork("checkpoint")
		return rForks, []fork{{"", n, false}}
	}
	m.ckpt = true
	if s.K == SCheckpoint {
		m.labels = append(m.labels, m.fr().Name+".checkpoint")
	} else if s.Label != "" {
		m.labels = append(m.labels, m.fr().Name+"."+s.Label)
	}
	m.fair = m.thr().Fair
	switch s.K {
	case SPass, SCheckpoint:
		m.enabled = true
		// no yield point after pass
		if c.Flow == FOneof || c.Flow == FParallel {
			return m.endStmt()
		}
		c.I++
		return rCont, nil
	case SPy:
		m.do(s.Py)
		m.enabled = true
		return m.endStmt()
	case SNew:
		id := 0
		for _, r := range m.c.Roles {
			if r.Def.Name == s.Role && !r.Dead && r.Id >= id {
				id = r.Id + 1
			}
		}
		def := m.r.S.role(s.Role)
		ri := &RoleI{Def: def, Id: id, Fields: &V{K: VRec}, Params: &V{K: VRec}, Init: &V{K: VRec}}
		for _, a := range s.Args {
			ri.Params.set(vStr(a.Name), m.ev(a.E))
		}
		m.c.Roles = append(m.c.Roles, ri)
		m.assign(s.Var, &V{K: VRole, R: len(m.c.Roles) - 1})
		m.enabled = true
		for _, a := range def.Actions {
			if a.Name == "Init" {
				m.pushFrame(&Frame{Name: "Init", Obj: len(m.c.Roles) - 1, Kind: 2, Start: a.Blk, Args: map[string]*V{}, Vars: map[string]*V{}})
				return rCont, nil
			}
		}
		return m.endStmt()
	case SBlock:
		return m.enter(s.Blk)
	case SIf:
		for i, cd := range s.Conds {
			if cd == nil || m.ev(cd).truth() {
				return m.enter(s.Blks[i])
			}
		}
		return m.endStmt()
	case SFor:
		vals := iterVals(m.ev(s.E))
		fl := s.Flow
		if fl == FUnknown {
			fl = c.Flow
		}
		m.push(Ctx{St: s, Flow: fl, Rest: vals})
		return rCont, nil
	case SWhile:
		fl := s.Flow
		if fl == FUnknown {
			fl = c.Flow
		}
		m.push(Ctx{St: s, Flow: fl})
		return rCont, nil
	case SBreak:
		for m.top().Blk != nil || m.top().St.K == SAny {
			m.pop()
		}
		m.pop()
		return m.endStmt()
	case SContinue:
		for {
			m.pop()
			if m.top().Blk == nil && m.top().St.K != SAny {
				break
			}
		}
		return m.contLoop()
	case SRequire:
		m.progress = false
		if !m.ev(s.E).truth() {
			return rAbort, nil
		}
		return m.endStmt()
	case SReturn:
		v := vNone
		if s.E != nil {
			v = m.ev(s.E)
		}
		f := m.fr()
		if len(m.thr().F) == 1 {
			if v.K != VNone {
				if m.rets == nil {
					m.rets = map[string]*V{}
				}
				if f.Kind != 1 { // else a message's handler: nobody gets the value
					m.rets[f.Act] = v
				}
				m.enabled = true
			}
		}
		return m.popFrame(v, true)
	case SAny:
		return m.any(s)
	case SCall:
		return m.call(s)
	}
	panic("stmt kind")
}

// contLoop: "continue" goes to the end of the loop's body.
func (m *mach) contLoop() (res, []fork) {
	r, fs := m.endStmt()
	if r == rYield {
		r = rYieldNow
	}
	return r, fs
}

func (m *mach) enterFork(b *Block) (*mach, []fork) {
	r, fs := m.enter(b)
	if r != rCont {
		return nil, fs
	}
	return m, nil
}

func (m *mach) pushFrame(f *Frame) {
	t := m.thr()
	if len(t.F) > 40 {
		panic(tooBig{})
	}
	t.F = append(t.F, f)
}

func (m *mach) any(s *Stmt) (res, []fork) {
	m.progress = false
	vals := iterVals(m.ev(s.E))
	c := m.top()
	if s.Blk != nil {
		fl := s.Flow
		if fl == FUnknown {
			fl = c.Flow
		}
		m.push(Ctx{St: s, Flow: fl})
	}
	if s.Blk == nil && !m.r.Q.ForkReset {
		m.enabled = true
	}
	var fs []fork
	en := m.enabled
	for i := range vals {
		m.enabled = en
		if s.Blk == nil && !m.r.Q.ForkReset {
			m.enabled = true
		}
		// the value itself must be the clone's
		m.fr().Vars["\x00any"] = vals[i]
		n := m.fork("Any:" + s.Var + "=" + vals[i].repr(m.c.roleName))
		x := n.fr().Vars["\x00any"]
		delete(n.fr().Vars, "\x00any")
		delete(m.fr().Vars, "\x00any")
		if s.Blk == nil {
			n.assign(s.Var, x)
		} else {
			n.fr().Vars[s.Var] = x
		}
		if s.Cond != nil && !(shadowEnv{n, s.Var, x}).eval(s.Cond).truth() {
			continue
		}
		if s.Blk != nil {
			r, f2 := n.enter(s.Blk)
			if r == rForks {
				for _, f := range f2 {
					fs = append(fs, f)
				}
				continue
			}
		} else if n.top().Flow == FOneof {
			n.top().End = true
		} else {
			n.top().I++
		}
		fs = append(fs, fork{"", n, s.Blk == nil})
	}
	m.enabled = en
	if len(fs) > 0 {
		return rForks, fs
	}
	if s.Blk == nil {
		return rAbort, nil
	}
	m.pop()
	return m.endStmt()
}

func (s shadowEnv) eval(e Expr) *V { return e.Ev(s) }

func (m *mach) call(s *Stmt) (res, []fork) {
	obj, ch := -1, -1
	var fn *Func
	name := s.Fn
	if s.Recv != "" {
		rv := m.Lookup(s.Recv)
		if rv == nil || rv.K != VRole {
			throw("receiver")
		}
		obj, ch = rv.R, int(rv.I)-1
		for _, f := range m.c.Roles[obj].Def.Funcs {
			if f.Name == s.Fn {
				fn = f
			}
		}
	} else {
		for _, f := range m.r.S.Funcs {
			if f.Name == s.Fn {
				fn = f
			}
		}
	}
	if fn == nil {
		throw("no function %s", s.Fn)
	}
	f := &Frame{Name: name, Obj: obj, Kind: 1, Start: fn.Blk, Args: map[string]*V{}, Vars: map[string]*V{}, Assign: s.Var, Act: s.Fn}
	for i, a := range s.Args {
		v := m.ev(a.E)
		if a.Name == "" {
			if i >= len(fn.Params) {
				throw("too many arguments")
			}
			f.Args[fn.Params[i].Name] = v
		} else {
			f.Args[a.Name] = v
		}
	}
	for _, p := range fn.Params {
		if _, ok := f.Args[p.Name]; !ok {
			if p.Default == nil {
				throw("missing argument")
			}
			f.Args[p.Name] = m.ev(p.Default)
		}
	}
	m.labels = append(m.labels, name+".call")
	var vals []string
	for k, v := range f.Args {
		vals = append(vals, k+"="+v.repr(m.c.roleName))
	}
	sort.Strings(vals)
	what := "call"
	if c := m.fr().C; len(c) > 0 {
		i := len(c) - 1
		for i > 0 && c[i].Flow == FOneof && c[len(c)-1].Flow != FAtomic {
			i--
		}
		if c[i].Flow != FAtomic {
			what = "lossy call"
		}
	}
	m.sent(m.fr().Obj, obj, name, what, strings.Join(vals, ","))
	if ch >= 0 {
		if m.c.Msgs == nil {
			m.c.Msgs = map[int][]*ChanMsg{}
		}
		m.c.Msgs[ch] = append(m.c.Msgs[ch], &ChanMsg{m.c.Roles[obj].Ref(), f})
		m.enabled = true
		return m.endStmt()
	}
	m.pushFrame(f)
	return rCont, nil
}

// ---- python statements ----

func (m *mach) do(o PyOp) {
	switch a := o.(type) {
	case NewChan:
		m.assign(fmt.Sprintf("ch%d", int(a)), &V{K: VRec, DK: []*V{vStr("id")}, DV: []*V{vInt(int64(a))}})
	case Stub:
		m.assign(a.Var, &V{K: VRole, R: m.Lookup(a.Role).R, I: int64(a.Chan) + 1})
	case Asg:
		m.assign(a.Var, m.ev(a.E))
	case AsgN:
		var vs []*V
		for _, e := range a.E {
			vs = append(vs, m.ev(e))
		}
		for i, n := range a.Vars {
			m.assign(n, vs[i])
		}
	case AugAsg:
		x := m.Lookup(a.Var)
		y := m.ev(a.E)
		if x == nil {
			throw("undefined")
		}
		if x.K == VList && a.Op == "+" {
			x.L = append(x.L, iterVals(y)...)
			return
		}
		m.assign(a.Var, Bin{a.Op, Lit{x}, Lit{y}}.Ev(m))
	case AsgAttr:
		x := m.ev(a.X)
		v := m.ev(a.E)
		switch x.K {
		case VRole:
			m.c.Roles[x.R].Fields.set(vStr(a.F), v)
		case VRec:
			x.set(vStr(a.F), v)
		default:
			throw("attr assign")
		}
	case AsgIdx:
		x, i := m.ev(a.X), m.ev(a.I)
		v := m.ev(a.E)
		switch x.K {
		case VList:
			k := num(i)
			if k < 0 {
				k += int64(len(x.L))
			}
			if k < 0 || k >= int64(len(x.L)) {
				throw("index")
			}
			x.L[k] = v
		case VDict, VGMap:
			x.set(i, v)
		default:
			throw("idx assign")
		}
	case PyCall:
		m.do(a.M)
	case Meth:
		x := m.ev(a.X)
		args := evs(a.A, m)
		meth(x, a.M, args)
	default:
		throw("no meaning: %s", o.Str())
	}
}

func meth(x *V, name string, a []*V) *V {
	switch name {
	case "append":
		x.L = append(x.L, a[0])
	case "extend":
		x.L = append(x.L, iterVals(a[0])...)
	case "insert":
		k := int(num(a[0]))
		if k < 0 {
			k += len(x.L)
			if k < 0 {
				k = 0
			}
		}
		if k > len(x.L) {
			k = len(x.L)
		}
		l := append([]*V{}, x.L[:k]...)
		l = append(l, a[1])
		x.L = append(l, x.L[k:]...)
	case "pop":
		if x.K == VDict || x.K == VGMap {
			i := vfind(x.DK, a[0])
			if i < 0 {
				if len(a) > 1 {
					return a[1]
				}
				throw("pop: missing key")
			}
			v := x.DV[i]
			x.DK = append(append([]*V{}, x.DK[:i]...), x.DK[i+1:]...)
			x.DV = append(append([]*V{}, x.DV[:i]...), x.DV[i+1:]...)
			return v
		}
		k := len(x.L) - 1
		if len(a) > 0 {
			k = int(num(a[0]))
			if k < 0 {
				k += len(x.L)
			}
		}
		if k < 0 || k >= len(x.L) {
			throw("pop: index out of range")
		}
		v := x.L[k]
		x.L = append(append([]*V{}, x.L[:k]...), x.L[k+1:]...)
		return v
	case "remove":
		i := vfind(x.L, a[0])
		if i < 0 {
			throw("remove: not found")
		}
		x.L = append(append([]*V{}, x.L[:i]...), x.L[i+1:]...)
	case "discard":
		i := vfind(x.L, a[0])
		if i >= 0 {
			x.L = append(append([]*V{}, x.L[:i]...), x.L[i+1:]...)
		}
	case "clear":
		x.L, x.DK, x.DV = nil, nil, nil
	case "add":
		if x.K == VBag {
			x.L = append(x.L, a[0])
		} else {
			x.add(a[0])
		}
	case "setdefault":
		if v := x.get(a[0]); v != nil {
			return v
		}
		x.set(a[0], a[1])
		return a[1]
	case "update":
		for i, k := range a[0].DK {
			x.set(k, a[0].DV[i])
		}
	default:
		throw("method %s", name)
	}
	return vNone
}

func (s *Spec) role(n string) *RoleDef {
	for _, r := range s.Roles {
		if r.Name == n {
			return r
		}
	}
	return nil
}

// ---- exploration ----

// Succ lists the steps from a configuration at a yield point.
func (r *Ref) Succ(c *Conf) []Outcome {
	var outs []Outcome
	bases := []*Conf{c}
	if len(c.Forks) > 0 {
		bases = c.Forks
	}
	for _, b := range bases {
		b = b.gc()
		for i, t := range b.T {
			if t == nil {
				continue
			}
			outs = append(outs, r.resume(b, i)...)
		}
		outs = append(outs, r.deliveries(b)...)
		outs = append(outs, r.actions(b)...)
	}
	return outs
}

// deliveries: any pending message may be acted on next, by a thread of its own
func (r *Ref) deliveries(b *Conf) []Outcome {
	var ks []int
	for k := range b.Msgs {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var outs []Outcome
	for _, k := range ks {
		for j := range b.Msgs[k] {
			m := &mach{r: r, c: b.clone(), path: []string{fmt.Sprintf("channel-%d", k)}, topVars: map[string]bool{}}
			l := m.c.Msgs[k]
			f := l[j].F
			m.c.Msgs[k] = append(append([]*ChanMsg{}, l[:j]...), l[j+1:]...)
			m.c.Cur = m.c.spawn(&Thr{F: []*Frame{f}})
			outs = append(outs, r.collect(m)...)
		}
	}
	return outs
}

// spawn puts the thread into the first free slot.
func (c *Conf) spawn(t *Thr) int {
	for i, x := range c.T {
		if x == nil {
			c.T[i] = t
			return i
		}
	}
	c.T = append(c.T, t)
	return len(c.T) - 1
}

func (r *Ref) resume(b *Conf, i int) []Outcome {
	m := &mach{r: r, c: b.clone(), progress: true, path: []string{"thread"}, topVars: map[string]bool{}}
	m.c.Cur = i
	m.fair = m.thr().Fair
	return r.collect(m)
}

func (r *Ref) collect(m *mach) []Outcome {
	var outs []Outcome
	m.run(func(x *mach, fs []fork) {
		l := append(append([]string{}, x.path[:len(x.path)-1]...), x.seal())
		if len(x.rets) > 0 {
			var b strings.Builder
			canonMap(&b, x.rets, x.c.roleName)
			l[len(l)-1] += "=>" + b.String()
		}
		o := Outcome{L: strings.Join(l, "|"), C: x.c, Fair: x.fair, Path: l, Rets: x.rets}
		for _, f := range fs {
			o.C.Forks = append(o.C.Forks, f.m.c)
		}
		outs = append(outs, o)
	})
	return outs
}

func (r *Ref) limitOK(b *Conf, role *RoleI, a *Action) bool {
	cc := map[string]int{}
	for _, t := range b.T {
		if t == nil {
			continue
		}
		f := t.F[0]
		cc[f.Name]++
		if f.Obj >= 0 && f.Kind == 0 {
			ri := b.Roles[f.Obj]
			cc[ri.Ref()+"."+f.Name[len(ri.Def.Name)+1:]]++
			cc[ri.Def.Name+"#."+f.Name[len(ri.Def.Name)+1:]]++
		}
	}
	chk := func(key, ck string) bool {
		o, ok := r.Act[key]
		if !ok {
			return true
		}
		n := 0
		for k, v := range b.Count {
			// "Role.Act" counts the instances together
			if k == ck || strings.Contains(k, "#") && !strings.Contains(ck, "#") && k[:strings.Index(k, "#")]+k[strings.Index(k, "."):] == ck {
				n += v
			}
		}
		return (o.MaxConc == 0 || cc[ck] < o.MaxConc) && (o.MaxActions == 0 || n < o.MaxActions)
	}
	if role == nil {
		return chk(a.Name, a.Name)
	}
	k := role.Ref() + "." + a.Name
	return chk(k, k) && chk(role.Def.Name+"#."+a.Name, k) && chk(role.Def.Name+"."+a.Name, role.Def.Name+"."+a.Name)
}

func (r *Ref) actions(b *Conf) []Outcome {
	if b.nthreads() >= r.MaxConc || r.Total > 0 && b.Total >= r.Total {
		return nil
	}
	var outs []Outcome
	start := func(a *Action, name, fname string, obj int) {
		m := &mach{r: r, c: b.clone(), path: []string{name}, topVars: map[string]bool{}}
		m.c.Total++
		if m.c.Count == nil {
			m.c.Count = map[string]int{}
		}
		m.c.Count[name]++
		t := &Thr{Fair: a.Fair, F: []*Frame{{Name: fname, Obj: obj, Args: map[string]*V{}, Vars: map[string]*V{}, Start: a.Blk, Act: name}}}
		m.c.Cur = m.c.spawn(t)
		m.fair = a.Fair
		outs = append(outs, r.collect(m)...)
	}
	for _, a := range r.S.Actions {
		if r.limitOK(b, nil, a) {
			start(a, a.Name, a.Name, -1)
		}
	}
	for i, ri := range b.Roles {
		if ri.Dead {
			continue
		}
		for _, a := range ri.Def.Actions {
			if a.Name != "Init" && r.limitOK(b, ri, a) {
				start(a, ri.Ref()+"."+a.Name, ri.Def.Name+"."+a.Name, i)
			}
		}
	}
	return outs
}

// Inits runs Init.
func (r *Ref) Inits() []Outcome {
	m := &mach{r: r, c: &Conf{G: map[string]*V{}}, path: []string{""}, topVars: map[string]bool{}}
	m.c.T = []*Thr{{F: []*Frame{{Name: "Init", Obj: -1, Kind: 3, Args: map[string]*V{}, Vars: map[string]*V{}, Start: r.S.Init}}}}
	outs := r.collect(m)
	for i := range outs {
		outs[i].L = strings.TrimPrefix(outs[i].L, "|")
	}
	return outs
}

type RefGraph struct {
	Graph
	C      []*Conf // by node; nil for the root pseudo node
	Root   bool    // node 0 is a pseudo root
	ErrAt  string
	Labels map[string]int
}

// Explore builds the graph of yield states; it panics with tooBig beyond the limit and with evalErr on a model error.
func (r *Ref) Explore() *RefGraph {
	g := &RefGraph{}
	id := map[string]int{}
	add := func(c *Conf) int {
		k := c.Key()
		if r.Product {
			k += fmt.Sprint(c.Total, c.Count)
		}
		if i, ok := id[k]; ok {
			return i
		}
		i := len(g.N)
		if i > r.Limit {
			panic(tooBig{})
		}
		id[k] = i
		g.N = append(g.N, GNode{Obs: c.Obs()})
		g.C = append(g.C, c)
		return i
	}
	ins := r.Inits()
	if len(ins) == 1 && ins[0].L == "" {
		add(ins[0].C)
	} else {
		g.Root = true
		g.N = append(g.N, GNode{Obs: "root"})
		g.C = append(g.C, nil)
		for _, o := range ins {
			k := add(o.C)
			g.N[0].Out = append(g.N[0].Out, GEdge{L: o.L, To: k})
		}
	}
	for i := 0; i < len(g.N); i++ {
		if g.C[i] == nil {
			continue
		}
		for _, o := range r.Succ(g.C[i]) {
			k := add(o.C)
			g.N[i].Out = append(g.N[i].Out, GEdge{L: o.L, To: k, Fair: int(o.Fair), Rets: o.Rets})
		}
	}
	return g
}

// reference returns the graph, or an error text when the model itself is erroneous; ok=false: too big.
func (r *Ref) reference() (g *RefGraph, merr string, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			switch e := x.(type) {
			case tooBig:
				ok = false
			case evalErr:
				merr, ok = e.msg, true
			default:
				panic(x)
			}
		}
	}()
	if r.Limit == 0 {
		r.Limit = 2000
	}
	return r.Explore(), "", true
}
