package main

import (
	"fmt"
	"strconv"
	"strings"
)

// ---- expressions: rendered to Starlark text and evaluated by the reference ----

type evalErr struct{ msg string }

func throw(f string, a ...any) { panic(evalErr{fmt.Sprintf(f, a...)}) }

// Env is what an expression may refer to.
type Env interface {
	Lookup(name string) *V // nil if undefined
	Field(role int, f string) *V
}

type Expr interface {
	Str() string
	Ev(e Env) *V
}

type Lit struct{ V *V }
type Var string
type Attr struct {
	X Expr
	F string
}
type Bin struct {
	Op   string
	A, B Expr
}
type Not struct{ A Expr }
type Neg struct{ A Expr }
type IfE struct{ C, A, B Expr }
type ListE []Expr
type TupE []Expr
type SetE []Expr // set([...])
type DictE struct{ K, V []Expr }
type RecE struct {
	N []string
	V []Expr
}
type Idx struct{ X, I Expr }
type Call struct { // builtin: len, range, min, max, sum, sorted, list, set, abs, bool, int, any, all, genericset, bag
	F string
	A []Expr
}
type MCall struct { // pure method: get, keys, values, union, count
	X Expr
	M string
	A []Expr
}
type Comp struct { // [e for v in x if c]
	E    Expr
	V    string
	X, C Expr
}
type Raw struct { // text with a Go meaning
	S string
	F func(e Env) *V
}

func (l Lit) Str() string { return l.V.repr(func(i int) string { return "?" }) }
func (l Lit) Ev(e Env) *V { return l.V }

func (v Var) Str() string { return string(v) }
func (v Var) Ev(e Env) *V {
	x := e.Lookup(string(v))
	if x == nil {
		throw("undefined: %s", string(v))
	}
	return x
}

func (a Attr) Str() string { return a.X.Str() + "." + a.F }
func (a Attr) Ev(e Env) *V {
	x := a.X.Ev(e)
	switch x.K {
	case VRole:
		f := e.Field(x.R, a.F)
		if f == nil {
			throw("no field %s", a.F)
		}
		return f
	case VRec:
		f := x.get(vStr(a.F))
		if f == nil {
			throw("no attr %s", a.F)
		}
		return f
	}
	throw("no attr %s", a.F)
	return nil
}

func (b Bin) Str() string { return "(" + b.A.Str() + " " + b.Op + " " + b.B.Str() + ")" }
func num(v *V) int64 {
	if v.K != VInt {
		throw("not an int: %s", v)
	}
	return v.I
}
func (b Bin) Ev(e Env) *V {
	x := b.A.Ev(e)
	switch b.Op {
	case "and":
		if !x.truth() {
			return x
		}
		return b.B.Ev(e)
	case "or":
		if x.truth() {
			return x
		}
		return b.B.Ev(e)
	}
	y := b.B.Ev(e)
	switch b.Op {
	case "+":
		if x.K == VList && y.K == VList {
			return &V{K: VList, L: append(append([]*V{}, x.L...), y.L...)}
		}
		if x.K == VStr && y.K == VStr {
			return vStr(x.S + y.S)
		}
		return vInt(num(x) + num(y))
	case "-":
		if x.K == VSet && y.K == VSet {
			r := &V{K: VSet}
			for _, q := range x.L {
				if vfind(y.L, q) < 0 {
					r.add(q)
				}
			}
			return r
		}
		return vInt(num(x) - num(y))
	case "*":
		return vInt(num(x) * num(y))
	case "%":
		a, c := num(x), num(y)
		if c == 0 {
			throw("modulo by zero")
		}
		r := a % c
		if r != 0 && (r < 0) != (c < 0) {
			r += c
		}
		return vInt(r)
	case "//":
		a, c := num(x), num(y)
		if c == 0 {
			throw("division by zero")
		}
		q := a / c
		if a%c != 0 && (a < 0) != (c < 0) {
			q--
		}
		return vInt(q)
	case "==":
		return vBool(veq(x, y))
	case "!=":
		return vBool(!veq(x, y))
	case "<", "<=", ">", ">=":
		var c int
		if x.K == VStr && y.K == VStr {
			c = strings.Compare(x.S, y.S)
		} else {
			a, d := num(x), num(y)
			switch {
			case a < d:
				c = -1
			case a > d:
				c = 1
			}
		}
		switch b.Op {
		case "<":
			return vBool(c < 0)
		case "<=":
			return vBool(c <= 0)
		case ">":
			return vBool(c > 0)
		}
		return vBool(c >= 0)
	case "in", "not in":
		var r bool
		switch y.K {
		case VList, VTuple, VSet, VBag, VGSet:
			r = vfind(y.L, x) >= 0
		case VDict, VGMap:
			r = vfind(y.DK, x) >= 0
		case VStr:
			r = strings.Contains(y.S, x.S)
		default:
			throw("in: bad operand")
		}
		return vBool(r == (b.Op == "in"))
	case "|", "&":
		if x.K != VSet || y.K != VSet {
			throw("set op")
		}
		r := &V{K: VSet}
		for _, q := range x.L {
			if b.Op == "|" || vfind(y.L, q) >= 0 {
				r.add(q)
			}
		}
		if b.Op == "|" {
			for _, q := range y.L {
				r.add(q)
			}
		}
		return r
	}
	panic("op " + b.Op)
}

func (n Not) Str() string { return "(not " + n.A.Str() + ")" }
func (n Not) Ev(e Env) *V { return vBool(!n.A.Ev(e).truth()) }
func (n Neg) Str() string { return "(-" + n.A.Str() + ")" }
func (n Neg) Ev(e Env) *V { return vInt(-num(n.A.Ev(e))) }

func (i IfE) Str() string { return "(" + i.A.Str() + " if " + i.C.Str() + " else " + i.B.Str() + ")" }
func (i IfE) Ev(e Env) *V {
	if i.C.Ev(e).truth() {
		return i.A.Ev(e)
	}
	return i.B.Ev(e)
}

func strs(l []Expr) string {
	p := make([]string, len(l))
	for i, x := range l {
		p[i] = x.Str()
	}
	return strings.Join(p, ", ")
}
func evs(l []Expr, e Env) []*V {
	p := make([]*V, len(l))
	for i, x := range l {
		p[i] = x.Ev(e)
	}
	return p
}

func (l ListE) Str() string { return "[" + strs(l) + "]" }
func (l ListE) Ev(e Env) *V { return &V{K: VList, L: evs(l, e)} }
func (l TupE) Str() string {
	if len(l) == 1 {
		return "(" + l[0].Str() + ",)"
	}
	return "(" + strs(l) + ")"
}
func (l TupE) Ev(e Env) *V { return &V{K: VTuple, L: evs(l, e)} }
func (l SetE) Str() string { return "set([" + strs(l) + "])" }
func (l SetE) Ev(e Env) *V {
	r := &V{K: VSet}
	for _, x := range evs(l, e) {
		r.add(x)
	}
	return r
}
func (d DictE) Str() string {
	p := make([]string, len(d.K))
	for i := range d.K {
		p[i] = d.K[i].Str() + ": " + d.V[i].Str()
	}
	return "{" + strings.Join(p, ", ") + "}"
}
func (d DictE) Ev(e Env) *V {
	r := &V{K: VDict}
	for i := range d.K {
		k := d.K[i].Ev(e)
		r.set(k, d.V[i].Ev(e))
	}
	return r
}
func (d RecE) Str() string {
	p := make([]string, len(d.N))
	for i := range d.N {
		p[i] = d.N[i] + "=" + d.V[i].Str()
	}
	return "record(" + strings.Join(p, ", ") + ")"
}
func (d RecE) Ev(e Env) *V {
	r := &V{K: VRec}
	for i := range d.N {
		r.set(vStr(d.N[i]), d.V[i].Ev(e))
	}
	return r
}

func (x Idx) Str() string { return x.X.Str() + "[" + x.I.Str() + "]" }
func (x Idx) Ev(e Env) *V {
	c, i := x.X.Ev(e), x.I.Ev(e)
	switch c.K {
	case VList, VTuple:
		k := num(i)
		if k < 0 {
			k += int64(len(c.L))
		}
		if k < 0 || k >= int64(len(c.L)) {
			throw("index out of range")
		}
		return c.L[k]
	case VDict, VGMap:
		r := c.get(i)
		if r == nil {
			throw("key not found")
		}
		return r
	}
	throw("not indexable")
	return nil
}

func iterVals(v *V) []*V {
	switch v.K {
	case VList, VTuple, VSet, VBag, VGSet:
		return append([]*V{}, v.L...)
	case VDict, VGMap:
		return append([]*V{}, v.DK...)
	}
	throw("not iterable: %s", v)
	return nil
}

func (c Call) Str() string { return c.F + "(" + strs(c.A) + ")" }
func (c Call) Ev(e Env) *V {
	a := evs(c.A, e)
	switch c.F {
	case "len":
		return vInt(int64(len(iterVals(a[0]))))
	case "range":
		lo, hi := int64(0), int64(0)
		if len(a) == 1 {
			hi = num(a[0])
		} else {
			lo, hi = num(a[0]), num(a[1])
		}
		r := vList()
		for ; lo < hi; lo++ {
			r.L = append(r.L, vInt(lo))
		}
		return r
	case "sum":
		var t int64
		for _, x := range iterVals(a[0]) {
			t += num(x)
		}
		return vInt(t)
	case "min", "max":
		l := a
		if len(a) == 1 {
			l = iterVals(a[0])
		}
		if len(l) == 0 {
			throw("min/max of empty")
		}
		m := num(l[0])
		for _, x := range l[1:] {
			if v := num(x); (c.F == "min" && v < m) || (c.F == "max" && v > m) {
				m = v
			}
		}
		return vInt(m)
	case "list":
		return &V{K: VList, L: iterVals(a[0])}
	case "tuple":
		return &V{K: VTuple, L: iterVals(a[0])}
	case "sorted":
		l := iterVals(a[0])
		for i := 1; i < len(l); i++ {
			for j := i; j > 0 && vless(l[j], l[j-1]); j-- {
				l[j], l[j-1] = l[j-1], l[j]
			}
		}
		return &V{K: VList, L: l}
	case "set", "bag", "genericset":
		r := &V{K: map[string]VK{"set": VSet, "bag": VBag, "genericset": VGSet}[c.F]}
		if len(a) > 0 {
			for _, x := range iterVals(a[0]) {
				if r.K == VBag {
					r.L = append(r.L, x)
				} else {
					r.add(x)
				}
			}
		}
		return r
	case "dict":
		return &V{K: VDict}
	case "genericmap":
		return &V{K: VGMap}
	case "str":
		if a[0].K == VStr {
			return a[0]
		}
		return vStr(a[0].repr(func(i int) string { return "?" }))
	case "bool":
		return vBool(a[0].truth())
	case "all", "any":
		for _, x := range iterVals(a[0]) {
			if x.truth() != (c.F == "all") {
				return vBool(c.F == "any")
			}
		}
		return vBool(c.F == "all")
	}
	panic("call " + c.F)
}

func vless(a, b *V) bool {
	if a.K == VStr {
		return a.S < b.S
	}
	return num(a) < num(b)
}

func (m MCall) Str() string { return m.X.Str() + "." + m.M + "(" + strs(m.A) + ")" }
func (m MCall) Ev(e Env) *V {
	x := m.X.Ev(e)
	a := evs(m.A, e)
	switch m.M {
	case "get":
		if r := x.get(a[0]); r != nil {
			return r
		}
		if len(a) > 1 {
			return a[1]
		}
		return vNone
	case "keys":
		return &V{K: VList, L: append([]*V{}, x.DK...)}
	case "values":
		return &V{K: VList, L: append([]*V{}, x.DV...)}
	}
	panic("method " + m.M)
}

type shadowEnv struct {
	Env
	n string
	v *V
}

func (s shadowEnv) Lookup(n string) *V {
	if n == s.n {
		return s.v
	}
	return s.Env.Lookup(n)
}

func (c Comp) Str() string {
	s := "[" + c.E.Str() + " for " + c.V + " in " + c.X.Str()
	if c.C != nil {
		s += " if " + c.C.Str()
	}
	return s + "]"
}
func (c Comp) Ev(e Env) *V {
	r := vList()
	for _, x := range iterVals(c.X.Ev(e)) {
		s := shadowEnv{e, c.V, x}
		if c.C != nil && !c.C.Ev(s).truth() {
			continue
		}
		r.L = append(r.L, c.E.Ev(s))
	}
	return r
}

func (r Raw) Str() string { return r.S }
func (r Raw) Ev(e Env) *V { return r.F(e) }

func I(i int) Expr      { return Lit{vInt(int64(i))} }
func B(b bool) Expr     { return Lit{vBool(b)} }
func S(s string) Expr   { return Lit{vStr(s)} }
func itoa(i int) string { return strconv.Itoa(i) }

// ---- python statements ----

type PyOp interface {
	Str() string
}

type Asg struct { // x = e
	Var string
	E   Expr
}
type AsgN struct { // x, y = e1, e2
	Vars []string
	E    []Expr
}
type AugAsg struct { // x += e (ints), or list += list
	Var, Op string
	E       Expr
}
type AsgAttr struct { // X.f = e
	X Expr
	F string
	E Expr
}
type AsgIdx struct { // X[i] = e
	X, I, E Expr
}
type Meth struct { // X.m(args), a mutating method
	X Expr
	M string
	A []Expr
}
type RawPy string // no reference meaning

// Stub: Var = Chan.stub(Role)
type Stub struct {
	Var, Role string
	Chan      int
}

func (a Stub) Str() string { return fmt.Sprintf("%s = ch%d.stub(%s)", a.Var, a.Chan, a.Role) }

// NewChan: ch0 = Channel(...)
type NewChan int

func (a NewChan) Str() string {
	return fmt.Sprintf(`ch%d = Channel(ordering="unordered", delivery="exactly_once", blocking="fire_and_forget")`, int(a))
}

func (a Asg) Str() string     { return a.Var + " = " + a.E.Str() }
func (a AsgN) Str() string    { return strings.Join(a.Vars, ", ") + " = " + strs(a.E) }
func (a AugAsg) Str() string  { return a.Var + " " + a.Op + "= " + a.E.Str() }
func (a AsgAttr) Str() string { return a.X.Str() + "." + a.F + " = " + a.E.Str() }
func (a AsgIdx) Str() string  { return a.X.Str() + "[" + a.I.Str() + "] = " + a.E.Str() }
func (a Meth) Str() string    { return a.X.Str() + "." + a.M + "(" + strs(a.A) + ")" }
func (r RawPy) Str() string   { return string(r) }
