package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/fizzbee-io/fizzbee/lib"
	"go.starlark.net/starlark"
	"go.starlark.net/starlarkstruct"
	"go.starlark.net/syntax"
)

// C21: the collection types against mathematical models, over operation sequences.

type bi struct {
	s    *Src
	c    *Case
	env  starlark.StringDict
	mod  map[string]*V
	name []string
	log  []string
	hard int // operations whose outcome depends on equality of separately built elements
}

var biOpts = &syntax.FileOptions{Set: true, GlobalReassign: true, TopLevelControl: true}

func fromStar(v starlark.Value) (*V, error) {
	list := func(k VK, it starlark.Iterable) (*V, error) {
		r := &V{K: k}
		i := it.Iterate()
		defer i.Done()
		var x starlark.Value
		for i.Next(&x) {
			e, err := fromStar(x)
			if err != nil {
				return nil, err
			}
			r.L = append(r.L, e)
		}
		return r, nil
	}
	switch t := v.(type) {
	case starlark.NoneType:
		return vNone, nil
	case starlark.Bool:
		return vBool(bool(t)), nil
	case starlark.Int:
		i, ok := t.Int64()
		if !ok {
			return nil, fmt.Errorf("int out of range")
		}
		return vInt(i), nil
	case starlark.String:
		return vStr(string(t)), nil
	case *starlark.List:
		return list(VList, t)
	case starlark.Tuple:
		return list(VTuple, t)
	case *starlark.Set:
		return list(VSet, t)
	case *lib.GenericSet:
		return list(VGSet, t)
	case *lib.Bag:
		return list(VBag, t)
	case starlark.IterableMapping:
		k := VDict
		if _, ok := v.(*lib.GenericMap); ok {
			k = VGMap
		}
		r := &V{K: k}
		for _, it := range t.Items() {
			a, err := fromStar(it[0])
			if err != nil {
				return nil, err
			}
			b, err := fromStar(it[1])
			if err != nil {
				return nil, err
			}
			r.DK, r.DV = append(r.DK, a), append(r.DV, b)
		}
		return r, nil
	case *lib.Struct, *starlarkstruct.Struct:
		r := &V{K: VRec}
		if st, ok := v.(*starlarkstruct.Struct); ok {
			r.S = strings.Trim(st.Constructor().String(), `"`)
		}
		h := v.(starlark.HasAttrs)
		for _, n := range h.AttrNames() {
			a, err := h.Attr(n)
			if err != nil {
				return nil, err
			}
			b, err := fromStar(a)
			if err != nil {
				return nil, err
			}
			r.DK, r.DV = append(r.DK, vStr(n)), append(r.DV, b)
		}
		return r, nil
	}
	return nil, fmt.Errorf("unexpected type %s", v.Type())
}

// eqModel: like veq, but the iteration order and duplicates of what came from the implementation are not trusted.
func eqModel(impl, m *V) bool {
	if (impl.K == VGSet || impl.K == VSet) && dupl(impl.L) || (impl.K == VGMap || impl.K == VDict) && dupl(impl.DK) {
		return false
	}
	return veq(impl, m)
}

func dupl(l []*V) bool {
	for i, x := range l {
		if vfind(l[:i], x) >= 0 {
			return true
		}
	}
	return false
}

func hashable(v *V) bool {
	switch v.K {
	case VNone, VInt, VBool, VStr:
		return true
	case VTuple:
		for _, x := range v.L {
			if !hashable(x) {
				return false
			}
		}
		return true
	case VRec:
		if v.S != "struct" {
			return false
		}
		for _, x := range v.DV {
			if !hashable(x) {
				return false
			}
		}
		return true
	}
	return false
}

// lit generates a value and a text that builds it (equal values are built in different ways).
func (b *bi) lit(d int) (string, *V) {
	s := b.s
	k := s.W(5, 3, 1, 1, 3, 2, 2, 2, 2, 1, 1, 1)
	if d <= 0 {
		k = s.W(5, 3, 1, 1)
	}
	many := func(n int) ([]string, []*V) {
		var t []string
		var v []*V
		for i := 0; i < n; i++ {
			x, y := b.lit(d - 1)
			t, v = append(t, x), append(v, y)
		}
		return t, v
	}
	switch k {
	case 0:
		i := s.N(4)
		return fmt.Sprint(i), vInt(int64(i))
	case 1:
		x := pick(s, []string{"a", "b", "1", "[1]"})
		return fmt.Sprintf("%q", x), vStr(x)
	case 2:
		if s.P(1, 2) {
			return "True", vTrue
		}
		return "False", vFalse
	case 3:
		return "None", vNone
	case 4:
		t, v := many(s.N(3))
		return "[" + strings.Join(t, ", ") + "]", &V{K: VList, L: v}
	case 5:
		t, v := many(s.N(3))
		x := strings.Join(t, ", ")
		if len(t) == 1 {
			x += ","
		}
		return "(" + x + ")", &V{K: VTuple, L: v}
	case 6, 7: // dict, genericmap
		n := s.N(3)
		m := &V{K: VDict}
		var t []string
		for i := 0; i < n; i++ {
			kt, kv := b.lit(0)
			if vfind(m.DK, kv) >= 0 {
				continue
			}
			vt, vv := b.lit(d - 1)
			m.set(kv, vv)
			t = append(t, kt+": "+vt)
		}
		x := "{" + strings.Join(t, ", ") + "}"
		if k == 7 {
			m.K = VGMap
			x = "genericmap(" + x + ")"
		}
		return x, m
	case 8, 9, 10: // set, genericset, bag
		n := s.N(4)
		r := &V{K: []VK{VSet, VGSet, VBag}[k-8]}
		var t []string
		for i := 0; i < n; i++ {
			e := d - 1
			if k == 8 {
				e = 0
			}
			x, y := b.lit(e)
			t = append(t, x)
			if k == 10 {
				r.L = append(r.L, y)
			} else {
				r.add(y)
			}
		}
		return []string{"set", "genericset", "bag"}[k-8] + "([" + strings.Join(t, ", ") + "])", r
	}
	// record, struct
	r := &V{K: VRec}
	f := "record"
	if s.P(1, 3) {
		f, r.S = "struct", "struct"
	}
	var t []string
	names := []string{"x", "y"}
	if s.P(1, 2) {
		names = []string{"y", "x"}
	}
	for _, n := range names[:s.N(3)] {
		x, y := b.lit(d - 1)
		t = append(t, n+" = "+x)
		r.set(vStr(n), y)
	}
	return f + "(" + strings.Join(t, ", ") + ")", r
}

// elem: a value, biased to values already present in the collection.
func (b *bi) elem(in []*V) (string, *V) {
	if len(in) > 0 && b.s.P(1, 2) {
		v := in[b.s.N(len(in))]
		b.hard++
		return b.text(v), v
	}
	return b.lit(2)
}

// text builds an equal value, possibly in another way.
func (b *bi) text(v *V) string {
	l := func(o, c string, e []*V) string {
		var t []string
		for _, x := range e {
			t = append(t, b.text(x))
		}
		return o + strings.Join(t, ", ") + c
	}
	perm := func(e []*V) []*V {
		e = append([]*V(nil), e...)
		if b.s.P(1, 2) {
			for i, j := 0, len(e)-1; i < j; i, j = i+1, j-1 {
				e[i], e[j] = e[j], e[i]
			}
		}
		return e
	}
	pairs := func(sep string, key func(*V) string) string {
		var t []string
		idx := make([]int, len(v.DK))
		for i := range idx {
			idx[i] = i
		}
		if b.s.P(1, 2) {
			sort.Sort(sort.Reverse(sort.IntSlice(idx)))
		}
		for _, i := range idx {
			t = append(t, key(v.DK[i])+sep+b.text(v.DV[i]))
		}
		return strings.Join(t, ", ")
	}
	switch v.K {
	case VNone:
		return "None"
	case VBool:
		if v.I != 0 {
			return "True"
		}
		return "False"
	case VInt:
		return fmt.Sprint(v.I)
	case VStr:
		return fmt.Sprintf("%q", v.S)
	case VList:
		return l("[", "]", v.L)
	case VTuple:
		if len(v.L) == 1 {
			return l("(", ",)", v.L)
		}
		return l("(", ")", v.L)
	case VSet:
		return l("set([", "])", perm(v.L))
	case VGSet:
		return l("genericset([", "])", perm(v.L))
	case VBag:
		return l("bag([", "])", perm(v.L))
	case VDict:
		return "{" + pairs(": ", b.text) + "}"
	case VGMap:
		r := "genericmap()"
		if allHashable(v.DK) {
			r = "genericmap({" + pairs(": ", b.text) + "})"
		} else {
			r = "mkmap([" + pairs(", ", func(k *V) string { return b.text(k) }) + "])"
		}
		return r
	case VRec:
		f := "record"
		if v.S != "" {
			f = v.S
		}
		return f + "(" + pairs(" = ", func(k *V) string { return k.S }) + ")"
	}
	return "None"
}

func allHashable(l []*V) bool {
	for _, x := range l {
		if !hashable(x) {
			return false
		}
	}
	return true
}

// iter: an iterable value; the second result has its elements in L.
func (b *bi) iter(in []*V) (string, []*V) {
	s := b.s
	if s.P(1, 3) {
		n := pick(s, []string{"g0", "g1", "b0", "b1", "m0", "m1"})
		if m := b.mod[n]; m.K == VGMap {
			return n, append([]*V(nil), m.DK...)
		} else {
			return n, append([]*V(nil), m.L...)
		}
	}
	var t []string
	var v []*V
	for i, n := 0, s.N(5); i < n; i++ {
		x, y := b.elem(append(append([]*V(nil), in...), v...))
		t, v = append(t, x), append(v, y)
	}
	if s.P(1, 3) {
		x := strings.Join(t, ", ")
		if len(t) == 1 {
			x += ","
		}
		return "(" + x + ")", v
	}
	return "[" + strings.Join(t, ", ") + "]", v
}

const biHelpers = `
def setkey(m, k, v):
    m[k] = v
def setx(r, v):
    r.x = v
def sety(r, v):
    r.y = v
def mkmap(l):
    m = genericmap()
    for i in range(len(l) // 2):
        m[l[2*i]] = l[2*i+1]
    return m
`

type biErr struct{}

const (
	anyVal = "any"
)

// run executes an expression; want is the model's result (nil: an error); ok == nil compares equal.
func (b *bi) run(expr, assign string, want *V, ok func(*V) bool) {
	th := &starlark.Thread{Name: "c21"}
	var v starlark.Value
	var err error
	func() {
		defer func() {
			if r := recover(); r != nil {
				b.fail("panic: %v", r)
			}
		}()
		v, err = starlark.EvalOptions(biOpts, th, "op", expr, b.env)
	}()
	t := expr
	if assign != "" {
		t = assign + " = " + expr
	}
	b.log = append(b.log, t)
	if want == nil && ok == nil {
		if err == nil {
			b.fail("returned %s where an error is expected", v.String())
		}
		b.c.Label("error expected")
	} else if err != nil {
		b.fail("failed: %v", err)
	} else {
		iv, cerr := fromStar(v)
		if cerr != nil {
			b.fail("returned %s: %v", v.String(), cerr)
		}
		if ok != nil {
			if !ok(iv) {
				b.fail("returned %s", v.String())
			}
		} else if !eqModel(iv, want) {
			b.fail("returned %s, the model says %s", v.String(), want)
		}
		if assign != "" {
			b.env[assign] = v
			b.mod[assign] = want
		}
	}
	for _, n := range b.name {
		iv, cerr := fromStar(b.env[n])
		if cerr != nil {
			b.fail("%s: %v", n, cerr)
		}
		if !eqModel(iv, b.mod[n]) {
			b.fail("afterwards %s is %s, the model says %s", n, b.env[n].String(), b.mod[n])
		}
		if l := lenOf(b.mod[n]); l >= 0 {
			if starlark.Len(b.env[n]) != l || bool(b.env[n].Truth()) != (l > 0) {
				b.fail("afterwards len(%s) is %d and its truth value %v, the model has %d elements", n, starlark.Len(b.env[n]), b.env[n].Truth(), l)
			}
		}
	}
}

func lenOf(v *V) int {
	switch v.K {
	case VGSet, VBag, VList, VSet, VTuple:
		return len(v.L)
	case VGMap, VDict:
		return len(v.DK)
	}
	return -1
}

func (b *bi) fail(f string, a ...any) {
	b.c.Fail("%s\n%s", fmt.Sprintf(f, a...), strings.Join(b.log, "\n"))
}

func remove(l []*V, x *V) ([]*V, bool) {
	if i := vfind(l, x); i >= 0 {
		r := append([]*V(nil), l[:i]...)
		return append(r, l[i+1:]...), true
	}
	return l, false
}

func uniq(l []*V) []*V {
	r := &V{}
	for _, x := range l {
		r.add(x)
	}
	return r.L
}

func filter(l []*V, f func(*V) bool) []*V {
	var r []*V
	for _, x := range l {
		if f(x) {
			r = append(r, x)
		}
	}
	return r
}

func gset(l []*V) *V { return &V{K: VGSet, L: l} }

func subset(a, b []*V) bool {
	for _, x := range a {
		if vfind(b, x) < 0 {
			return false
		}
	}
	return true
}

func (b *bi) setOp() {
	s := b.s
	n := pick(s, []string{"g0", "g1"})
	o := pick(s, []string{"g0", "g1"})
	m := b.mod[n]
	k := s.N(16)
	b.c.Label(fmt.Sprintf("genericset op %d", k))
	switch k {
	case 0, 1:
		t, v := b.elem(m.L)
		m.add(v)
		b.run(n+".add("+t+")", "", vNone, nil)
	case 2, 3:
		t, v := b.elem(m.L)
		f := pick(s, []string{"remove", "discard"})
		var found bool
		m.L, found = remove(m.L, v)
		if !found && f == "remove" {
			b.run(n+".remove("+t+")", "", nil, nil)
		} else {
			b.run(n+"."+f+"("+t+")", "", vNone, nil)
		}
	case 4:
		if len(m.L) == 0 {
			b.run(n+".pop()", "", nil, nil)
			return
		}
		b.run(n+".pop()", "", nil, func(r *V) bool {
			var ok bool
			m.L, ok = remove(m.L, r)
			return ok
		})
	case 5:
		if s.P(1, 3) {
			m.L = nil
			b.run(n+".clear()", "", vNone, nil)
		}
	case 6, 7, 8, 9:
		t, l := b.iter(m.L)
		f := pick(s, []string{"union", "difference", "intersection", "symmetric_difference"})
		if s.P(1, 12) {
			t, l = "", nil
			b.c.Label("set method without arguments")
		}
		var r []*V
		in := func(q []*V) func(*V) bool { return func(x *V) bool { return vfind(q, x) >= 0 } }
		not := func(f func(*V) bool) func(*V) bool { return func(x *V) bool { return !f(x) } }
		switch f {
		case "union":
			r = uniq(append(append([]*V(nil), m.L...), l...))
		case "difference":
			r = filter(m.L, not(in(l)))
		case "intersection":
			r = filter(m.L, in(l))
			if t == "" {
				r = m.L
			}
		case "symmetric_difference":
			r = append(filter(m.L, not(in(l))), filter(uniq(l), not(in(m.L)))...)
			if t == "" {
				return // Python requires an argument
			}
		}
		b.run(n+"."+f+"("+t+")", pick(s, []string{"g0", "g1"}), gset(append([]*V(nil), r...)), nil)
	case 10:
		t, l := b.iter(m.L)
		if s.P(1, 2) {
			b.run(n+".issubset("+t+")", "", vBool(subset(m.L, l)), nil)
		} else {
			b.run(n+".issuperset("+t+")", "", vBool(subset(l, m.L)), nil)
		}
	case 11, 12:
		x := b.mod[o]
		if s.P(1, 2) { // compare with a separately built set
			l := m.L
			switch {
			case s.P(1, 3) && len(l) > 0:
				l = l[:len(l)-1]
			case s.P(1, 3):
				_, v := b.lit(1)
				l = uniq(append(append([]*V(nil), l...), v))
			}
			x = gset(l)
			o = b.text(x)
			b.hard++
		}
		ab, ba := subset(m.L, x.L), subset(x.L, m.L)
		op := pick(s, []string{"==", "!=", "<=", "<", ">=", ">"})
		r := map[string]bool{"==": ab && ba, "!=": !(ab && ba), "<=": ab, "<": ab && !ba, ">=": ba, ">": ba && !ab}[op]
		if !ab && !ba {
			b.c.Label("incomparable sets compared")
		}
		b.run(n+" "+op+" "+o, "", vBool(r), nil)
	case 13:
		t, v := b.elem(m.L)
		b.run(t+" in "+n, "", vBool(vfind(m.L, v) >= 0), nil)
	case 14:
		t, l := b.iter(m.L)
		b.run("genericset("+t+")", pick(s, []string{"g0", "g1"}), gset(uniq(l)), nil)
	case 15:
		bad := pick(s, []string{".union(5)", ".difference(None)", ".intersection(1)", ".issubset(3)", ".issuperset(3)", ".add()", ".add(1, 2)", ".remove()", ".nosuch(1)", ".symmetric_difference(0)"})
		b.run(n+bad, "", nil, nil)
	}
}

func (b *bi) mapOp() {
	s := b.s
	n := pick(s, []string{"m0", "m1"})
	m := b.mod[n]
	k := s.N(15)
	b.c.Label(fmt.Sprintf("genericmap op %d", k))
	switch k {
	case 0, 1, 2:
		kt, kv := b.elem(m.DK)
		vt, vv := b.lit(1)
		m.set(kv, vv)
		b.run("setkey("+n+", "+kt+", "+vt+")", "", vNone, nil)
	case 3:
		kt, kv := b.elem(m.DK)
		b.run(n+"["+kt+"]", "", m.get(kv), nil)
	case 4:
		kt, kv := b.elem(m.DK)
		r := m.get(kv)
		if s.P(1, 2) {
			dt, dv := b.lit(1)
			if r == nil {
				r = dv
			}
			b.run(n+".get("+kt+", "+dt+")", "", r, nil)
		} else {
			if r == nil {
				r = vNone
			}
			b.run(n+".get("+kt+")", "", r, nil)
		}
	case 5, 6:
		kt, kv := b.elem(m.DK)
		r := m.get(kv)
		dflt := ""
		if s.P(1, 3) {
			dt, dv := b.lit(1)
			dflt = ", " + dt
			if r == nil {
				r = dv
			}
		}
		if i := vfind(m.DK, kv); i >= 0 {
			m.DK = append(append([]*V(nil), m.DK[:i]...), m.DK[i+1:]...)
			m.DV = append(append([]*V(nil), m.DV[:i]...), m.DV[i+1:]...)
		}
		b.run(n+".pop("+kt+dflt+")", "", r, nil)
	case 7:
		if len(m.DK) == 0 {
			b.run(n+".popitem()", "", nil, nil)
			return
		}
		b.run(n+".popitem()", "", nil, func(r *V) bool {
			if r.K != VTuple || len(r.L) != 2 {
				return false
			}
			i := vfind(m.DK, r.L[0])
			if i < 0 || !veq(m.DV[i], r.L[1]) {
				return false
			}
			m.DK = append(append([]*V(nil), m.DK[:i]...), m.DK[i+1:]...)
			m.DV = append(append([]*V(nil), m.DV[:i]...), m.DV[i+1:]...)
			return true
		})
	case 8:
		kt, kv := b.elem(m.DK)
		dt, dv := b.lit(1)
		if m.get(kv) == nil {
			m.set(kv, dv)
		}
		b.run(n+".setdefault("+kt+", "+dt+")", "", m.get(kv), nil)
	case 9:
		f := pick(s, []string{"x", "y"})
		vt, vv := b.lit(1)
		m.set(vStr(f), vv)
		b.run(n+".update("+f+" = "+vt+")", "", vNone, nil)
	case 10:
		f := pick(s, []string{"items", "keys", "values"})
		r := &V{K: VList}
		for i := range m.DK {
			switch f {
			case "items":
				r.L = append(r.L, &V{K: VTuple, L: []*V{m.DK[i], m.DV[i]}})
			case "keys":
				r.L = append(r.L, m.DK[i])
			case "values":
				r.L = append(r.L, m.DV[i])
			}
		}
		b.run(n+"."+f+"()", "l0", r, nil)
	case 11:
		if s.P(1, 3) {
			m.DK, m.DV = nil, nil
			b.run(n+".clear()", "", vNone, nil)
			return
		}
		kt, kv := b.elem(m.DK)
		b.run(kt+" in "+n, "", vBool(m.get(kv) != nil), nil)
	case 12:
		o := pick(s, []string{"m0", "m1"})
		r := &V{K: VGMap, DK: append([]*V(nil), b.mod[o].DK...), DV: append([]*V(nil), b.mod[o].DV...)}
		t := o
		if s.P(1, 3) {
			f := pick(s, []string{"x", "y"})
			vt, vv := b.lit(1)
			r.set(vStr(f), vv)
			t += ", " + f + " = " + vt
		}
		b.run("genericmap("+t+")", n, r, nil)
	case 13:
		o := pick(s, []string{"m0", "m1"})
		x := b.mod[o]
		if s.P(1, 2) {
			x = m
			if s.P(1, 3) && len(m.DK) > 0 {
				x = &V{K: VGMap, DK: m.DK[1:], DV: m.DV[1:]}
			}
			o = b.text(x)
			b.hard++
		}
		if s.P(1, 2) {
			b.run(n+" == "+o, "", vBool(veq(m, x)), nil)
		} else {
			b.run("["+n+"] != ["+o+"]", "", vBool(!veq(m, x)), nil)
		}
	case 14:
		bad := pick(s, []string{".get()", ".pop()", ".popitem(1)", ".update(1, 2)", ".setdefault()", ".nosuch(1)", " < m1", " + m1"})
		b.run(n+bad, "", nil, nil)
	}
}

func (b *bi) bagOp() {
	s := b.s
	n := pick(s, []string{"b0", "b1"})
	m := b.mod[n]
	k := s.N(12)
	b.c.Label(fmt.Sprintf("bag op %d", k))
	switch k {
	case 0, 1:
		t, v := b.elem(m.L)
		m.L = append(append([]*V(nil), m.L...), v)
		b.run(n+".add("+t+")", "", vNone, nil)
	case 2, 3:
		t, l := b.iter(m.L)
		m.L = append(append([]*V(nil), m.L...), l...)
		b.run(n+".add_all("+t+")", "", vNone, nil)
	case 4, 5:
		t, v := b.elem(m.L)
		f := pick(s, []string{"remove", "discard"})
		var found bool
		m.L, found = remove(m.L, v)
		if !found && f == "remove" {
			b.run(n+".remove("+t+")", "", nil, nil)
		} else {
			b.run(n+"."+f+"("+t+")", "", vNone, nil)
		}
	case 6:
		if len(m.L) == 0 {
			b.run(n+".pop()", "", nil, nil)
			return
		}
		b.run(n+".pop()", "", nil, func(r *V) bool {
			var ok bool
			m.L, ok = remove(m.L, r)
			return ok
		})
	case 7:
		if s.P(1, 3) {
			m.L = nil
			b.run(n+".clear()", "", vNone, nil)
		}
	case 8:
		t, v := b.elem(m.L)
		b.run(t+" in "+n, "", vBool(vfind(m.L, v) >= 0), nil)
	case 9:
		t, l := b.iter(m.L)
		b.run("bag("+t+")", n, &V{K: VBag, L: l}, nil)
	case 10:
		o := pick(s, []string{"b0", "b1"})
		x := b.mod[o]
		if s.P(2, 3) {
			x = m
			if s.P(1, 3) && len(m.L) > 1 { // same elements, other multiplicities
				x = &V{K: VBag, L: append(append([]*V(nil), m.L[1:]...), m.L[len(m.L)-1])}
				b.c.Label("bags with other multiplicities compared")
			}
			o = b.text(x)
			b.hard++
		}
		if s.P(1, 2) {
			b.run(n+" == "+o, "", vBool(veq(m, x)), nil)
		} else {
			b.run("("+n+",) != ("+o+",)", "", vBool(!veq(m, x)), nil)
		}
	case 11:
		bad := pick(s, []string{".add()", ".add_all(5)", ".remove()", ".pop(1, 2)", ".nosuch(1)", " < b1", ".add_all()"})
		b.run(n+bad, "", nil, nil)
	}
}

func (b *bi) recOp() {
	s := b.s
	n := pick(s, []string{"r0", "r1"})
	m := b.mod[n]
	k := s.N(9)
	b.c.Label(fmt.Sprintf("record op %d", k))
	copyRec := func(r *V) *V {
		return &V{K: VRec, S: r.S, DK: append([]*V(nil), r.DK...), DV: append([]*V(nil), r.DV...)}
	}
	switch k {
	case 0, 1:
		f := pick(s, []string{"x", "y"})
		t, v := b.lit(2)
		m.set(vStr(f), v)
		b.run("set"+f+"("+n+", "+t+")", "", vNone, nil)
	case 2:
		f := pick(s, []string{"x", "y", "z"})
		b.run(n+"."+f, "", m.get(vStr(f)), nil)
	case 3:
		o := pick(s, []string{"r0", "r1"})
		r := copyRec(m)
		for i, q := range b.mod[o].DK {
			r.set(q, b.mod[o].DV[i])
		}
		b.run(n+" + "+o, pick(s, []string{"r0", "r1"}), r, nil)
	case 4:
		f := pick(s, []string{"x", "y", "z"})
		b.run("hasattr("+n+", \""+f+"\")", "", vBool(m.get(vStr(f)) != nil), nil)
	case 5:
		var names []string
		for _, q := range m.DK {
			names = append(names, q.S)
		}
		sort.Strings(names)
		r := &V{K: VList}
		for _, q := range names {
			r.L = append(r.L, vStr(q))
		}
		b.run("dir("+n+")", "", r, nil)
	case 6:
		x := m
		o := b.text(m)
		if s.P(1, 2) {
			o = pick(s, []string{"r0", "r1"})
			x = b.mod[o]
		} else if s.P(1, 3) { // a struct with the same fields is another type
			x = copyRec(m)
			x.S = "struct"
			o = b.text(x)
		}
		b.run(n+" == "+o, "", vBool(veq(m, x)), nil)
	case 7:
		t, v := b.lit(1)
		t2, v2 := b.lit(1)
		r := &V{K: VRec}
		r.set(vStr("y"), v2)
		r.set(vStr("x"), v)
		b.run("record(y = "+t2+", x = "+t+")", n, r, nil)
	case 8:
		bad := pick(s, []string{"{%s: 1}", "set([%s])", "%s < r1", "record(1)", "%s + 1", "setx(struct(x = 1), 2)", "setx(enum(\"x\"), 2)", "enum(1)", "{genericset(): 1}", "{bag(): 1}", "{genericmap(): 1}", "%s.nosuch"})
		if strings.Contains(bad, "%s") {
			bad = fmt.Sprintf(bad, n)
		}
		b.run(bad, "", nil, nil)
	}
}

func (b *bi) enumOp() {
	names := []string{"RED", "GREEN", "BLUE"}[:1+b.s.N(3)]
	b.c.Label("enum")
	q := `enum("` + strings.Join(names, `", "`) + `")`
	srt := append([]string(nil), names...)
	sort.Strings(srt)
	r := &V{K: VList}
	for _, x := range srt {
		r.L = append(r.L, vStr(x))
	}
	b.run("dir("+q+")", "", r, nil)
	b.run(q+"."+names[0], "", vStr(names[0]), nil)
	b.run(q+".NONE", "", nil, nil)
}

func (b *bi) numOp() {
	s := b.s
	b.c.Label("sum/min/max")
	var t []string
	sum := int64(0)
	var mn, mx int64
	for i, n := 0, s.N(5); i < n; i++ {
		x := int64(s.N(9) - 4)
		sum += x
		if i == 0 || x < mn {
			mn = x
		}
		if i == 0 || x > mx {
			mx = x
		}
		t = append(t, fmt.Sprint(x))
	}
	l := "[" + strings.Join(t, ", ") + "]"
	q := pick(s, []string{l, "bag(" + l + ")", "tuple(" + l + ")"})
	switch s.N(4) {
	case 0:
		b.run("sum("+q+")", "", vInt(sum), nil)
	case 1:
		x := s.N(7) - 3
		b.run(fmt.Sprintf("sum(%s, %d)", q, x), "", vInt(sum+int64(x)), nil)
	case 2:
		if len(t) == 0 {
			b.run("min("+q+")", "", nil, nil)
		} else {
			b.run("min("+q+")", "", vInt(mn), nil)
			b.run("max("+q+")", "", vInt(mx), nil)
		}
	case 3:
		b.run(pick(s, []string{"sum(5)", "sum([\"a\"])", "sum([1], \"a\")", "sum([[1]])", "sum()", "sum([True])"}), "", nil, nil)
	}
}

// itOp: the itertools functions against their definitions.
func (b *bi) itOp() {
	s := b.s
	k := s.N(6)
	pool := func(max int) (string, []*V) {
		var t []string
		var v []*V
		for i, n := 0, s.N(max+1); i < n; i++ {
			x, y := b.lit(0)
			t, v = append(t, x), append(v, y)
		}
		q := "[" + strings.Join(t, ", ") + "]"
		switch s.N(4) {
		case 1:
			return "genericset(" + q + ")", uniq(v)
		case 2:
			return "tuple(" + q + ")", v
		}
		return q, v
	}
	tup := func(src []*V, idx []int) *V {
		r := &V{K: VTuple}
		for _, i := range idx {
			r.L = append(r.L, src[i])
		}
		return r
	}
	// all index tuples of length r over n in lexicographic order that satisfy ok
	all := func(n, r int, ok func([]int) bool) [][]int {
		var out [][]int
		idx := make([]int, r)
		for {
			if (n > 0 || r == 0) && ok(idx) {
				out = append(out, append([]int(nil), idx...))
			}
			i := r - 1
			for i >= 0 {
				idx[i]++
				if idx[i] < n {
					break
				}
				idx[i] = 0
				i--
			}
			if i < 0 {
				return out
			}
		}
	}
	rel := func(bad func(a, b int) bool) func([]int) bool {
		return func(x []int) bool {
			for i := range x {
				for j := i + 1; j < len(x); j++ {
					if bad(x[i], x[j]) {
						return false
					}
				}
			}
			return true
		}
	}
	res := &V{K: VList}
	var expr string
	switch k {
	case 0, 1, 2:
		t, v := pool(4)
		r := s.N(4)
		f := []string{"combinations", "combinations_with_replacement", "permutations"}[k]
		expr = fmt.Sprintf("itertools.%s(%s, %d)", f, t, r)
		if k == 2 && s.P(1, 3) {
			expr, r = "itertools.permutations("+t+")", len(v)
		}
		bad := []func(a, b int) bool{func(a, b int) bool { return a >= b }, func(a, b int) bool { return a > b }, func(a, b int) bool { return a == b }}[k]
		for _, x := range all(len(v), r, rel(bad)) {
			res.L = append(res.L, tup(v, x))
		}
		b.c.Label("itertools." + f)
	case 3, 4:
		var t []string
		var pools [][]*V
		n := s.N(6)
		for i := 0; i < n; i++ {
			x, y := pool(2)
			t, pools = append(t, x), append(pools, y)
		}
		if n <= 2 && s.P(1, 3) {
			rep := s.N(4)
			t = append(t, fmt.Sprintf("repeat = %d", rep))
			var q [][]*V
			for i := 0; i < rep; i++ {
				q = append(q, pools...)
			}
			pools = q
			b.c.Label("itertools.product with repeat")
		}
		expr = "itertools.product(" + strings.Join(t, ", ") + ")"
		acc := []*V{{K: VTuple}}
		for _, p := range pools {
			var nx []*V
			for _, a := range acc {
				for _, x := range p {
					nx = append(nx, &V{K: VTuple, L: append(append([]*V(nil), a.L...), x)})
				}
			}
			acc = nx
		}
		res.L = acc
		b.c.Label(fmt.Sprintf("itertools.product of %d", len(pools)))
	case 5:
		var t []string
		for i, n := 0, s.N(4); i < n; i++ {
			x, y := pool(3)
			t = append(t, x)
			res.L = append(res.L, y...)
		}
		expr = "itertools.chain(" + strings.Join(t, ", ") + ")"
		b.c.Label("itertools.chain")
		if s.P(1, 6) {
			b.run("itertools.chain(5)", "", nil, nil)
			return
		}
	}
	if strings.Contains(expr, "genericset") { // the iteration order of a set is not specified
		res.K = VBag
		bag := res
		b.run(expr, "", nil, func(r *V) bool {
			if r.K != VList {
				return false
			}
			// as multisets of tuples; for sets within combinations any order of the elements
			norm := func(l []*V) *V {
				o := &V{K: VBag}
				for _, x := range l {
					if x.K == VTuple && strings.Contains(expr, "combinations") {
						o.L = append(o.L, &V{K: VBag, L: x.L})
					} else {
						o.L = append(o.L, x)
					}
				}
				return o
			}
			return veq(norm(r.L), norm(bag.L))
		})
		return
	}
	b.run(expr, "", res, nil)
}

func runC21(c *Case) {
	b := &bi{s: c.Src, c: c, env: starlark.StringDict{}, mod: map[string]*V{}}
	for k, v := range lib.Builtins {
		b.env[k] = v
	}
	h, err := starlark.ExecFileOptions(biOpts, &starlark.Thread{Name: "helpers"}, "helpers", biHelpers, b.env)
	if err != nil {
		panic(err)
	}
	for k, v := range h {
		b.env[k] = v
	}
	b.name = []string{"g0", "g1", "m0", "m1", "b0", "b1", "r0", "r1", "l0"}
	for _, n := range b.name {
		t := map[byte]string{'g': "genericset()", 'm': "genericmap()", 'b': "bag()", 'r': "record()", 'l': "[]"}[n[0]]
		v, err := starlark.EvalOptions(biOpts, &starlark.Thread{}, "init", t, b.env)
		if err != nil {
			panic(err)
		}
		b.env[n] = v
		b.mod[n] = &V{K: map[byte]VK{'g': VGSet, 'm': VGMap, 'b': VBag, 'r': VRec, 'l': VList}[n[0]]}
	}
	n := 4 + c.Src.N(20)
	focus := c.Src.N(6)
	for i := 0; i < n; i++ {
		k := focus
		if focus == 5 || c.Src.P(1, 5) {
			k = c.Src.N(7)
		}
		switch k {
		case 0:
			b.setOp()
		case 1:
			b.mapOp()
		case 2:
			b.bagOp()
		case 3:
			b.recOp()
		case 4:
			b.itOp()
		case 5:
			b.numOp()
		case 6:
			b.enumOp()
		}
	}
	if len(b.log) >= 4 && b.hard > 0 || focus == 4 {
		c.NonTrivial(strings.Join(b.log, ";"))
	}
	c.Sample(strings.Join(b.log, "; "))
}

func init() {
	register(&Prop{ID: "C21", Quick: 150000, Thorough: 800000,
		Rule: "at least four operations with one that depends on the equality of separately built elements, or itertools functions",
		Run:  runC21})
}
