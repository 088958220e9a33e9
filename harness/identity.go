package main

import (
	"fmt"
	"sort"
	"strings"

	"go.starlark.net/starlark"
)

// C16: two states are one exactly when they are equal. Part one: a choice between values (some of them equal but
// built differently, some nearly equal) stored at one place; the number of states is the number of different values.
// Part two: no two states without running actions of a generated specification are equal.

// loose is the value without its types: the checker identifies states by such a text (known finding).
func loose(v *V) string {
	var el []string
	switch v.K {
	case VList, VTuple, VSet, VGSet, VBag:
		for _, x := range v.L {
			el = append(el, loose(x))
		}
		if v.K != VList && v.K != VTuple {
			sort.Strings(el)
		}
		return "[" + strings.Join(el, ",") + "]"
	case VDict, VGMap, VRec:
		for i, k := range v.DK {
			el = append(el, keyText(k)+":"+loose(v.DV[i]))
		}
		sort.Strings(el)
		return "{" + strings.Join(el, ",") + "}"
	case VStr:
		return fmt.Sprintf("%q", v.S)
	case VBool:
		if v.I != 0 {
			return "True"
		}
		return "False"
	}
	return fmt.Sprint(v.K, v.I)
}

func keyText(k *V) string {
	switch k.K {
	case VStr:
		return k.S
	case VInt:
		return fmt.Sprint(k.I)
	case VNone:
		return "None"
	}
	return loose(k)
}

// near changes one thing in a value; nil if nothing could be changed.
func (b *bi) near(v *V, d int) *V {
	s := b.s
	r := *v
	r.L, r.DK, r.DV = append([]*V(nil), v.L...), append([]*V(nil), v.DK...), append([]*V(nil), v.DV...)
	norm := func() *V { // sets and maps: no equal elements
		if (r.K == VSet || r.K == VGSet) && dupl(r.L) || dupl(r.DK) {
			return nil
		}
		return &r
	}
	sub := func(l []*V) bool {
		i := s.N(len(l))
		x := b.near(l[i], d-1)
		if x == nil || r.K == VSet && !hashable(x) {
			return false
		}
		l[i] = x
		return true
	}
	switch v.K {
	case VNone:
		return vInt(0)
	case VBool:
		return vBool(v.I == 0)
	case VInt:
		return vInt(v.I + int64(s.Range(1, 3)))
	case VStr:
		return vStr(v.S + pick(s, []string{"a", " ", ",", "\""}))
	case VList, VTuple, VBag, VSet, VGSet:
		switch {
		case len(r.L) > 0 && s.P(1, 2):
			if !sub(r.L) {
				return nil
			}
		case len(r.L) > 0 && s.P(1, 2):
			i := s.N(len(r.L))
			r.L = append(r.L[:i], r.L[i+1:]...)
		case len(r.L) > 1 && s.P(1, 2): // another order: only a change for lists and tuples
			r.L[0], r.L[len(r.L)-1] = r.L[len(r.L)-1], r.L[0]
		case len(r.L) > 0 && v.K != VSet && v.K != VGSet && s.P(1, 2): // an element twice
			r.L = append(r.L, r.L[s.N(len(r.L))])
		default:
			_, x := b.lit(0)
			r.L = append(r.L, x)
		}
		return norm()
	case VDict, VGMap, VRec:
		switch {
		case len(r.DK) > 0 && s.P(1, 2):
			if !sub(r.DV) {
				return nil
			}
		case len(r.DK) > 0 && v.K != VRec && s.P(1, 2):
			if !sub(r.DK) || v.K == VDict && !allHashable(r.DK) {
				return nil
			}
		case len(r.DK) > 1 && s.P(1, 2): // the values exchanged
			r.DV[0], r.DV[1] = r.DV[1], r.DV[0]
		case len(r.DK) > 0 && s.P(1, 2):
			r.DK, r.DV = r.DK[1:], r.DV[1:]
		case v.K == VRec:
			n := vStr(pick(s, []string{"x", "y"}))
			_, x := b.lit(0)
			r.set(n, x)
		default:
			_, k := b.lit(0)
			_, x := b.lit(0)
			r.set(k, x)
		}
		return norm()
	}
	return nil
}

type place struct {
	name string
	key  bool // the value has to be hashable
	mk   func(alts []string) *Spec
}

// choose: statements that make one of the choices.
func choose(f func(t string) []*Stmt, alts []string) *Stmt {
	o := &Stmt{K: SBlock, Blk: &Block{Flow: FOneof}}
	for _, t := range alts {
		o.Blk.Stmts = append(o.Blk.Stmts, sb(FAtomic, f(t)...))
	}
	return o
}

func rawE(s string) Expr { return Raw{S: s} }

func idPlaces() []place {
	helpers := []string{biHelpers}
	global := func(name string, key bool, f func(t string) []*Stmt) place {
		return place{name, key, func(alts []string) *Spec {
			return &Spec{Consts: helpers, Init: blk(FAtomic, set("x", I(0))), Actions: []*Action{
				act("A", FAtomic, &Stmt{K: SRequire, E: rawE("x == 0")}, choose(f, alts))}}
		}}
	}
	in := func(pre, post string) func(t string) []*Stmt {
		return func(t string) []*Stmt { return []*Stmt{set("x", rawE(pre+t+post))} }
	}
	role := func(name string, f func(t string) []*Stmt) place {
		return place{name, false, func(alts []string) *Spec {
			return &Spec{Consts: helpers, Init: blk(FAtomic, set("n", rawE("Node()"))),
				Roles: []*RoleDef{{Name: "Node", Actions: []*Action{
					{Name: "Init", Flow: FAtomic, Blk: blk(FAtomic, py(RawPy("self.x = 0")))},
					act("A", FAtomic, &Stmt{K: SRequire, E: rawE("self.x == 0")}, choose(f, alts))}}}}
		}}
	}
	// late: the alternatives are told apart by x until the value is in its place.
	late := func(name string, after ...*Stmt) place {
		return place{name, false, func(alts []string) *Spec {
			o := &Stmt{K: SBlock, Blk: &Block{Flow: FOneof}}
			for i := range alts {
				o.Blk.Stmts = append(o.Blk.Stmts, py(RawPy(fmt.Sprintf("self.x = %d", i+1))))
			}
			return &Spec{Consts: append(helpers, "def alt(i):\n    return ["+strings.Join(alts, ", ")+"][i-1]\n"),
				Init: blk(FAtomic, set("n", rawE("Node()"))),
				Roles: []*RoleDef{{Name: "Node", Actions: []*Action{
					{Name: "Init", Flow: FAtomic, Blk: blk(FAtomic, py(RawPy("self.x = 0")))},
					act("A", FSerial, append([]*Stmt{{K: SRequire, E: rawE("self.x == 0")}, o}, after...)...)},
					Funcs: []*Func{{Name: "F", Flow: FSerial, Params: []Param{{Name: "p"}},
						Blk: blk(FSerial, py(RawPy("self.x = 10")), py(RawPy("self.x = 11")), py(RawPy("self.x = 12")))}}}}}
		}}
	}
	x10, x11, x12 := py(RawPy("self.x = 10")), py(RawPy("self.x = 11")), py(RawPy("self.x = 12"))
	return []place{
		global("variable", false, in("", "")),
		global("list", false, in("[0, ", "]")),
		global("tuple", false, in("(", ", 0)")),
		global("dict value", false, in("{'k': ", "}")),
		global("dict key", true, in("{", ": 1}")),
		global("record field", false, in("record(f = ", ")")),
		global("struct field", false, in("struct(f = ", ")")),
		global("genericset", false, in("genericset([", ", 7])")),
		global("bag", false, in("bag([", ", 7])")),
		global("set", true, in("set([", "])")),
		global("genericmap value", false, in("genericmap({1: ", "})")),
		global("genericmap key", false, func(t string) []*Stmt { return []*Stmt{set("x", rawE("mkmap([" + t + ", 5])"))} }),
		role("role field", func(t string) []*Stmt { return []*Stmt{py(RawPy("self.x = " + t))} }),
		role("in a role field", func(t string) []*Stmt { return []*Stmt{py(RawPy("self.x = [" + t + "]"))} }),
		place{"role parameter", false, func(alts []string) *Spec {
			return &Spec{Consts: helpers, Init: blk(FAtomic, set("n", I(0))), Actions: []*Action{
				act("A", FAtomic, &Stmt{K: SRequire, E: rawE("n == 0")},
					choose(func(t string) []*Stmt { return []*Stmt{set("n", rawE("Node(p = " + t + ")"))} }, alts))},
				Roles: []*RoleDef{{Name: "Node", Actions: []*Action{
					{Name: "Init", Flow: FAtomic, Blk: blk(FAtomic, py(RawPy("self.x = 0")))}}}}}
		}},
		late("local variable", py(RawPy("v = alt(self.x)")), x10, x11, x12),
		late("argument", &Stmt{K: SCall, Recv: "self", Fn: "F", Args: []Arg{{E: rawE("alt(self.x)")}}}),
		late("loop values", &Stmt{K: SFor, Var: "v", E: rawE("[0, alt(self.x)]"), Flow: FSerial, Blk: blk(FSerial, x10, x11)}, x12),
		place{"returned value", false, func(alts []string) *Spec {
			return &Spec{Consts: helpers, Init: blk(FAtomic, set("x", I(0))), Actions: []*Action{
				act("A", FAtomic, &Stmt{K: SRequire, E: rawE("x == 0")},
					choose(func(t string) []*Stmt { return []*Stmt{py(RawPy("x = 1")), {K: SReturn, E: rawE(t)}} }, alts))}}
		}},
		place{"before the transition", false, func(alts []string) *Spec { // the value is part of every later state
			return &Spec{Consts: helpers, Init: blk(FAtomic, set("x", I(0)), set("y", I(0))), Actions: []*Action{
				act("A", FAtomic, &Stmt{K: SRequire, E: rawE("x == 0")}, choose(in("", ""), alts)),
				act("B", FAtomic, py(RawPy("y = 1 - y")))}}
		}},
	}
}

func yields(c *Case, s *Spec, o Opts) int {
	run := runImpl(s.File(), o)
	if run.Panic != "" || run.Err != nil {
		c.Fail("the checker failed: %v %s\n%s", run.Err, run.Panic, s.Text())
	}
	return len(extract(run.Init, false).N)
}

// base: how often the value at the place appears in the states (states of one alternative with the value).
func idValues(c *Case, pl place, alts []string, distinct, blind int) {
	o := Opts{MaxActions: 3, MaxConc: 1, NoDeadlock: true}
	n1 := yields(c, pl.mk(alts[:1]), o)
	n := yields(c, pl.mk(alts), o)
	// States without the value are there once, those with it once per value.
	without, late := 1, 0
	switch pl.name {
	case "before the transition":
		without = 2
	case "argument", "loop values":
		without, late = 2, 1 // the alternative is chosen and not used yet
	case "local variable":
		without, late = 2, 2
	}
	want := func(d int) bool { return n == without+late*len(alts)+(n1-without-late)*d }
	if want(distinct) {
		return
	}
	if blind != distinct && want(blind) {
		c.Known("identity-type-blind", "%s: %d states for %d different values (%d with one value)", pl.name, n, distinct, n1)
		return
	}
	c.Fail("a value stored as %s, chosen among %d different ones: %d states (%d when it is one value)\n%s", pl.name, distinct, n, n1, pl.mk(alts).Text())
}

func idleDup(c *Case, s *Spec, run *Run) int {
	seen := map[string]bool{}
	idle := 0
	for _, n := range extractNodes(run.Init) {
		if n.GetThreadsCount() > 0 || !n.IsYieldNode() {
			continue
		}
		idle++
		k := implObs(n)
		for _, name := range sortedKeys(n.Process.Returns) {
			v, err := fromStar(n.Process.Returns[name])
			if err != nil {
				k += n.Process.Returns[name].String()
				continue
			}
			k += name + "=" + v.String()
		}
		if seen[k] {
			c.Fail("two states are equal: %s\n%s", k, s.Text())
		}
		seen[k] = true
	}
	return idle
}

func sortedKeys(d starlark.StringDict) []string {
	var r []string
	for k := range d {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func init() {
	pl := idPlaces()
	blindPair := func(a, b string) func(c *Case) {
		return func(c *Case) { idValues(c, pl[0], []string{a, b}, 2, 1) }
	}
	register(&Prop{ID: "C16", Quick: 4000, Thorough: 150000,
		Rule: "values: at least two different ones and two equal ones built differently; specifications: at least 3 states without running actions",
		Fixed: []func(c *Case){
			blindPair("[1]", "(1,)"),
			blindPair("{1: 2}", `{"1": 2}`),
			blindPair("set([1])", "[1]"),
			blindPair("record(a = 1)", "{'a': 1}"),
			func(c *Case) {
				for _, p := range pl {
					if p.name == "loop values" {
						idValues(c, p, []string{"set([0, 1])", "set([1, 0])", "genericset([1, 2])", "genericset([2, 1])"}, 2, 2)
					}
				}
			},
			func(c *Case) {
				for _, p := range pl {
					if !p.key {
						idValues(c, p, []string{"float('inf')", "float('-inf')", "1.5", "[float('+inf')]", "[float('-inf')]"}, 5, 5)
					}
				}
			},
			func(c *Case) {
				// Texts cut inside a character.
				for _, p := range pl {
					idValues(c, p, []string{"'\u00e9'[0:1]", "'\u00e9'[1:2]", "'\u00e9'", "'\u00ea'[1:2]", "'\ufffd'"}, 5, 5)
				}
			},
			func(c *Case) {
				idValues(c, pl[11], []string{"set([0, 1])", "set([1, 0])", "record(x = 1, y = 2)", "record(y = 2, x = 1)", "[{1: 2, 3: 4}]", "[{3: 4, 1: 2}]"}, 3, 3)
			},
		},
		Run: func(c *Case) {
			if c.P(1, 3) {
				g := genSpec(c.Src, cfgAll())
				o := opts01(g)
				c.Sample(g.S.Text())
				if _, _, ok := refFor(g.S, o, Quirks{}).reference(); !ok {
					c.Discard("too-big")
				}
				run := runImpl(g.S.File(), o)
				if run.Panic != "" || run.Err != nil {
					c.Discard("error")
				}
				c.Label("specification")
				if idleDup(c, g.S, run) >= 3 {
					c.NonTrivial(g.S.Text())
				}
				return
			}
			b := &bi{s: c.Src, c: c}
			p := pick(c.Src, pl)
			n := c.Range(1, 4)
			var vals []*V
			var alts []string
			texts := map[string]bool{}
			for i := 0; i < n; i++ {
				var v *V
				if len(vals) > 0 && c.P(3, 4) {
					v = b.near(pick(c.Src, vals), 3)
				} else {
					_, v = b.lit(3)
				}
				if v == nil || p.key && !hashable(v) || veq(v, vInt(0)) {
					continue
				}
				vals = append(vals, v)
			}
			if len(vals) == 0 {
				c.Discard("no value")
			}
			diff := uniq(vals)
			ls := map[string]bool{}
			for _, v := range diff {
				if strings.HasSuffix(p.name, " key") {
					ls[keyText(v)] = true
				} else {
					ls[loose(v)] = true
				}
			}
			if len(ls) != len(diff) {
				c.Discard("differ in type only")
			}
			same := false
			for i, v := range vals {
				for k := c.Range(1, 2); k > 0; k-- {
					t := b.text(v)
					if i > 0 && !texts[t] && len(diff) < len(texts)+1 {
						same = true
					}
					texts[t] = true
					alts = append(alts, t)
				}
			}
			c.Sample(p.name + ": " + strings.Join(alts, " | "))
			c.Label("place:" + p.name)
			c.Label(fmt.Sprintf("different values: %d", len(diff)))
			if len(diff) > 1 && (same || len(texts) > len(diff)) {
				c.NonTrivial(p.name + strings.Join(alts, "|"))
			}
			idValues(c, p, alts, len(diff), len(ls))
		}})
}
