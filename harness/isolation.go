package main

import (
	"fmt"
	"strings"
)

// C15: object graphs with sharing, built by Init, and actions that change them through any of the ways to reach an
// object. The reference interpreter keeps sharing inside a state and nothing between states. Every object has an
// identifying element, so that the values of a state tell which objects are one.

type iobj struct {
	name string
	k    VK
	st   bool // struct
	id   int
	el   []*iobj // composites
	ways []Expr  // expressions that yield it, without locals
	leaf bool
}

func rawF(s string, f func(e Env) *V) Expr { return Raw{S: s, F: f} }

// mk: the expression that creates the object.
func (o *iobj) mk(el []Expr) Expr {
	id := I(o.id)
	strs := []string{}
	for _, e := range el {
		strs = append(strs, e.Str())
	}
	pairs := func() ([]Expr, []Expr) {
		ks, vs := []Expr{S("id")}, []Expr{Expr(id)}
		for i, e := range el {
			ks, vs = append(ks, S(fname(i))), append(vs, e)
		}
		return ks, vs
	}
	switch o.k {
	case VList:
		return ListE(append(append([]Expr{}, el...), id))
	case VTuple:
		return TupE(append(append([]Expr{}, el...), id))
	case VSet, VBag, VGSet:
		return Call{map[VK]string{VSet: "set", VBag: "bag", VGSet: "genericset"}[o.k], []Expr{ListE{id}}}
	case VDict:
		k, v := pairs()
		return DictE{k, v}
	case VGMap:
		k, v := pairs()
		d := DictE{k, v}
		return rawF("genericmap("+d.Str()+")", func(e Env) *V { r := d.Ev(e); r.K = VGMap; return r })
	case VRec:
		ns, vs := []string{"id"}, []Expr{Expr(id)}
		for i, e := range el {
			ns, vs = append(ns, fname(i)), append(vs, e)
		}
		if o.leaf {
			ns, vs = append(ns, "x"), append(vs, Expr(I(0)))
		}
		r := RecE{ns, vs}
		if o.st {
			return rawF("struct"+strings.TrimPrefix(r.Str(), "record"), func(e Env) *V { v := r.Ev(e); v.S = "struct"; return v })
		}
		return r
	}
	panic("kind")
}

func fname(i int) string { return string(rune('p' + i)) }

// at: the i-th element of the composite.
func (o *iobj) at(x Expr, i int) Expr {
	switch o.k {
	case VList, VTuple:
		return Idx{x, I(i)}
	case VRec:
		return Attr{x, fname(i)}
	}
	return Idx{x, S(fname(i))}
}

func (o *iobj) mutate(s *Src, x Expr) *Stmt {
	has := func(c Expr, a, b PyOp) *Stmt {
		return &Stmt{K: SIf, Conds: []Expr{c, nil}, Blks: []*Block{blk(FAtomic, py(a)), blk(FAtomic, py(b))}}
	}
	n := bin(Call{"len", []Expr{x}}, "<", I(2))
	switch o.k {
	case VList:
		return has(n, Meth{x, "append", []Expr{I(1)}}, Meth{x, "pop", nil})
	case VBag:
		return has(n, Meth{x, "add", []Expr{I(1)}}, Meth{x, "discard", []Expr{I(1)}})
	case VSet, VGSet:
		// One possible extra element only: the order of insertion shows in the names of choices.
		if s.P(1, 3) {
			return py(Meth{x, "add", []Expr{I(1)}})
		}
		return has(n, Meth{x, "add", []Expr{I(1)}}, Meth{x, "discard", []Expr{I(1)}})
	case VDict, VGMap:
		if o.k == VDict && s.P(1, 2) {
			return has(n, AsgIdx{x, S("x"), I(1)}, Meth{x, "pop", []Expr{S("x")}})
		}
		return py(AsgIdx{x, S("x"), I(s.N(2))})
	case VRec:
		return py(AsgAttr{x, "x", I(s.N(2))})
	case VRole:
		return py(AsgAttr{x, "w", I(s.N(2))})
	}
	panic("mutate")
}

type iso struct {
	*Src
	leaf, comp []*iobj
	roles      int
	sp         *Spec
	shared     int
	feats      map[string]bool
	nl         int
}

func (g *iso) way(o *iobj) Expr { return o.ways[g.N(len(o.ways))] }

func (g *iso) stmt(d int, atomic bool) []*Stmt {
	o := pick(g.Src, g.leaf)
	switch g.W(4, 3, 2, 2, 2, 2, 1, 1, 2) {
	case 0:
		return []*Stmt{o.mutate(g.Src, g.way(o))}
	case 1: // local reference
		g.feats["local reference"] = true
		v := g.local()
		r := []*Stmt{set(v, g.way(o))}
		if d > 0 && g.P(1, 2) {
			r = append(r, g.stmt(d-1, atomic)...)
		}
		return append(r, o.mutate(g.Src, Var(v)))
	case 2, 3: // any, for over objects of one kind
		var l []Expr
		for _, x := range g.leaf {
			if x.k == o.k {
				l = append(l, g.way(x))
			}
		}
		var it Expr = ListE(l)
		v := g.local()
		b := []*Stmt{o.mutate(g.Src, Var(v))}
		if d > 0 && g.P(1, 2) {
			b = append(b, g.stmt(0, true)...)
		}
		if g.P(1, 2) {
			for _, c := range g.comp { // a composite list of such objects
				ok := c.k == VList || c.k == VTuple
				for _, x := range c.el {
					ok = ok && x.leaf && x.k == o.k
				}
				if ok && len(c.el) > 0 {
					n := len(c.el)
					w := g.way(c)
					it = rawF(fmt.Sprintf("%s[0:%d]", w.Str(), n), func(e Env) *V {
						x := w.Ev(e)
						return &V{K: x.K, L: append([]*V{}, x.L[:n]...)}
					})
				}
			}
		}
		if g.P(1, 3) {
			g.feats["for"] = true
			fl := FAtomic
			if !atomic && g.P(1, 2) {
				fl = FSerial
			} else if !atomic && g.P(1, 2) {
				fl = FParallel
			}
			bf := fl
			if fl == FParallel {
				g.feats["parallel for"] = true
				bf = pick(g.Src, []Flow{FAtomic, FSerial})
			}
			return []*Stmt{{K: SFor, Var: v, E: it, Flow: fl, Blk: blk(bf, b...)}}
		}
		if g.P(1, 2) {
			g.feats["any"] = true
			return []*Stmt{anyB(v, it, blk(FAtomic, b...))}
		}
		g.feats["inline any"] = true
		return append([]*Stmt{anyIn(v, it)}, b...)
	case 4, 5: // call
		g.feats["call"] = true
		fn := &Func{Name: fmt.Sprintf("F%d", len(g.sp.Funcs)), Flow: FAtomic, Params: []Param{{Name: "z"}}}
		g.sp.Funcs = append(g.sp.Funcs, fn)
		b := []*Stmt{}
		if g.P(2, 3) {
			b = append(b, o.mutate(g.Src, Var("z")))
		}
		if d > 0 && g.P(1, 2) {
			b = append(b, g.stmt(0, true)...)
		}
		ret := g.P(1, 2)
		if ret {
			b = append(b, &Stmt{K: SReturn, E: Var("z")})
		} else if len(b) == 0 {
			b = append(b, &Stmt{K: SPass})
		}
		fn.Blk = blk(FAtomic, b...)
		w := g.way(o)
		var pre []*Stmt
		if g.P(1, 2) { // the argument is a local of the caller
			v := g.local()
			pre = append(pre, set(v, w))
			w = Var(v)
		}
		c := &Stmt{K: SCall, Fn: fn.Name, Args: []Arg{{E: w}}}
		r := append(pre, c)
		if ret {
			c.Var = g.local()
			r = append(r, o.mutate(g.Src, Var(c.Var)))
		} else if len(pre) > 0 {
			r = append(r, o.mutate(g.Src, w))
		}
		return []*Stmt{sb(FAtomic, r...)}
	case 6: // a copy
		if o.k == VRole {
			return []*Stmt{o.mutate(g.Src, g.way(o))}
		}
		g.feats["deepcopy"] = true
		v := g.local()
		w := g.way(o)
		return []*Stmt{set(v, rawF("deepcopy("+w.Str()+")", func(e Env) *V { return w.Ev(e).clone(map[*V]*V{}) })), o.mutate(g.Src, Var(v))}
	case 7: // another object at a place
		c := pick(g.Src, g.comp)
		if len(c.el) == 0 || c.k == VTuple || c.st {
			return []*Stmt{o.mutate(g.Src, g.way(o))}
		}
		i := g.N(len(c.el))
		var same []*iobj
		for _, x := range g.leaf {
			if c.el[i].leaf && x.k == c.el[i].k {
				same = append(same, x)
			}
		}
		if len(same) < 2 {
			return []*Stmt{o.mutate(g.Src, g.way(o))}
		}
		g.feats["re-pointed"] = true
		x := pick(g.Src, same)
		w := g.way(c)
		switch c.k {
		case VRec:
			return []*Stmt{py(AsgAttr{w, fname(i), g.way(x)})}
		case VList:
			return []*Stmt{py(AsgIdx{w, I(i), g.way(x)})}
		}
		return []*Stmt{py(AsgIdx{w, S(fname(i)), g.way(x)})}
	}
	g.feats["oneof"] = true
	p := pick(g.Src, g.leaf)
	return []*Stmt{{K: SBlock, Blk: blk(FOneof, sb(FAtomic, o.mutate(g.Src, g.way(o))), sb(FAtomic, p.mutate(g.Src, g.way(p))))}}
}

func (g *iso) local() string { g.nl++; return fmt.Sprintf("v%d", g.nl) }

func genIso(s *Src) *iso {
	g := &iso{Src: s, sp: &Spec{}, feats: map[string]bool{}}
	init := blk(FAtomic)
	add := func(st *Stmt) { init.Stmts = append(init.Stmts, st) }
	id := 10
	kinds := []VK{VList, VSet, VDict, VRec, VGSet, VBag, VGMap}
	k0 := pick(s, kinds)
	for i, n := 0, s.Range(1, 3); i < n; i++ {
		k := k0
		if s.P(1, 2) {
			k = pick(s, kinds)
		}
		o := &iobj{name: fmt.Sprintf("l%d", i), k: k, id: id, leaf: true}
		id++
		o.ways = []Expr{Var(o.name)}
		add(set(o.name, o.mk(nil)))
		g.leaf = append(g.leaf, o)
	}
	uses := map[*iobj]int{}
	// Role instances are objects as well.
	var names []string
	if s.P(1, 2) {
		g.roles = s.Range(1, 2)
		rd := &RoleDef{Name: "Node"}
		g.sp.Roles = append(g.sp.Roles, rd)
		rd.Actions = append(rd.Actions, &Action{Name: "Init", Flow: FAtomic, Blk: blk(FAtomic, py(AsgAttr{Var("self"), "u", I(0)}), py(AsgAttr{Var("self"), "p", I(0)}), py(AsgAttr{Var("self"), "w", I(0)}))})
		in := s.P(1, 2)
		for i := 0; i < g.roles; i++ {
			n := fmt.Sprintf("n%d", i)
			names = append(names, n)
			add(&Stmt{K: SNew, Var: n, Role: "Node"})
			if in {
				g.feats["instance in a value"] = true
				x := &iobj{name: n, k: VRole, leaf: true, ways: []Expr{Var(n)}}
				if s.P(1, 2) {
					x.ways = append(x.ways, rawF("resolve_role("+n+".__id__)", func(e Env) *V { return Var(n).Ev(e) }))
				}
				g.leaf = append(g.leaf, x)
			}
		}
	}
	all := append([]*iobj{}, g.leaf...)
	for i, n := 0, s.Range(1, 3); i < n; i++ {
		o := &iobj{name: fmt.Sprintf("c%d", i), k: pick(s, []VK{VList, VTuple, VDict, VRec, VRec, VGMap}), id: id}
		o.st = o.k == VRec && s.P(1, 2)
		id++
		var el []Expr
		for j, m := 0, s.Range(1, 3); j < m; j++ {
			x := pick(s, all)
			uses[x]++
			o.el = append(o.el, x)
			el = append(el, g.way(x))
		}
		o.ways = []Expr{Var(o.name)}
		add(set(o.name, o.mk(el)))
		for j, x := range o.el {
			x.ways = append(x.ways, o.at(Var(o.name), j))
		}
		g.comp = append(g.comp, o)
		all = append(all, o)
	}
	// ways through two composites
	for i := len(g.comp) - 1; i >= 0; i-- {
		c := g.comp[i]
		for j, x := range c.el {
			for _, w := range c.ways[1:] {
				x.ways = append(x.ways, c.at(w, j))
			}
		}
	}
	if len(names) > 0 {
		for _, n := range names {
			x := pick(s, all)
			uses[x]++
			add(py(AsgAttr{Var(n), "u", g.way(x)}))
			x.ways = append(x.ways, Attr{Var(n), "u"})
			if x.k == VRole {
				g.feats["instance in a field"] = true
			}
			if s.P(2, 3) { // instances that refer to each other
				add(py(AsgAttr{Var(n), "p", Var(pick(s, names))}))
			}
		}
	}
	g.shared = len(uses)
	g.sp.Init = init
	for i, n := 0, s.Range(1, 2); i < n; i++ {
		fl := FAtomic
		if s.P(1, 3) {
			fl = FSerial
		}
		var st []*Stmt
		for j, m := 0, s.Range(1, 2); j < m; j++ {
			st = append(st, g.stmt(1, fl == FAtomic)...)
		}
		if s.P(1, 5) {
			st = append(st, &Stmt{K: SReturn, E: g.way(pick(s, g.leaf))})
		}
		g.sp.Actions = append(g.sp.Actions, act(fmt.Sprintf("A%d", i), fl, st...))
	}
	if s.P(1, 3) { // assertions that change what they look at: their own copy
		g.feats["assertion that mutates"] = true
		kind := pick(s, []string{"always", "always", "exists", "transition", "always eventually"})
		var st []*Stmt
		for i, n := 0, s.Range(1, 2); i < n; i++ {
			o := pick(s, g.leaf)
			x := g.way(o)
			if kind == "transition" {
				x = Attr{Var(pick(s, []string{"before", "after"})), o.name}
			}
			st = append(st, o.mutate(s, x))
		}
		st = append(st, &Stmt{K: SReturn, E: B(true)})
		g.sp.Asserts = append(g.sp.Asserts, Assertion{Name: "M", Kind: kind, Blk: blk(FAtomic, st...)})
	}
	return g
}

func init() {
	register(&Prop{ID: "C15", Quick: 14000, Thorough: 200000,
		Rule: "an object is reachable in more than one way and the reference graph has at least 3 states and a state with two successors",
		Run: func(c *Case) {
			g := genIso(c.Src)
			o := Opts{MaxActions: 1000000, MaxConc: c.Range(1, 2), Strategy: pick(c.Src, []string{"", "dfs", "random"})}
			c.Sample(g.sp.Text())
			_, rg := checkGraph(c, g.sp, o, "C15")
			for f := range g.feats {
				c.Label(f)
			}
			if g.shared > 0 && nontrivialGraph(rg) {
				c.NonTrivial(g.sp.Text())
			}
		}})
}
