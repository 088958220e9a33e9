package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/fizzbee-io/fizzbee/lib"
	mc "github.com/fizzbee-io/fizzbee/modelchecker"
	"go.starlark.net/starlark"
	"go.starlark.net/starlarkstruct"
)

// C11: models that treat all values of the declared domains (and all instances of symmetric roles) alike, explored
// with and without symmetry reduction. States are compared by a canonical form that is computed here by trying every
// member of the symmetry group.

type sdom struct {
	name, prefix, kind string // kind: values, nominal, ordinal, interval, rotational, role, roleid
	limit, div, start  int
	refl, mat          bool
}

type svar struct {
	n, k string
	d    *sdom
}

type sgen struct {
	*Src
	sp      *Spec
	doms    []*sdom
	vars    []svar // global
	rvars   []svar // fields of the role
	nroles  int
	procs   string // kind of the container of the instances
	maxconc int
	steps   int // > 0: every action counts up to it
	feats   map[string]bool
	nl      int
	funcs   []string
	fdom    []*sdom
	pre     string // prefix of global names, in assertions
}

func rx(f string, a ...any) Expr  { return Raw{S: fmt.Sprintf(f, a...)} }
func rp(f string, a ...any) *Stmt { return py(RawPy(fmt.Sprintf(f, a...))) }

func sif(c string, a, b []*Stmt) *Stmt {
	s := &Stmt{K: SIf, Conds: []Expr{rx("%s", c)}, Blks: []*Block{blk(FAtomic, a...)}}
	if b != nil {
		s.Conds, s.Blks = append(s.Conds, nil), append(s.Blks, blk(FAtomic, b...))
	}
	return s
}

func (g *sgen) local() string { g.nl++; return fmt.Sprintf("v%d", g.nl) }

func (g *sgen) visible(role bool) []svar {
	if role {
		return append(append([]svar{}, g.vars...), g.rvars...)
	}
	return g.vars
}

// bind a local variable to a value of the domain.
func (g *sgen) bind(d *sdom, role bool) (string, []*Stmt) {
	v := g.local()
	var opts []func() []*Stmt
	add := func(w int, f func() []*Stmt) {
		for ; w > 0; w-- {
			opts = append(opts, f)
		}
	}
	one := func(e string) func() []*Stmt {
		return func() []*Stmt { return []*Stmt{anyIn(v, rx("%s", e))} }
	}
	asg := func(e string) func() []*Stmt { return func() []*Stmt { return []*Stmt{rp("%s = %s", v, e)} } }
	shift := func(f func() []*Stmt) func() []*Stmt {
		if d.kind != "interval" && d.kind != "rotational" {
			return f
		}
		return func() []*Stmt {
			st := f()
			if d.refl {
				w := g.local()
				return append(st, anyIn(w, rx("[-1, 1]")), rp("%s = %s + %s", v, v, w))
			}
			return append(st, rp("%s = %s %s", v, v, pick(g.Src, []string{"+ 1", "- 1", "+ 1", "+ 2"})))
		}
	}
	switch d.kind {
	case "values":
		add(4, one(d.name))
	case "role":
		add(3, one("procs"))
		if role {
			add(2, asg("self"))
		}
	case "roleid":
		add(3, func() []*Stmt {
			w := g.local()
			return []*Stmt{anyIn(w, rx("procs")), rp("%s = %s.__id__", v, w)}
		})
		if role {
			add(2, asg("self.__id__"))
		}
	default:
		add(2, one(d.name+".values()"))
		add(1, shift(one(d.name+".values()")))
		if !d.mat {
			switch {
			case d.kind == "nominal":
				add(2, asg(d.name+".fresh()"))
				add(3, one(d.name+".choices()"))
			case d.kind == "ordinal" && !d.refl, d.kind == "interval" && !d.refl:
				add(3, asg(d.name+".fresh()"))
			}
		}
		if (d.kind == "ordinal" || d.kind == "interval") && !d.refl {
			add(1, asg(d.name+".min()"))
			add(1, asg(d.name+".max()"))
		}
		if d.kind == "ordinal" && !d.mat {
			add(3, func() []*Stmt {
				w := g.local()
				g.feats["segments"] = true
				// The gap goes away before the step ends.
				return []*Stmt{anyIn(w, rx("%s.segments()", d.name)), rp("%s = %s.fresh()", v, w), rp("%s = 0", w)}
			})
		}
	}
	for _, x := range g.visible(role) {
		if x.d != d {
			continue
		}
		n := x.n
		switch x.k {
		case "val":
			add(2, shift(func() []*Stmt {
				return []*Stmt{{K: SRequire, E: rx("%s != None", n)}, rp("%s = %s", v, n)}
			}))
		case "tup", "stup":
			add(1, shift(one(fmt.Sprintf("[z for z in %s if z != None]", n))))
		case "list", "set", "gset", "dict", "gmap", "map", "nest":
			add(2, shift(one(n)))
		case "rec":
			add(1, shift(func() []*Stmt {
				return []*Stmt{{K: SRequire, E: rx("%s.f != None", n)}, rp("%s = %s.f", v, n)}
			}))
		case "list!":
			add(1, func() []*Stmt {
				return []*Stmt{{K: SRequire, E: rx("len(%s) > 0", n)}, rp("%s = %s[-1]", v, n)}
			})
		}
	}
	return v, opts[g.N(len(opts))]()
}

func (g *sgen) init(x svar) []*Stmt {
	e := map[string]string{"val": "None", "set": "set()", "list": "[]", "bag": "bag()", "gset": "genericset()", "dict": "{}", "map": "{}", "gmap": "genericmap()",
		"rec": "record(f=None, n=0)", "tup": "(None, None)", "stup": "(None,)", "nest": "{}"}[x.k]
	return []*Stmt{rp("%s = %s", x.n, e)}
}

func (g *sgen) test(v string, d *sdom, role bool) string {
	var o []string
	for _, x := range g.visible(role) {
		n := x.n
		same := x.d == d && v != ""
		switch x.k {
		case "val":
			o = append(o, n+" != None")
			if same {
				o = append(o, n+" == "+v, n+" != "+v)
				if !d.refl && (d.kind == "ordinal" || d.kind == "interval") {
					o = append(o, fmt.Sprintf("%s == None or %s < %s", n, n, v), fmt.Sprintf("%s != None and %s <= %s", n, v, n))
				}
				if d.kind == "interval" {
					o = append(o, map[bool]string{false: fmt.Sprintf("%s != None and %s - %s == 1", n, v, n), true: fmt.Sprintf("%s != None and (%s - %s) in [1, -1]", n, v, n)}[d.refl])
				}
				if d.kind == "rotational" {
					o = append(o, map[bool]string{false: fmt.Sprintf("%s != None and %s - %s == 1", n, v, n), true: fmt.Sprintf("%s != None and (%s - %s) in [1, %d]", n, v, n, d.limit-1)}[d.refl])
				}
			}
		case "set", "list", "bag", "gset", "dict", "gmap", "map", "nest":
			o = append(o, fmt.Sprintf("len(%s) < %d", n, g.Range(1, 2)), fmt.Sprintf("len(%s) > %d", n, g.N(2)))
			if same {
				o = append(o, v+" in "+n, v+" not in "+n)
				if !d.refl && (d.kind == "ordinal" || d.kind == "interval") {
					o = append(o, fmt.Sprintf("all([z <= %s for z in %s])", v, n))
				}
			}
			if x.k == "dict" && same {
				o = append(o, fmt.Sprintf("%s.get(%s, 0) == 1", n, v))
			}
		case "rec":
			o = append(o, n+".f != None", n+".n == 0")
			if same {
				o = append(o, n+".f == "+v)
			}
		case "tup":
			o = append(o, fmt.Sprintf("%s[0] == %s[1]", n, n))
			if same {
				o = append(o, fmt.Sprintf("%s[1] == %s", n, v))
			}
		case "stup":
			o = append(o, fmt.Sprintf("%s[0] == None", n))
			if same {
				o = append(o, v+" in "+n)
			}
		}
	}
	o = append(o, g.pre+"c == 0", g.pre+"c < 2")
	if g.nroles > 0 {
		o = append(o, fmt.Sprintf("len([z for z in %sprocs if z.u == 1]) < %d", g.pre, g.Range(1, 2)))
		if role {
			o = append(o, "self.u == 0", "self.u == 1")
		}
		if d != nil && d.kind == "role" && v != "" {
			o = append(o, v+".u == 0")
		}
	}
	return pick(g.Src, o)
}

func (g *sgen) effect(v string, d *sdom, role bool) []*Stmt {
	var o [][]*Stmt
	add := func(s ...*Stmt) { o = append(o, s) }
	for _, x := range g.visible(role) {
		n := x.n
		if x.d == d {
			switch x.k {
			case "val":
				add(rp("%s = %s", n, v))
				add(rp("%s = %s", n, v))
				add(rp("%s = None", n))
			case "set", "gset":
				add(rp("%s.add(%s)", n, v))
				add(rp("%s.discard(%s)", n, v))
			case "bag":
				add(sif(fmt.Sprintf("len(%s) < 2", n), []*Stmt{rp("%s.add(%s)", n, v)}, []*Stmt{rp("%s.discard(%s)", n, v)}))
			case "list":
				add(sif(fmt.Sprintf("len(%s) < 2", n), []*Stmt{rp("%s.append(%s)", n, v)}, []*Stmt{rp("%s.pop()", n)}))
				add(rp("%s = [%s] + %s[0:1]", n, v, n))
			case "dict":
				add(rp("%s[%s] = (%s.get(%s, 0) + 1) %% 2", n, v, n, v))
				add(rp("%s.pop(%s, None)", n, v))
			case "gmap":
				add(rp("%s[%s] = 1", n, v))
				add(sif(fmt.Sprintf("%s in %s", v, n), []*Stmt{rp("%s.pop(%s)", n, v)}, nil))
			case "map":
				add(rp("%s[%s] = %s", n, v, v))
				add(rp("%s[%s] = None", n, v))
				for _, y := range g.visible(role) {
					if y.k == "val" {
						add(rp("%s[%s] = %s", n, v, y.n))
					}
				}
			case "rec":
				add(rp("%s.f = %s", n, v))
				add(rp("%s.n = 1 - %s.n", n, n))
			case "tup":
				add(rp("%s = (%s, %s[0])", n, v, n))
			case "stup":
				add(rp("%s = (%s,)", n, v))
			case "nest":
				add(sif(fmt.Sprintf("%s in %s", v, n), []*Stmt{rp("%s.pop(%s)", n, v)}, []*Stmt{rp("%s[%s] = [%s]", n, v, v)}))
				for _, y := range g.visible(role) {
					if y.k == "val" {
						add(rp("%s[%s] = struct(h=%s)", n, v, y.n))
						// A list and a set of the same values have the same identity (C16: identity-type-blind).
						add(rp("%s[%s] = struct(s=set([z for z in [%s] if z != None]))", n, v, y.n))
					}
				}
			}
		}
		if x.k == "set" || x.k == "gset" || x.k == "list" {
			for _, y := range g.visible(role) {
				if y.d == x.d && y.k == "dict" {
					add(&Stmt{K: SFor, Var: g.local(), E: rx("%s", n), Flow: FAtomic, Blk: blk(FAtomic, rp("%s[v%d] = 1", y.n, g.nl))})
				}
			}
		}
	}
	add(rp("c = (c + 1) %% 3"))
	if role {
		add(rp("self.u = 1 - self.u"))
	}
	if d.kind == "role" {
		add(rp("%s.u = 1 - %s.u", v, v))
	}
	if role {
		for i, f := range g.funcs {
			if g.fdom[i] == d {
				g.feats["call"] = true
				w := g.local()
				add(anyIn(w, rx("procs")), &Stmt{K: SCall, Recv: w, Fn: f, Args: []Arg{{E: rx("%s", v)}}})
			}
		}
	}
	return o[g.N(len(o))]
}

func (g *sgen) body(role bool, flow Flow) []*Stmt {
	var st []*Stmt
	if g.steps > 0 {
		st = append(st, &Stmt{K: SRequire, E: rx("n < %d", g.steps)}, rp("n = n + 1"))
	}
	n := g.W(3, 1) + 1
	if flow == FSerial {
		n = 1
	}
	for i := 0; i < n; i++ {
		d := pick(g.Src, g.doms)
		v, b := g.bind(d, role)
		st = append(st, b...)
		switch g.W(3, 2, 2) {
		case 1:
			st = append(st, &Stmt{K: SRequire, E: rx("%s", g.test(v, d, role))})
		case 2:
			var els []*Stmt
			if g.P(1, 2) {
				els = g.effect(v, d, role)
			}
			st = append(st, &Stmt{K: SIf, Conds: []Expr{rx("%s", g.test(v, d, role))}, Blks: []*Block{blk(FAtomic, g.effect(v, d, role)...)}})
			if els != nil {
				s := st[len(st)-1]
				s.Conds, s.Blks = append(s.Conds, nil), append(s.Blks, blk(FAtomic, els...))
			}
			continue
		}
		for j, m := 0, g.Range(1, 2); j < m; j++ {
			st = append(st, g.effect(v, d, role)...)
		}
	}
	return st
}

func genSym(s *Src) *sgen {
	g := &sgen{Src: s, sp: &Spec{}, feats: map[string]bool{}}
	nd := s.W(3, 1) + 1
	kinds := []string{"values", "nominal", "nominal", "ordinal", "interval", "rotational", "role", "role"}
	for i := 0; i < nd; i++ {
		d := &sdom{name: fmt.Sprintf("D%d", i), prefix: []string{"k", "p"}[i], kind: pick(s, kinds), limit: s.Range(2, 3)}
		if d.kind == "role" {
			if g.nroles > 0 {
				d.kind = "nominal"
			} else {
				g.nroles = s.Range(2, 3)
				d.limit = g.nroles
				if s.P(1, 2) {
					d.kind = "roleid"
				}
			}
		}
		g.feats[d.kind] = true
		mat := func() string {
			if s.P(1, 3) {
				d.mat = true
				g.feats["materialize"] = true
				return ", materialize=True"
			}
			return ""
		}
		refl := func() string {
			if s.P(1, 2) {
				d.refl = true
				g.feats[d.kind+" reflection"] = true
				return ", reflection=True"
			}
			return ""
		}
		switch d.kind {
		case "values":
			g.sp.Consts = append(g.sp.Consts, fmt.Sprintf("%s = symmetric_values('%s', %d)", d.name, d.prefix, d.limit))
		case "nominal":
			g.sp.Consts = append(g.sp.Consts, fmt.Sprintf("%s = symmetry.nominal(name='%s', limit=%d%s)", d.name, d.prefix, d.limit, mat()))
		case "ordinal":
			g.steps = s.Range(3, 4)
			g.sp.Consts = append(g.sp.Consts, fmt.Sprintf("%s = symmetry.ordinal(name='%s', limit=%d%s%s)", d.name, d.prefix, d.limit, mat(), refl()))
		case "interval":
			g.steps = s.Range(3, 4)
			var a string
			switch s.N(3) {
			case 0:
				a = fmt.Sprintf("limit=%d", d.limit)
			case 1:
				a = fmt.Sprintf("divergence=%d", d.limit)
				d.limit++
			default:
				a = fmt.Sprintf("divergence=%d, limit=%d", d.limit+s.N(2), d.limit)
			}
			if s.P(1, 3) {
				d.start = s.Range(1, 3)
				a += fmt.Sprintf(", start=%d", d.start)
			}
			g.sp.Consts = append(g.sp.Consts, fmt.Sprintf("%s = symmetry.interval(name='%s', %s%s%s)", d.name, d.prefix, a, mat(), refl()))
		case "rotational":
			d.limit = s.Range(3, 5)
			g.sp.Consts = append(g.sp.Consts, fmt.Sprintf("%s = symmetry.rotational(name='%s', limit=%d%s%s)", d.name, d.prefix, d.limit, mat(), refl()))
		}
		g.doms = append(g.doms, d)
	}
	if g.steps == 0 && (nd > 1 || s.P(3, 4)) {
		g.steps = s.Range(2, 4)
	}
	if g.nroles == 3 {
		g.steps = s.Range(2, 3)
		if nd > 1 {
			g.steps = 2
		}
	}
	for _, d := range g.doms {
		if d.kind == "rotational" && d.limit > 4 && g.steps > 3 {
			g.steps = 3
		}
	}
	serial := s.P(1, 3) && g.steps > 0 && g.nroles < 3
	if serial && g.steps > 2 && (nd > 1 || s.P(1, 2)) {
		g.steps = 2
	}
	g.maxconc = 2
	if serial && g.steps > 2 {
		g.maxconc = 1
	}
	init := blk(FAtomic, rp("c = 0"))
	if g.steps > 0 {
		init.Stmts = append(init.Stmts, rp("n = 0"))
	}
	vk := []string{"val", "val", "set", "list", "bag", "gset", "dict", "map", "gmap", "rec", "tup", "stup", "nest"}
	usable := func(k string, d *sdom) bool {
		return true
	}
	mkVars := func(n int, pre string) []svar {
		var r []svar
		for i := 0; i < n; i++ {
			x := svar{n: fmt.Sprintf("%s%d", pre, i), k: pick(s, vk), d: pick(s, g.doms)}
			if i < len(g.doms) && pre == "x" {
				x.d = g.doms[i]
			}
			if !usable(x.k, x.d) {
				x.k = "val"
			}
			r = append(r, x)
		}
		return r
	}
	nv := s.Range(len(g.doms), 3)
	if g.steps == 0 {
		nv = 1
	}
	g.vars = mkVars(nv, "x")
	for _, x := range g.vars {
		init.Stmts = append(init.Stmts, g.init(x)...)
		g.feats["in "+x.k] = true
	}
	// First values: whatever they are, the step functions do not know.
	for _, x := range g.vars {
		d := x.d
		if d.kind == "role" || d.kind == "roleid" {
			continue
		}
		first := d.kind == "rotational" || d.kind == "interval" && d.refl || s.P(1, 3)
		if !first {
			continue
		}
		e := d.name + ".fresh()"
		if d.kind == "values" {
			e = fmt.Sprintf("list(%s)[%d]", d.name, s.N(d.limit))
		} else if d.mat {
			e = d.name + ".values()[" + itoa(s.N(d.limit)) + "]"
		}
		switch x.k {
		case "val":
			init.Stmts = append(init.Stmts, rp("%s = %s", x.n, e))
		case "set", "gset", "bag":
			init.Stmts = append(init.Stmts, rp("%s.add(%s)", x.n, e))
		case "list":
			init.Stmts = append(init.Stmts, rp("%s.append(%s)", x.n, e))
		case "dict", "map", "gmap":
			init.Stmts = append(init.Stmts, rp("%s[%s] = 1", x.n, e))
			if x.k == "map" {
				init.Stmts[len(init.Stmts)-1] = rp("%s[%s] = None", x.n, e)
			}
		case "rec":
			init.Stmts = append(init.Stmts, rp("%s.f = %s", x.n, e))
		case "tup":
			init.Stmts = append(init.Stmts, rp("%s = (%s, None)", x.n, e))
		case "stup":
			init.Stmts = append(init.Stmts, rp("%s = (%s,)", x.n, e))
		case "nest":
			init.Stmts = append(init.Stmts, rp("z = %s", e), rp("%s[z] = [z]", x.n))
		}
	}
	flow := func() Flow {
		if serial && s.P(1, 2) {
			g.feats["serial"] = true
			return FSerial
		}
		return FAtomic
	}
	if g.nroles > 0 {
		rd := &RoleDef{Name: "Proc", Symmetric: true}
		g.sp.Roles = append(g.sp.Roles, rd)
		if g.steps > 0 {
			g.rvars = mkVars(s.N(2), "self.y")
		}
		ri := []*Stmt{rp("self.u = 0")}
		for _, x := range g.rvars {
			ri = append(ri, g.init(x)...)
			g.feats["role field "+x.k] = true
		}
		rd.Actions = append(rd.Actions, &Action{Name: "Init", Flow: FAtomic, Blk: blk(FAtomic, ri...)})
		g.procs = pick(s, []string{"bag", "set", "list"})
		c := map[string]string{"bag": "bag()", "set": "set()", "list": "[]"}[g.procs]
		init.Stmts = append(init.Stmts, rp("procs = %s", c))
		for i := 0; i < g.nroles; i++ {
			v := fmt.Sprintf("r%d", i)
			m := "add"
			if g.procs == "list" {
				m = "append"
			}
			init.Stmts = append(init.Stmts, &Stmt{K: SNew, Var: v, Role: "Proc"}, rp("procs.%s(%s)", m, v), rp("%s = 0", v))
		}
		g.feats["instances in a "+g.procs] = true
		if s.P(1, 3) {
			d := pick(s, g.doms)
			st := g.effect("z", d, true)
			g.funcs, g.fdom = []string{"F0"}, []*sdom{d}
			rd.Funcs = append(rd.Funcs, &Func{Name: "F0", Flow: FAtomic, Params: []Param{{Name: "z"}}, Blk: blk(FAtomic, st...)})
		}
		for i, n := 0, s.Range(1, 2); i < n; i++ {
			f := flow()
			rd.Actions = append(rd.Actions, act(fmt.Sprintf("R%d", i), f, g.body(true, f)...))
		}
	}
	g.sp.Init = init
	for i, n := 0, s.Range(1, 2); i < n; i++ {
		f := flow()
		g.sp.Actions = append(g.sp.Actions, act(fmt.Sprintf("A%d", i), f, g.body(false, f)...))
	}
	return g
}

// ---- canonical form of a state ----

type stree struct {
	k  byte // a: atom, s: symmetric, l: sequence, u: unordered, d: map
	s  string
	id int64
	ch []*stree
	ks []*stree
}

type symScan struct {
	used map[string]map[int64]bool
	role map[*lib.Role]bool
}

func (sc *symScan) sym(prefix string, id int64) *stree {
	if sc.used[prefix] == nil {
		sc.used[prefix] = map[int64]bool{}
	}
	sc.used[prefix][id] = true
	return &stree{k: 's', s: prefix, id: id}
}

func (sc *symScan) tree(v starlark.Value) *stree {
	seq := func(k byte, x starlark.Iterable) *stree {
		t := &stree{k: k, s: v.Type()}
		it := x.Iterate()
		defer it.Done()
		var e starlark.Value
		for it.Next(&e) {
			t.ch = append(t.ch, sc.tree(e))
		}
		return t
	}
	dict := func(items []starlark.Tuple) *stree {
		t := &stree{k: 'd', s: v.Type()}
		for _, it := range items {
			t.ks = append(t.ks, sc.tree(it[0]))
			t.ch = append(t.ch, sc.tree(it[1]))
		}
		return t
	}
	attrs := func(d starlark.StringDict) *stree {
		t := &stree{k: 'd', s: v.Type()}
		for k, x := range d {
			t.ks = append(t.ks, &stree{k: 'a', s: k})
			t.ch = append(t.ch, sc.tree(x))
		}
		return t
	}
	switch x := v.(type) {
	case *lib.SymmetricValue:
		return sc.sym(x.GetPrefix(), x.GetId())
	case *starlark.List:
		return seq('l', x)
	case starlark.Tuple:
		return seq('l', x)
	case *starlark.Set:
		return seq('u', x)
	case *lib.GenericSet:
		return seq('u', x)
	case *lib.Bag:
		return seq('u', x)
	case *starlark.Dict:
		return dict(x.Items())
	case *lib.GenericMap:
		return dict(x.Items())
	case *lib.Struct:
		d := starlark.StringDict{}
		x.ToStringDict(d)
		return attrs(d)
	case *starlarkstruct.Struct:
		d := starlark.StringDict{}
		x.ToStringDict(d)
		return attrs(d)
	case *lib.Role:
		t := &stree{k: 'l', s: "role " + x.Name}
		if x.IsSymmetric() {
			t.ch = append(t.ch, sc.sym(x.Name, x.GetRef()))
		} else {
			t.ch = append(t.ch, &stree{k: 'a', s: x.RefString()})
		}
		return t
	case starlark.NoneType, starlark.Bool, starlark.Int, starlark.String:
		return &stree{k: 'a', s: v.String()}
	}
	panic("symmetry tree of " + v.Type())
}

func (t *stree) text(m map[string]map[int64]int64) string {
	switch t.k {
	case 'a':
		return t.s
	case 's':
		if n, ok := m[t.s]; ok {
			return fmt.Sprintf("%s#%d", t.s, n[t.id])
		}
		return fmt.Sprintf("%s#%d", t.s, t.id)
	}
	var l []string
	for i, c := range t.ch {
		x := c.text(m)
		if t.k == 'd' {
			x = t.ks[i].text(m) + ":" + x
		}
		l = append(l, x)
	}
	if t.k != 'l' {
		sort.Strings(l)
	}
	return t.s + "(" + strings.Join(l, ",") + ")"
}

func perms(n int) [][]int64 {
	if n == 0 {
		return [][]int64{{}}
	}
	var r [][]int64
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int64{}, p[:i]...), int64(n-1)), p[i:]...)
			r = append(r, q)
		}
	}
	return r
}

// maps: the renamings that have to be tried.
func (g *sgen) maps(prefix string, used map[int64]bool) []map[int64]int64 {
	var ids []int64
	for i := range used {
		ids = append(ids, i)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	var d *sdom
	for _, x := range g.doms {
		if x.prefix == prefix && x.kind != "role" && x.kind != "roleid" {
			d = x
		}
	}
	kind := "nominal"
	if d != nil {
		kind = d.kind
	}
	var r []map[int64]int64
	by := func(f func(i int, id int64) int64) {
		m := map[int64]int64{}
		for i, id := range ids {
			m[id] = f(i, id)
		}
		r = append(r, m)
	}
	n := len(ids)
	if d != nil && d.mat && (kind == "ordinal" || kind == "interval") {
		kind = "fixed"
	}
	switch kind {
	case "fixed":
		by(func(i int, id int64) int64 { return id - int64(d.start) })
		if d.refl {
			by(func(i int, id int64) int64 { return int64(d.limit-1) - (id - int64(d.start)) })
		}
	case "ordinal":
		by(func(i int, id int64) int64 { return int64(i) })
		if d.refl {
			by(func(i int, id int64) int64 { return int64(n - 1 - i) })
		}
	case "interval":
		by(func(i int, id int64) int64 { return id - ids[0] })
		if d.refl {
			by(func(i int, id int64) int64 { return ids[n-1] - id })
		}
	case "rotational":
		l := int64(d.limit)
		for s := int64(0); s < l; s++ {
			by(func(i int, id int64) int64 { return (id + s) % l })
			if d.refl {
				by(func(i int, id int64) int64 { return (2*l - id + s) % l })
			}
		}
	default:
		for _, p := range perms(n) {
			by(func(i int, id int64) int64 { return p[i] })
		}
	}
	return r
}

func (g *sgen) canon(n *mc.Node, names []string) string {
	sc := &symScan{used: map[string]map[int64]bool{}}
	t := &stree{k: 'u', s: "state"}
	for _, k := range names {
		v := n.Heap.GetValue(k)
		if v == nil {
			continue
		}
		t.ch = append(t.ch, &stree{k: 'l', s: k, ch: []*stree{sc.tree(v)}})
	}
	for _, r := range n.Roles {
		t.ch = append(t.ch, &stree{k: 'l', s: "instance", ch: []*stree{sc.tree(r), sc.tree(r.Fields)}})
	}
	var ps []string
	for p := range sc.used {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	best := ""
	m := map[string]map[int64]int64{}
	var rec func(i int)
	rec = func(i int) {
		if i == len(ps) {
			if x := t.text(m); best == "" || x < best {
				best = x
			}
			return
		}
		for _, f := range g.maps(ps[i], sc.used[ps[i]]) {
			m[ps[i]] = f
			rec(i + 1)
		}
	}
	rec(0)
	return fmt.Sprintf("%s t%d", best, n.GetThreadsCount())
}

var reSymInst = regexp.MustCompile(`Proc#\d+`)
var reSymVal = regexp.MustCompile(`(Any|For):(\w+)=[^|]*`)

// symGraph: the explored graph with states in canonical form and without identities in the names of steps.
func (g *sgen) symGraph(root *mc.Node, names []string) *Graph {
	gr, nodes := extract2(root, false)
	for i, n := range nodes {
		if gr.N[i].Obs != "root" {
			gr.N[i].Obs = g.canon(n, names)
		}
		for j := range gr.N[i].Out {
			l := reSymInst.ReplaceAllString(gr.N[i].Out[j].L, "Proc#")
			gr.N[i].Out[j].L = reSymVal.ReplaceAllString(l, "$1:$2")
		}
	}
	return gr
}

func (g *sgen) varNames() []string {
	names := []string{"c", "n", "procs", "z", "r0", "r1", "r2"}
	for _, x := range g.vars {
		names = append(names, x.n)
	}
	return names
}

func init() {
	register(&Prop{ID: "C11", Quick: 2500, Thorough: 200000,
		Rule: "without reduction there are more states than with it, at least two of the latter, and a state with two successors",
		Run:  runC11,
		Fixed: []func(c *Case){
			func(c *Case) { // what fresh() returns is not determined by the state
				req := func(e string) *Stmt { return &Stmt{K: SRequire, E: rx("%s", e)} }
				sp := &Spec{Consts: []string{"D = symmetry.rotational(name='k', limit=4)"},
					Init: blk(FAtomic, rp("n = 0"), rp("x = D.fresh()"), rp("y = D.fresh()"), rp("z = None")),
					Actions: []*Action{
						act("Z", FAtomic, req("n == 0"), rp("n = 1"), rp("z = D.fresh()")),
						act("N", FAtomic, req("n == 0"), rp("n = 1"), rp("z = y")),
						act("F", FAtomic, req("n == 1"), rp("n = 2"), rp("y = None"), rp("z = None")),
						act("Y", FAtomic, req("n == 2"), rp("n = 3"), rp("y = D.fresh()"))},
					Asserts: []Assertion{{Name: "P", Kind: "always", E: rx("n < 3 or y - x == 2")}, {Name: "Q", Kind: "always", E: rx("n < 3 or y - x == 3")}}}
				c.Sample(sp.Text())
				for i := range sp.Asserts {
					one := *sp
					one.Asserts = sp.Asserts[i : i+1]
					o := Opts{MaxActions: 20, MaxConc: 1, Strategy: "dfs", NoSym: true, NoDeadlock: true}
					full := runImpl(one.File(), o).Failed != nil
					walk := false
					o.Sim = true
					for o.Seed = 1; o.Seed < 40; o.Seed++ {
						walk = walk || runImpl(one.File(), o).Failed != nil
					}
					if full != walk {
						c.Known("rotational-fresh-history", "exhaustive exploration fails: %v, random walks fail: %v", full, walk)
					}
				}
			},
		}})
}

func runC11(c *Case) {
	g := genSym(c.Src)
	o := Opts{MaxActions: 1000000, MaxConc: g.maxconc, Strategy: pick(c.Src, []string{"", "", "dfs", "random"}), Seed: 1}
	asserts := g.asserts()
	text := g.sp.Text()
	for _, a := range asserts {
		text += fmt.Sprintf("%s assertion %s: %s\n", a.Kind, a.Name, a.E.Str())
	}
	c.Sample(text)
	for f := range g.feats {
		c.Label(f)
	}
	off := o
	off.NoSym = true
	both := func(what string) (*Run, *Run) {
		file := g.sp.File()
		a, b := runImpl(file, o), runImpl(file, off)
		for _, r := range []*Run{a, b} {
			if r.Err != nil {
				c.Fail("error: %v", r.Err)
			}
		}
		if a.Panic != "" || b.Panic != "" {
			pa, pb := errKind(a.Panic), errKind(b.Panic)
			if pa != "" && pb != "" && strings.Contains(pa, "Error") {
				c.Discard("model-error " + pa)
			}
			c.Fail("%s: with reduction: %q, without: %q", what, a.Panic, b.Panic)
		}
		return a, b
	}
	a, b := both("exploration")
	names := g.varNames()
	ga, gb := g.symGraph(a.Init, names), g.symGraph(b.Init, names)
	if d := diffGraphs("with reduction", "without", ga, gb); d != "" {
		c.Fail("the reduced graph is not an image of the full one: %s", d)
	}
	if n, _, _, _ := mc.GetAllNodes(b.Init, int64(o.MaxActions)); len(n) == 0 {
		c.Discard("Init is never enabled")
	}
	deadlock := func(r *Run) string {
		_, _, dl, _ := mc.GetAllNodes(r.Init, int64(o.MaxActions))
		if dl == nil {
			return "none"
		}
		return g.canon(dl, names)
	}
	da, db := deadlock(a), deadlock(b)
	if (da == "none") != (db == "none") {
		c.Fail("deadlock with reduction: %s, without: %s", da, db)
	}
	if da != "none" {
		c.Label("deadlock")
	}
	sp := *g.sp
	for _, as := range asserts {
		g.sp.Asserts = []Assertion{as}
		a, b := both("with " + as.Name)
		fa, fb := a.Failed != nil, b.Failed != nil
		if as.Kind == "exists" {
			na, _, _, _ := mc.GetAllNodes(a.Init, int64(o.MaxActions))
			nb, _, _, _ := mc.GetAllNodes(b.Init, int64(o.MaxActions))
			fa, fb = len(mc.CheckSimpleExistsWitness(na)) > 0, len(mc.CheckSimpleExistsWitness(nb)) > 0
		}
		if fa != fb {
			c.Fail("%s assertion %s: %s: fails with reduction: %v, without: %v", as.Kind, as.Name, as.E.Str(), fa, fb)
		}
		c.Label(fmt.Sprintf("%s fails %v", as.Kind, fa))
	}
	g.sp.Asserts = sp.Asserts
	if len(ga.N) < len(gb.N) && len(ga.N) > 2 {
		for _, n := range ga.N {
			if len(n.Out) > 1 {
				c.NonTrivial(g.sp.Text())
				break
			}
		}
	}
}

func errKind(p string) string {
	if i := strings.Index(p, "\n"); i >= 0 {
		p = p[:i]
	}
	return p
}

// asserts: symmetric predicates over states and pairs of states.
func (g *sgen) asserts() []Assertion {
	var r []Assertion
	vars := g.vars
	named := func(pre string) {
		g.pre, g.vars = pre, nil
		for _, x := range vars {
			x.n = pre + x.n
			g.vars = append(g.vars, x)
		}
	}
	term := func(vp, np string) string {
		named(np)
		if v := pick(g.Src, vars); v.k == "val" && g.P(2, 3) {
			return fmt.Sprintf("(%s%s == None or %s)", vp, v.n, g.test(vp+v.n, v.d, false))
		}
		return g.test("", nil, false)
	}
	join := func(t func() string) string {
		e := t()
		if g.P(1, 2) {
			e = fmt.Sprintf("(%s) %s (%s)", e, pick(g.Src, []string{"and", "or"}), t())
		}
		if g.P(1, 3) {
			e = "not (" + e + ")"
		}
		return e
	}
	for i, n := 0, g.Range(1, 2); i < n; i++ {
		k := pick(g.Src, []string{"always", "transition", "transition", "exists"})
		a := Assertion{Name: fmt.Sprintf("P%d", i), Kind: k}
		var e string
		if k != "transition" {
			e = join(func() string { return term("", "") })
		} else {
			e = join(func() string {
				x := pick(g.Src, vars)
				switch g.N(4) {
				case 0:
					return fmt.Sprintf("before.%s %s after.%s", x.n, pick(g.Src, []string{"==", "!="}), x.n)
				case 1:
					return term("after.", "before.")
				case 2:
					if g.nroles > 0 {
						return "[z for z in before.procs if z.u == 1] == [z for z in after.procs if z.u == 1]"
					}
				}
				return term("before.", "after.")
			})
		}
		a.E = rx("%s", e)
		if k != "transition" && g.P(1, 2) {
			a.Blk = blk(FAtomic, &Stmt{K: SReturn, E: a.E})
		}
		r = append(r, a)
	}
	named("")
	g.vars = vars
	return r
}
