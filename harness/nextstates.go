package main

import (
	"fmt"
	"slices"
	"sort"
	"strings"

	"github.com/fizzbee-io/fizzbee/lib"
	mc "github.com/fizzbee-io/fizzbee/modelchecker"
	"go.starlark.net/starlark"
	"go.starlark.net/starlarkstruct"
)

// C17: an assertion hands the state under check and the result of next_states() to a function of the harness, which
// is made available to models as a built-in. The reference says what has to be in it.

var nsSink func(vars starlark.StringDict, next *starlark.List)

func init() {
	// vh_next(next_states(), {"a": a, ..})
	starlark.Universe["vh_next"] = starlark.NewBuiltin("vh_next", func(t *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kw []starlark.Tuple) (starlark.Value, error) {
		d := starlark.StringDict{}
		for _, k := range kw {
			d[string(k[0].(starlark.String))] = k[1]
		}
		if nsSink != nil {
			nsSink(d, args[0].(*starlark.List))
		}
		return starlark.True, nil
	})
	register(&Prop{ID: "C17", Quick: 600, Thorough: 150000,
		Rule: "at least three states, one of them with at least two transitions of different names",
		Run:  runC17})
}

// starObs: text of variables and of the role instances that can be reached from them.
func starObs(d starlark.StringDict, names []string) string {
	vars := starlark.StringDict{}
	roles := map[string]*lib.Role{}
	var walk func(v starlark.Value)
	walk = func(v starlark.Value) {
		switch x := v.(type) {
		case *lib.Role:
			if roles[x.RefStringShort()] == nil {
				roles[x.RefStringShort()] = x
				walk(x.Fields)
				walk(x.Params)
			}
		case *lib.Struct:
			f := starlark.StringDict{}
			x.ToStringDict(f)
			for _, y := range f {
				walk(y)
			}
		case *starlarkstruct.Struct:
			f := starlark.StringDict{}
			x.ToStringDict(f)
			for _, y := range f {
				walk(y)
			}
		case *starlark.Dict:
			for _, it := range x.Items() {
				walk(it[0])
				walk(it[1])
			}
		case *lib.GenericMap:
			for _, it := range x.Items() {
				walk(it[0])
				walk(it[1])
			}
		case starlark.String:
		case starlark.Iterable:
			it := x.Iterate()
			defer it.Done()
			var y starlark.Value
			for it.Next(&y) {
				walk(y)
			}
		}
	}
	for _, n := range names {
		if v := d[n]; v != nil {
			vars[n] = v
			walk(v)
		}
	}
	var b strings.Builder
	b.WriteString(mc.StringDictToJsonString(vars))
	var rs []string
	for r := range roles {
		rs = append(rs, r)
	}
	sort.Strings(rs)
	for _, r := range rs {
		b.WriteString(" " + r + roleJSON(roles[r]))
	}
	return b.String()
}

// varObs: the same of a configuration of the reference.
func (c *Conf) varObs(names []string) string {
	vars := map[string]*V{}
	roles := map[int]bool{}
	var walk func(v *V)
	walk = func(v *V) {
		if v == nil {
			return
		}
		if v.K == VRole && !roles[v.R] {
			roles[v.R] = true
			walk(c.Roles[v.R].Fields)
			walk(c.Roles[v.R].Params)
		}
		for _, l := range [][]*V{v.L, v.DK, v.DV} {
			for _, x := range l {
				walk(x)
			}
		}
	}
	for _, n := range names {
		if v := c.G[n]; v != nil {
			vars[n] = v
			walk(v)
		}
	}
	var b strings.Builder
	canonMap(&b, vars, c.roleName)
	var rs []string
	m := map[string]*RoleI{}
	for i := range roles {
		rs = append(rs, c.Roles[i].Ref())
		m[c.Roles[i].Ref()] = c.Roles[i]
	}
	sort.Strings(rs)
	for _, r := range rs {
		b.WriteString(" " + r)
		m[r].canon(&b, c)
	}
	return b.String()
}

// nextOf: the transitions of a configuration without any limits.
func nextOf(s *Spec, q Quirks, x *Conf, names []string) []string {
	r := &Ref{S: s, Q: q, MaxConc: 1 << 20, Limit: 1 << 20}
	var l []string
	seen := map[string]bool{}
	bases := []*Conf{x}
	if len(x.Forks) > 0 {
		bases = x.Forks
	}
	var outs []Outcome
	for _, b := range bases {
		for i, t := range b.T {
			if t == nil {
				continue
			}
			outs = append(outs, r.resume(b, i)...)
		}
		outs = append(outs, r.deliveries(b)...)
		outs = append(outs, r.actions(b)...)
	}
	for _, o := range outs {
		n := strings.SplitN(o.Path[0], "=>", 2)[0]
		kind, role, act := "action", "None", n
		if n == "thread" {
			kind, act = "thread", "None"
		} else if strings.HasPrefix(n, "channel-") {
			kind, act = "channel", "None"
		} else if i := strings.Index(n, "."); i >= 0 {
			role, act = n[:i], n[i+1:]
		}
		// Transitions that differ only in what an assertion cannot see count as one.
		if t := fmt.Sprintf("%s kind=%s role=%s action=%s: %s", n, kind, role, act, o.C.varObs(names)); !seen[t] {
			seen[t] = true
			l = append(l, t)
		}
	}
	sort.Strings(l)
	return l
}

func retKey(m map[string]*V) string {
	if len(m) == 0 {
		return ""
	}
	var b strings.Builder
	canonMap(&b, m, func(i int) string { return fmt.Sprint("role", i) })
	return b.String()
}

func runC17(c *Case) {
	var g *Gen
	switch c.W(4, 1, 1) {
	case 0:
		cfg := verdictCfg(c)
		cfg.Calls = c.P(1, 6)
		g = genSpec(c.Src, cfg)
	case 1:
		x := genCalls(c.Src)
		g = x.gen()
		c.Label("calls")
	default:
		x := genMsgs(c.Src, c.Range(1, 2))
		g = x.gen()
		c.Label("channels")
	}
	o := opts01(g)
	base := o
	rg := truth(c, g.S, o)
	// The variables that all states have.
	cnt := map[string]int{}
	nc := 0
	rg.visit(func(x *Conf, rets map[string]*V) {
		nc++
		for k := range x.G {
			cnt[k]++
		}
	})
	var names []string
	for k, n := range cnt {
		if n == nc {
			names = append(names, k)
		}
	}
	sort.Strings(names)
	// What is expected of the states that look alike.
	expect := map[string]map[string]bool{}
	quirk := map[string]map[string]bool{}
	add := func(m map[string]map[string]bool, q Quirks, x *Conf, k string) []string {
		l := nextOf(g.S, q, x, names)
		if m[k] == nil {
			m[k] = map[string]bool{}
		}
		m[k][strings.Join(l, "\n")] = true
		return l
	}
	branch := false
	seen := map[*Conf]bool{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r.(type) {
				case evalErr, tooBig:
					c.Discard("model-error without limits")
				}
				panic(r)
			}
		}()
		rg.visit(func(x *Conf, rets map[string]*V) {
			if seen[x] {
				return
			}
			seen[x] = true
			k := x.varObs(names)
			l := add(expect, Quirks{}, x, k)
			add(quirk, Quirks{ForkReset: true}, x, k)
			if len(l) > 1 && strings.Fields(l[0])[0] != strings.Fields(l[len(l)-1])[0] {
				branch = true
			}
		})
	}()

	// The assertion, among others.
	var args []string
	for _, n := range names {
		args = append(args, n+"="+n)
	}
	call := rx("vh_next(%s)", strings.Join(append([]string{"next_states()"}, args...), ", "))
	switch g.N(3) {
	case 0:
		o.MaxActions = g.Range(1, 4)
	case 1:
		o.Act = map[string]ActOpt{}
		for _, a := range g.S.Actions {
			if g.P(1, 2) {
				o.Act[a.Name] = ActOpt{MaxConc: g.N(2), MaxActions: g.N(3)}
			}
		}
	}
	mode := pick(g.Src, []string{"", "", "pq", "nograph", "sim", "dfs", "random"})
	switch mode {
	case "pq":
		o.PQ = true
	case "nograph":
		o.NoGraph, o.PQ = true, true
	case "sim":
		o.Sim, o.Seed = true, int64(g.N(1000)+1)
	default:
		o.Strategy, o.Seed = mode, 1
	}
	o.NoDeadlock = true
	c.Label("mode " + mode)
	with := *g.S
	a := Assertion{Name: "Next", Kind: "always", E: call}
	switch g.N(4) {
	case 0:
		// One that changes what it is given
		with.Asserts = append(with.Asserts, Assertion{Name: "Other", Kind: "always", E: rx("len([z for z in next_states() if z.kind == 'none']) == 0")})
	case 1:
		a.Blk = blk(FAtomic, rp("l = next_states()"), &Stmt{K: SReturn, E: rx("len(l) >= 0 and %s", call.Str())})
	case 2:
		a.Kind = "always"
		with.Asserts = append(with.Asserts, Assertion{Name: "Other", Kind: "exists", E: rx("True")})
	}
	with.Asserts = append(with.Asserts, a)
	plain := *g.S
	for _, x := range with.Asserts {
		x.E, x.Blk = B(true), nil
		plain.Asserts = append(plain.Asserts, x)
	}
	bare := runImpl(plain.File(), o)
	if bare.Panic != "" || bare.Err != nil {
		c.Fail("the checker failed on a correct specification: %v %s", bare.Err, bare.Panic)
	}
	c.Sample(fmt.Sprintf("maxconc=%d maxactions=%d act=%v mode=%s\n%s", o.MaxConc, o.MaxActions, o.Act, mode, with.Text()))
	var bad string
	got := map[string]bool{}
	nq := 0
	nsSink = func(vars starlark.StringDict, next *starlark.List) {
		if bad != "" {
			return
		}
		k := starObs(vars, names)
		var l []string
		for i := 0; i < next.Len(); i++ {
			n := next.Index(i).(*starlarkstruct.Struct)
			at := func(f string) starlark.Value { v, _ := n.Attr(f); return v }
			str := func(f string) string {
				if s, ok := starlark.AsString(at(f)); ok {
					return s
				}
				return at(f).String()
			}
			st := starlark.StringDict{}
			at("state").(*starlarkstruct.Struct).ToStringDict(st)
			role := str("role_ref")
			if rid := at("role_id"); (rid == starlark.None) != (role == "None") {
				bad = fmt.Sprintf("in %s: %s has role_ref %s and role_id %s", k, str("name"), role, rid)
			} else if rid != starlark.None {
				nm, _ := rid.(starlark.HasAttrs).Attr("name")
				ix, _ := rid.(starlark.HasAttrs).Attr("index")
				if id := fmt.Sprintf("%s#%s", strings.Trim(nm.String(), `"`), ix); id != role {
					bad = fmt.Sprintf("in %s: %s has role_ref %s and role_id %s", k, str("name"), role, id)
				}
			}
			l = append(l, fmt.Sprintf("%s kind=%s role=%s action=%s: %s", normName(str("name")), str("kind"), role, str("action_name"), starObs(st, names)))
		}
		sort.Strings(l)
		l = slices.Compact(l)
		t := strings.Join(l, "\n")
		got[k] = true
		if expect[k] == nil {
			bad = fmt.Sprintf("next_states() was evaluated in a state that is not reachable: %s", k)
		} else if !expect[k][t] {
			if quirk[k][t] {
				nq++
				return
			}
			var e []string
			for x := range expect[k] {
				e = append(e, x)
			}
			sort.Strings(e)
			bad = fmt.Sprintf("in state %s\n next_states() lists\n  %s\n instead of\n  %s", k, strings.Join(l, "\n  "), strings.ReplaceAll(strings.Join(e, "\n or\n"), "\n", "\n  "))
		}
	}
	run := runImpl(with.File(), o)
	nsSink = nil
	if bad != "" {
		c.Fail("%s", bad)
	}
	if run.Panic != "" || run.Err != nil {
		c.Fail("the checker failed with the assertion: %v %s", run.Err, run.Panic)
	}
	if run.Failed != nil {
		c.Fail("an assertion that always holds is reported as violated")
	}
	if nq > 0 {
		c.Known("enabled-forgotten-at-choice", "next_states()")
	}
	if x, y := runDigest(bare), runDigest(run); x != y {
		c.Fail("exploration differs when next_states() is used: %s", firstDiff(x, y))
	}
	if mode != "sim" && o.MaxActions == base.MaxActions && o.Act == nil {
		for k := range expect {
			if !got[k] {
				c.Fail("next_states() was not evaluated in state %s", k)
			}
		}
	}
	if len(got) >= 3 && branch {
		c.NonTrivial(g.S.Text())
	}
	featLabels(c, g)
}
