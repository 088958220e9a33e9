package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/fizzbee-io/fizzbee/lib"
	"go.starlark.net/starlark"
)

// C22: symmetric value domains against their algebra, over usage histories.
//
// A history is a sequence of transitions. Each has a context that knows the values in use (those kept from the
// earlier transitions), in which domain operations are called one after the other.

func init() {
	register(&Prop{ID: "C22", Quick: 200000, Thorough: 600000,
		Rule: "a history with at least three fresh values (or a materialized domain) and two transitions, or a rotation/reflection relation over at least three values",
		Run:  runC22, Fixed: []func(c *Case){
			func(c *Case) { ordinalDeep(c, false) },
			func(c *Case) { ordinalDeep(c, true) },
		}})
}

type dom struct {
	c     *Case
	env   starlark.StringDict
	kind  string
	name  string
	limit int
	div   int
	start int
	mat   bool
	ctx   *lib.SymmetryContext
	used  map[int64]bool // in use (model of the context)
	last  map[string]int64
	log   []string
	fresh int
}

func (d *dom) failf(f string, a ...any) {
	d.c.Fail("%s\n%s", fmt.Sprintf(f, a...), strings.Join(d.log, "\n"))
}

func (d *dom) eval(expr string) (v starlark.Value, err error) {
	th := &starlark.Thread{Name: "c22"}
	th.SetLocal(lib.SymmetryContextKey, d.ctx)
	defer func() {
		if r := recover(); r != nil {
			d.log = append(d.log, expr)
			d.failf("panic: %v", r)
		}
	}()
	v, err = starlark.EvalOptions(biOpts, th, "op", expr, d.env)
	t := expr + " -> "
	if err != nil {
		t += "error: " + err.Error()
	} else {
		t += v.String()
	}
	d.log = append(d.log, t)
	return
}

func (d *dom) ids() []int64 {
	var l []int64
	for i := range d.used {
		l = append(l, i)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

func (d *dom) id(v starlark.Value) int64 {
	s, ok := v.(*lib.SymmetricValue)
	if !ok {
		d.failf("%s is not a value of the domain", v.String())
	}
	if s.GetPrefix() != d.name || string(s.GetKind()) != d.kind {
		d.failf("%s is a value of %q (%s)", v.String(), s.GetPrefix(), s.GetKind())
	}
	return s.GetId()
}

func (d *dom) list(v starlark.Value) []int64 {
	l, ok := v.(*starlark.List)
	if !ok {
		d.failf("not a list: %s", v.Type())
	}
	var r []int64
	for i := 0; i < l.Len(); i++ {
		r = append(r, d.id(l.Index(i)))
	}
	return r
}

// newID checks a value returned as fresh and adds it.
func (d *dom) newID(n int64) {
	if d.used[n] {
		d.failf("fresh value %d is already in use", n)
	}
	l := d.ids()
	switch d.kind {
	case "nominal":
		for i := int64(0); i < n; i++ {
			if !d.used[i] {
				d.failf("the smallest unused value is %d, fresh() returned %d", i, n)
			}
		}
	case "ordinal":
		if len(l) > 0 && n <= l[len(l)-1] {
			d.failf("fresh value %d is not after %d", n, l[len(l)-1])
		}
	case "interval":
		w := int64(d.start)
		if len(l) > 0 {
			w = l[len(l)-1] + 1
		}
		if n != w {
			d.failf("fresh value %d, expected %d", n, w)
		}
	case "rotational":
		if n < 0 || n >= int64(d.limit) {
			d.failf("fresh value %d is not on the ring of %d", n, d.limit)
		}
	}
	d.used[n] = true
	d.fresh++
}

// canFresh: whether a fresh value exists.
func (d *dom) canFresh() bool {
	if len(d.used) >= d.limit {
		return false
	}
	if l := d.ids(); d.kind == "interval" && len(l) > 0 && l[len(l)-1]+1-l[0] > int64(d.div) {
		return false
	}
	return true
}

func (d *dom) materialized() {
	if !d.mat || len(d.used) >= d.limit {
		return
	}
	for i := 0; i < d.limit; i++ {
		k := int64(i)
		if d.kind == "interval" {
			k += int64(d.start)
		}
		d.used[k] = true
	}
}

func (d *dom) doFresh() {
	v, err := d.eval("D.fresh()")
	switch {
	case d.mat:
		if err == nil {
			d.failf("fresh() of a materialized domain returned %s", v.String())
		}
	case !d.canFresh():
		if err == nil {
			d.failf("fresh() returned %s although the limit is reached (%v in use)", v.String(), d.ids())
		}
		if !lib.IsDisableTransitionError(err) {
			d.failf("fresh() at the limit is an error that does not disable the transition: %v", err)
		}
		d.c.Label("limit reached")
	case err != nil:
		d.failf("fresh() failed with %v in use", d.ids())
	default:
		d.newID(d.id(v))
	}
}

func runC22(c *Case) {
	switch c.W(10, 2, 2) {
	case 1:
		c22ctor(c)
		return
	case 2:
		c22canon(c)
		return
	}
	d := &dom{c: c, env: starlark.StringDict{}, last: map[string]int64{}, used: map[int64]bool{}}
	for k, v := range lib.Builtins {
		d.env[k] = v
	}
	d.kind = pick(c.Src, []string{"nominal", "ordinal", "interval", "rotational"})
	d.name = "v"
	d.limit = c.Range(1, 5)
	d.mat = c.P(1, 4)
	args := fmt.Sprintf("name = %q, limit = %d", d.name, d.limit)
	if d.kind == "rotational" && d.limit < 2 {
		d.limit = 2
		args = fmt.Sprintf("name = %q, limit = %d", d.name, d.limit)
	}
	if d.kind == "interval" {
		d.div = d.limit - 1
		switch c.N(3) {
		case 1:
			args = fmt.Sprintf("name = %q, divergence = %d", d.name, d.div)
		case 2:
			d.div += c.N(3)
			args = fmt.Sprintf("name = %q, divergence = %d, limit = %d", d.name, d.div, d.limit)
		}
		if c.P(1, 2) {
			d.start = c.N(9) - 4
			args += fmt.Sprintf(", start = %d", d.start)
		}
	}
	if d.mat {
		args += ", materialize = True"
	}
	if d.kind != "nominal" && c.P(1, 3) {
		args += ", reflection = True"
	}
	c.Label(d.kind)
	if d.mat {
		c.Label("materialized")
	}
	v, err := d.eval("symmetry." + d.kind + "(" + args + ")")
	if err != nil {
		d.failf("the domain was not created")
	}
	d.env["D"] = v
	w, err := d.eval(`symmetry.` + d.kind + `(name = "w", limit = 3)`)
	if err != nil {
		d.failf("the second domain was not created")
	}
	other := w
	_ = other
	trans := c.Range(1, 4)
	for t := 0; t < trans; t++ {
		// values that stay in use
		keep := map[int64]bool{}
		var scan []int64
		for _, i := range d.ids() {
			if c.P(2, 3) {
				keep[i] = true
				scan = append(scan, i)
				if c.P(1, 4) {
					scan = append(scan, i) // in use twice
				}
			}
		}
		d.used = keep
		d.log = append(d.log, fmt.Sprintf("-- transition with %v in use", scan))
		d.ctx = lib.NewSymmetryContextWithLastAllocated(func() map[string][]int64 { return map[string][]int64{d.name: scan} }, d.last)
		for i, n := 0, c.Range(1, 6); i < n; i++ {
			d.op()
		}
		d.last = d.ctx.LastAllocated
	}
	if (d.fresh >= 3 || d.mat) && trans >= 2 {
		c.NonTrivial(strings.Join(d.log, ";"))
	}
	c.Sample(strings.Join(d.log, "; "))
}

func eqIDs(a, b []int64) bool { return fmt.Sprint(a) == fmt.Sprint(b) }

func (d *dom) op() {
	c := d.c
	switch c.W(4, 2, 2, 2, 3, 5, 2) {
	case 0:
		d.doFresh()
	case 1: // values
		v, err := d.eval("D.values()")
		if err != nil {
			d.failf("values() failed")
		}
		d.materialized()
		if !eqIDs(d.list(v), d.ids()) {
			d.failf("the values in use are %v", d.ids())
		}
	case 2: // choices
		v, err := d.eval("D.choices()")
		if d.kind == "ordinal" || d.kind == "interval" {
			if err == nil {
				d.failf("choices() is not defined for this domain")
			}
			return
		}
		if err != nil {
			d.failf("choices() failed")
		}
		l := d.list(v)
		d.materialized()
		if !d.mat && d.canFresh() {
			var nw []int64
			for _, i := range l {
				if !d.used[i] {
					nw = append(nw, i)
				}
			}
			if len(nw) != 1 {
				d.failf("choices() has %d new values, not one (in use: %v)", len(nw), d.ids())
			}
			d.newID(nw[0])
		}
		if !eqIDs(l, d.ids()) {
			d.failf("choices() should be %v", d.ids())
		}
	case 3: // choose, min, max
		f := pick(c.Src, []string{"choose", "min", "max"})
		v, err := d.eval("D." + f + "()")
		if (f == "choose") != (d.kind == "nominal" || d.kind == "rotational") {
			if err == nil {
				d.failf("%s() is not defined for this domain", f)
			}
			return
		}
		d.materialized()
		if len(d.used) == 0 {
			if err != nil {
				d.failf("%s() failed without values in use", f)
			}
			d.newID(d.id(v))
			return
		}
		if err != nil {
			d.failf("%s() failed", f)
		}
		l := d.ids()
		switch i := d.id(v); {
		case !d.used[i]:
			d.failf("%s() is not one of the values in use %v", f, l)
		case f == "min" && i != l[0] || f == "max" && i != l[len(l)-1]:
			d.failf("%s() of %v", f, l)
		}
	case 4:
		d.segments()
	case 5:
		d.arith()
	case 6:
		a := pick(c.Src, []string{"name", "limit", "divergence", "start", "nosuch"})
		v, err := d.eval("D." + a)
		var want starlark.Value
		switch {
		case a == "name":
			want = starlark.String(d.name)
		case a == "limit":
			want = starlark.MakeInt(d.limit)
		case a == "divergence" && d.kind == "interval":
			want = starlark.MakeInt(d.div)
		case a == "start" && d.kind == "interval":
			want = starlark.MakeInt(d.start)
		}
		if (want == nil) != (err != nil) || want != nil && v.String() != want.String() {
			d.failf("expected %v", want)
		}
	}
}

func (d *dom) segments() {
	c := d.c
	if d.kind != "ordinal" {
		if _, err := d.eval("D.segments()"); err == nil {
			d.failf("segments() is not defined for this domain")
		}
		return
	}
	if d.mat { // segments of a materialized domain are not described
		return
	}
	l := d.ids()
	var args []string
	lo, hi := int64(-1), int64(-1)
	if len(l) > 0 {
		if c.P(1, 3) {
			lo = pick(c.Src, l)
			d.env["after"] = lib.NewSymmetricValueWithKind(d.name, lo, lib.SymmetryKindOrdinal)
			args = append(args, "after = after")
		}
		if c.P(1, 3) {
			hi = pick(c.Src, l)
			d.env["before"] = lib.NewSymmetricValueWithKind(d.name, hi, lib.SymmetryKindOrdinal)
			args = append(args, "before = before")
		}
	}
	x := "D.segments(" + strings.Join(args, ", ") + ")"
	v, err := d.eval(x)
	if err != nil {
		d.failf("segments failed")
	}
	// the gaps between neighbours (-1: none) that lie in the asked range
	type gap struct{ a, b int64 }
	var want []gap
	nb := append(append([]int64{-1}, l...), -1)
	for i := 0; i+1 < len(nb); i++ {
		g := gap{nb[i], nb[i+1]}
		if lo >= 0 && (g.a < 0 || g.a < lo) {
			continue
		}
		if hi >= 0 && (g.b < 0 || g.b > hi) {
			continue
		}
		want = append(want, g)
	}
	sl := v.(*starlark.List)
	if sl.Len() != len(want) {
		d.failf("%d gaps, expected %d (in use: %v, after %d, before %d)", sl.Len(), len(want), l, lo, hi)
	}
	c.Label(fmt.Sprintf("segments: %d gaps", len(want)))
	if len(want) == 0 {
		return
	}
	i := c.N(len(want))
	d.env["seg"] = sl.Index(i)
	f, err := d.eval("seg.fresh()")
	if len(d.used) >= d.limit {
		if err == nil || !lib.IsDisableTransitionError(err) {
			d.failf("fresh() of a gap at the limit should disable the transition")
		}
		c.Label("limit reached")
		return
	}
	if err != nil {
		d.failf("fresh() of the gap %d failed", i)
	}
	n := d.id(f)
	g := want[i]
	if d.used[n] || g.a >= 0 && n <= g.a || g.b >= 0 && n >= g.b {
		d.failf("%d is not in the gap (%d, %d), in use: %v", n, g.a, g.b, l)
	}
	d.used[n] = true
	d.fresh++
	// order with every value in use
	d.env["n"] = f
	for _, u := range d.ids() {
		d.env["u"] = lib.NewSymmetricValueWithKind(d.name, u, lib.SymmetryKindOrdinal)
		r, err := d.eval("n < u")
		if err != nil || bool(r.Truth()) != (n < u) {
			d.failf("order of the new value and %d", u)
		}
	}
}

// arith: comparisons and arithmetic agree with integers (modulo the size for rotational).
func (d *dom) arith() {
	c := d.c
	pickVal := func(name string) (int64, bool) {
		l := d.ids()
		if len(l) == 0 {
			return 0, false
		}
		i := pick(c.Src, l)
		if d.kind == "rotational" {
			d.env[name] = lib.NewRotationalSymmetricValue(d.name, i, d.limit)
		} else {
			d.env[name] = lib.NewSymmetricValueWithKind(d.name, i, lib.SymmetryKind(d.kind))
		}
		return i, true
	}
	a, ok := pickVal("a")
	b, ok2 := pickVal("b")
	if !ok || !ok2 {
		return
	}
	k := int64(c.N(15) - 7)
	mod := func(x int64) int64 { return ((x % int64(d.limit)) + int64(d.limit)) % int64(d.limit) }
	num := d.kind == "interval" || d.kind == "rotational"
	want := func(expr string, def bool, chk func(v starlark.Value) bool) {
		v, err := d.eval(expr)
		c.Label("arithmetic and order: " + d.kind)
		if !def {
			if err == nil {
				d.failf("%s is not defined for a %s domain", expr, d.kind)
			}
			return
		}
		if err != nil || !chk(v) {
			d.failf("%s with a = %d, b = %d", expr, a, b)
		}
	}
	isBool := func(w bool) func(starlark.Value) bool {
		return func(v starlark.Value) bool { x, ok := v.(starlark.Bool); return ok && bool(x) == w }
	}
	isVal := func(w int64) func(starlark.Value) bool {
		return func(v starlark.Value) bool {
			if d.kind == "rotational" {
				w = mod(w)
			}
			return d.id(v) == w
		}
	}
	isInt := func(w int64) func(starlark.Value) bool {
		return func(v starlark.Value) bool {
			if d.kind == "rotational" {
				w = mod(w)
			}
			i, err := starlark.NumberToInt(v)
			if _, ok := v.(starlark.Int); !ok || err != nil {
				return false
			}
			x, ok := i.Int64()
			return ok && x == w
		}
	}
	ord := d.kind == "ordinal" || d.kind == "interval"
	switch c.N(9) {
	case 0:
		want("a == b", true, isBool(a == b))
		want("a != b", true, isBool(a != b))
	case 1:
		want("a < b", ord, isBool(a < b))
		want("a >= b", ord, isBool(a >= b))
	case 2:
		want("a <= b", ord, isBool(a <= b))
		want("a > b", ord, isBool(a > b))
	case 3:
		want(fmt.Sprintf("a + (%d)", k), num, isVal(a+k))
	case 4:
		want(fmt.Sprintf("(%d) + a", k), num, isVal(a+k))
	case 5:
		want(fmt.Sprintf("a - (%d)", k), num, isVal(a-k))
	case 6:
		want("a - b", num, isInt(a-b))
	case 7:
		want(pick(c.Src, []string{"a + b", "a * 2", "5 - a", "a + \"x\"", "a // 2", "-a", "a < 3", "a - 1.5"}), false, nil)
	case 8:
		// values of another domain of the same kind
		d.env["o"] = lib.NewSymmetricValueWithKind("w", a, lib.SymmetryKind(d.kind))
		if d.kind == "rotational" {
			d.env["o"] = lib.NewRotationalSymmetricValue("w", a, d.limit)
		}
		want(pick(c.Src, []string{"a < o", "a - o", "o >= a"}), false, nil)
		// distinct keys
		want("len({a: 1, o: 2})", true, func(v starlark.Value) bool { return v.String() == "2" })
		want("len(set([a, b, a]))", true, func(v starlark.Value) bool { return (v.String() == "1") == (a == b) })
	}
}

// c22ctor: the constructors accept exactly the valid parameters.
func c22ctor(c *Case) {
	c.Label("constructors")
	d := &dom{c: c, env: starlark.StringDict{}, used: map[int64]bool{}}
	for k, v := range lib.Builtins {
		d.env[k] = v
	}
	kind := pick(c.Src, []string{"nominal", "ordinal", "interval", "rotational"})
	name := pick(c.Src, []string{"v", "v", "v", ""})
	limit, div := c.N(8)-2, c.N(8)-2
	if limit == -1 {
		limit = -2 // -1 is not told from absent
	}
	if div == -1 {
		div = -2
	}
	hasL, hasD := kind != "interval" || c.P(2, 3), kind == "interval" && c.P(1, 2)
	args := fmt.Sprintf("name = %q", name)
	if hasL {
		args += fmt.Sprintf(", limit = %d", limit)
	}
	if hasD {
		args += fmt.Sprintf(", divergence = %d", div)
	}
	ok := name != ""
	refl := c.P(1, 4)
	if refl {
		args += ", reflection = True"
		ok = ok && kind != "nominal"
	}
	if c.P(1, 8) {
		args += ", nosuch = 1"
		ok = false
	}
	switch kind {
	case "nominal", "ordinal":
		ok = ok && limit > 0
	case "rotational":
		ok = ok && limit >= 2
	case "interval":
		ok = ok && (hasL || hasD) && (!hasL || limit > 0) && (!hasD || div >= 0) && (!hasL || !hasD || limit <= div+1)
		if hasD && !hasL {
			limit = div + 1
		}
		if !hasD {
			div = limit - 1
		}
	}
	v, err := d.eval("symmetry." + kind + "(" + args + ")")
	if ok != (err == nil) {
		d.failf("valid parameters: %v", ok)
	}
	if ok {
		sd, is := v.(*lib.SymmetryDomain)
		if !is || sd.Name != name || sd.Limit != limit || string(sd.Kind) != kind || kind == "interval" && sd.Divergence != div || sd.Reflection != refl {
			d.failf("wrong domain %s", v.String())
		}
	}
}

// c22canon: canonical rotations and reflections are invariant under the symmetry and distinguish what is not symmetric.
func c22canon(c *Case) {
	c.Label("canonical rotations")
	lim := c.Range(2, 8)
	var used []int64
	for i := 0; i < lim; i++ {
		if c.P(1, 2) {
			used = append(used, int64(i))
		}
	}
	if len(used) == 0 {
		used = []int64{0}
	}
	if len(used) >= 3 {
		c.NonTrivial(fmt.Sprint(lim, used))
	}
	rot := func(l []int64, s int64, refl bool) []int64 {
		var r []int64
		for _, v := range l {
			if refl {
				v = (int64(lim) - v) % int64(lim)
			}
			r = append(r, ((v+s)%int64(lim)+int64(lim))%int64(lim))
		}
		sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
		return r
	}
	less := func(a, b []int64) bool {
		for i := range a {
			if a[i] != b[i] {
				return a[i] < b[i]
			}
		}
		return false
	}
	for _, withRefl := range []bool{false, true} {
		// the least image, and all transformations with it
		var best []int64
		want := map[string]bool{}
		for _, refl := range []bool{false, true} {
			if refl && !withRefl {
				continue
			}
			for s := 0; s < lim; s++ {
				im := rot(used, int64(s), refl)
				if best == nil || less(im, best) {
					best, want = im, map[string]bool{}
				}
				if eqIDs(im, best) {
					want[fmt.Sprint(s, refl)] = true
				}
			}
		}
		got := map[string]bool{}
		if withRefl {
			for _, r := range lib.GetCanonicalRotationsWithReflection(used, lim) {
				got[fmt.Sprint(r.Shift, r.Reflected)] = true
			}
		} else {
			for _, s := range lib.GetCanonicalRotations(used, lim) {
				got[fmt.Sprint(s, false)] = true
			}
		}
		if !mapEq(got, want) {
			c.Fail("ring of %d with %v (reflection %v): canonical transformations %v, the least image %v is reached by %v", lim, used, withRefl, got, best, want)
		}
	}
}

func mapEq(a, b map[string]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

// ordinalDeep: an ordinal domain is dense: a value can always be added after the last one, or between two neighbours.
func ordinalDeep(c *Case, between bool) {
	d := &dom{c: c, env: starlark.StringDict{}, kind: "ordinal", name: "v", limit: 3, used: map[int64]bool{}}
	for k, v := range lib.Builtins {
		d.env[k] = v
	}
	d.env["D"], _ = d.eval(`symmetry.ordinal(name = "v", limit = 3)`)
	var keep []int64
	next := func() {
		d.used = map[int64]bool{}
		for _, i := range keep {
			d.used[i] = true
		}
		d.log = nil
		d.ctx = lib.NewSymmetryContext(func() map[string][]int64 { return map[string][]int64{"v": keep} })
	}
	for i := 0; i < 2; i++ {
		next()
		v, err := d.eval("D.fresh()")
		if err != nil {
			d.failf("fresh failed")
		}
		keep = append(keep, d.id(v))
	}
	for i := 0; i < 100; i++ {
		next()
		if !between {
			v, err := d.eval("D.fresh()")
			if err != nil {
				d.failf("fresh() failed after %d values, two of them in use", i+2)
			}
			d.newID(d.id(v))
			keep = []int64{keep[1], d.id(v)}
			continue
		}
		v, err := d.eval("D.segments()[1].fresh()")
		if err != nil {
			c.Known("ordinal-gap-exhausted", "fresh() of the gap between the two values in use failed after %d values: %v", i+2, err)
			return
		}
		n := d.id(v)
		if n <= keep[0] || n >= keep[1] {
			d.failf("not between")
		}
		keep = []int64{keep[0], n}
	}
}
