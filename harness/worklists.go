package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/fizzbee-io/fizzbee/lib"
)

// C23: work lists and permutation helpers.

func init() {
	register(&Prop{ID: "C23", Quick: 60000, Thorough: 400000,
		Rule: "at least 10 operations with elements removed, or permutations of at least 3 elements",
		Run:  runC23})
}

func runC23(c *Case) {
	switch c.N(5) {
	case 0:
		c.Label("queue")
		lists(c, "queue", lib.NewQueue[int](), nil)
	case 1:
		c.Label("stack")
		st := lib.NewStack[int]()
		lists(c, "stack", st, st)
	case 2:
		c.Label("random queue")
		seed := int64(c.N(1000))
		mk := func() lib.LinearCollection[int] { return lib.NewRandomQueue[int](*rand.New(rand.NewSource(seed))) }
		a := lists(c, "random", mk(), nil)
		// the same operations on a queue with the same seed give the same elements
		if b := replayLists(mk(), a.ops); fmt.Sprint(a.out) != fmt.Sprint(b) {
			c.Fail("the random queue with the same seed returned %v and then %v for %s", a.out, b, strings.Join(a.ops, " "))
		}
	case 3:
		permHelper(c)
	case 4:
		permAll(c)
	}
}

type listRun struct {
	ops []string
	out []int
}

func replayLists(q lib.LinearCollection[int], ops []string) []int {
	var out []int
	for _, o := range ops {
		var n int
		switch {
		case o == "remove":
			v, ok := q.Remove()
			if ok {
				out = append(out, v)
			}
		case o == "clearall":
			q.ClearAll()
		case strings.HasPrefix(o, "add"):
			fmt.Sscanf(o, "add %d", &n)
			q.Add(n)
		case strings.HasPrefix(o, "clear"):
			fmt.Sscanf(o, "clear %d", &n)
			q.Clear(n)
		case strings.HasPrefix(o, "retain"):
			fmt.Sscanf(o, "retain %d", &n)
			q.Retain(n)
		}
	}
	return out
}

func lists(c *Case, kind string, q lib.LinearCollection[int], st *lib.Stack[int]) listRun {
	var m []int // model, in insertion order
	next := 1
	var r listRun
	removed := 0
	fail := func(f string, a ...any) { c.Fail("%s: "+f+"\n%s", append(append([]any{kind}, a...), strings.Join(r.ops, " "))...) }
	add := func() {
		r.ops = append(r.ops, fmt.Sprintf("add %d", next))
		q.Add(next)
		m = append(m, next)
		next++
	}
	rem := func() {
		r.ops = append(r.ops, "remove")
		v, ok := q.Remove()
		if ok != (len(m) > 0) {
			fail("Remove returned %d, %v; the model has %d elements", v, ok, len(m))
		}
		if !ok {
			return
		}
		removed++
		r.out = append(r.out, v)
		switch kind {
		case "queue":
			if v != m[0] {
				fail("Remove returned %d, the first added is %d", v, m[0])
			}
			m = m[1:]
		case "stack":
			if v != m[len(m)-1] {
				fail("Remove returned %d, the last added is %d", v, m[len(m)-1])
			}
			m = m[:len(m)-1]
		default:
			i := -1
			for j, x := range m {
				if x == v {
					i = j
				}
			}
			if i < 0 {
				fail("Remove returned %d, which is not in the queue %v", v, m)
			}
			m = append(append([]int(nil), m[:i]...), m[i+1:]...)
		}
	}
	n := 3 + c.N(40)
	for i := 0; i < n; i++ {
		switch k := c.W(6, 5, 3, 2, 1, 1, 1); k {
		case 0:
			add()
		case 1:
			rem()
		case 2:
			for j, b := 0, []int{3, 63, 64, 65, 130}[c.N(5)]; j < b; j++ {
				add()
			}
		case 3:
			for j, b := 0, []int{3, 63, 64, 65, 130}[c.N(5)]; j < b; j++ {
				rem()
			}
		case 4:
			if kind != "stack" {
				r.ops = append(r.ops, "clearall")
				q.ClearAll()
				m = nil
			}
		case 5:
			if kind == "random" {
				// Clear(n) and Retain(n): exactly n elements leave or stay
				k := c.N(len(m) + 3)
				r.ops = append(r.ops, fmt.Sprintf("clear %d", k))
				q.Clear(k)
				if k > len(m) {
					k = len(m)
				}
				m = m[k:]
			}
		case 6:
			if kind == "random" {
				k := c.N(len(m) + 3)
				r.ops = append(r.ops, fmt.Sprintf("retain %d", k))
				q.Retain(k)
				if k < len(m) {
					m = m[:k]
				}
			}
		}
		if q.Len() != len(m) {
			fail("Len is %d, %d elements were added and not removed", q.Len(), len(m))
		}
		if q.Empty() != (len(m) == 0) {
			fail("Empty is %v with %d elements", q.Empty(), len(m))
		}
		if st != nil {
			p, ok := st.Peek()
			h, ok2 := st.Head()
			if ok != (len(m) > 0) || ok2 != ok {
				fail("Peek/Head report %v/%v with %d elements", ok, ok2, len(m))
			}
			if ok && (p != m[len(m)-1] || h != m[0]) {
				fail("Peek is %d and Head is %d, the model has %v", p, h, m)
			}
			if fmt.Sprint(st.RawArray()) != fmt.Sprint(append([]int{}, m...)) {
				fail("the elements are %v, the model has %v", st.RawArray(), m)
			}
		}
	}
	if removed > 0 && len(r.ops) >= 10 {
		c.NonTrivial(kind + strings.Join(r.ops, " "))
	}
	// drain: every element exactly once
	for len(m) > 0 {
		rem()
	}
	rem()
	return r
}

func fact(n int) int {
	r := 1
	for i := 2; i <= n; i++ {
		r *= i
	}
	return r
}

func permHelper(c *Case) {
	n := c.N(7)
	in := make([]int, n)
	for i := range in {
		in[i] = c.N(1000)*7 + i // distinct
	}
	keep := append([]int(nil), in...)
	got := lib.GeneratePermutations(in)
	c.Label(fmt.Sprintf("permutations of %d", n))
	if n >= 3 {
		c.NonTrivial(fmt.Sprint(in))
	}
	if fmt.Sprint(in) != fmt.Sprint(keep) {
		c.Fail("GeneratePermutations changed its input to %v", in)
	}
	seen := map[string]bool{}
	for _, p := range got {
		q := append([]int(nil), p...)
		sort.Ints(q)
		w := append([]int(nil), keep...)
		sort.Ints(w)
		if fmt.Sprint(q) != fmt.Sprint(w) {
			c.Fail("%v is not an arrangement of %v", p, keep)
		}
		if seen[fmt.Sprint(p)] {
			c.Fail("the arrangement %v of %v is listed twice", p, keep)
		}
		seen[fmt.Sprint(p)] = true
	}
	if len(seen) != fact(n) {
		c.Fail("%d arrangements of %d elements, not %d", len(seen), n, fact(n))
	}
}

func permAll(c *Case) {
	n := c.N(4)
	var in [][]int
	want := 1
	big := false
	for i := 0; i < n; i++ {
		k := c.N(4)
		a := make([]int, k)
		for j := range a {
			a[j] = 10*i + j
		}
		in = append(in, a)
		want *= fact(k)
		big = big || k >= 3
	}
	c.Label(fmt.Sprintf("product of permutations of %d lists", n))
	if big {
		c.NonTrivial(fmt.Sprint(in))
	}
	keep := fmt.Sprint(in)
	got := lib.GenerateAllPermutations(in)
	if fmt.Sprint(in) != keep {
		c.Fail("GenerateAllPermutations changed its input to %v", in)
	}
	seen := map[string]bool{}
	for _, p := range got {
		if len(p) != n {
			c.Fail("GenerateAllPermutations(%s) has %v", keep, p)
		}
		for i := range p {
			q := append([]int{}, p[i]...)
			sort.Ints(q)
			if fmt.Sprint(q) != fmt.Sprint(in[i]) {
				c.Fail("GenerateAllPermutations(%s): %v is not an arrangement of %v", keep, p[i], in[i])
			}
		}
		if seen[fmt.Sprint(p)] {
			c.Fail("GenerateAllPermutations(%s) has %v twice", keep, p)
		}
		seen[fmt.Sprint(p)] = true
	}
	if len(seen) != want {
		c.Fail("GenerateAllPermutations(%s) has %d combinations, not %d", keep, len(seen), want)
	}
}
