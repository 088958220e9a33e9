package main

// C25: the analysis of state graphs as Markov chains.

import (
	"fmt"
	"math"
	"sort"
	"strings"

	ast "fizz/proto"

	mc "github.com/fizzbee-io/fizzbee/modelchecker"
)

func init() {
	register(&Prop{ID: "C25", Quick: 60000, Thorough: 2000000,
		Rule: "the chain converges to its limit, and there is a state with transitions of different probabilities, or a counter with a finite positive mean",
		Run:  runC25})
}

// chain: a Markov chain with costs.
type chain struct {
	n    int
	p    [][]float64
	cost map[string][]float64 // expected cost of a step from each state
}

type mlink struct {
	from, to int
	labels   []string
}

// newChain: the chain described by the links and the model.
func newChain(n int, links []mlink, m *ast.PerformanceModel) (*chain, bool) {
	ch := &chain{n: n, cost: map[string][]float64{}}
	for i := 0; i < n; i++ {
		ch.p = append(ch.p, make([]float64, n))
	}
	for _, k := range m.Configs {
		for c := range k.Counters {
			ch.cost[c] = make([]float64, n)
		}
	}
	for i := 0; i < n; i++ {
		var out []mlink
		total, free := 0.0, 0
		for _, l := range links {
			if l.from != i {
				continue
			}
			out = append(out, l)
			if len(l.labels) == 0 {
				free++
			}
			for _, x := range l.labels {
				total += m.Configs[x].GetProbability()
			}
		}
		if total > 1+1e-7 {
			return nil, false
		}
		if len(out) == 0 {
			ch.p[i][i] = 1
			continue
		}
		for _, l := range out {
			w := 0.0
			if total == 0 {
				w = 1 / float64(len(out))
			} else if len(l.labels) == 0 {
				w = (1 - total) / float64(free)
			} else {
				for _, x := range l.labels {
					w += m.Configs[x].GetProbability()
				}
			}
			ch.p[i][l.to] += w
			for _, x := range l.labels {
				for c, v := range m.Configs[x].GetCounters() {
					ch.cost[c][i] += w * v.GetNumeric()
				}
			}
		}
	}
	return ch, true
}

func (ch *chain) stop(at []bool) {
	for i, s := range at {
		if !s {
			continue
		}
		for j := range ch.p[i] {
			ch.p[i][j] = 0
		}
		ch.p[i][i] = 1
		for _, c := range ch.cost {
			c[i] = 0
		}
	}
}

func (ch *chain) step(d []float64) []float64 {
	r := make([]float64, ch.n)
	for i := range d {
		if d[i] == 0 {
			continue
		}
		for j, w := range ch.p[i] {
			r[j] += d[i] * w
		}
	}
	return r
}

// limit: the distribution the chain converges to, if it does so within a number of steps,
// and the expected costs along the way, NaN for those that never end.
func (ch *chain) limit(start []float64) ([]float64, map[string]float64, bool) {
	const steps = 500
	d := start
	mean := map[string]float64{}
	var early []float64
	for t := 0; t < 4*steps; t++ {
		if t == steps {
			early = d
		}
		for c, v := range ch.cost {
			for i := range d {
				mean[c] += d[i] * v[i]
			}
		}
		d = ch.step(d)
	}
	next := ch.step(d)
	for i := range d {
		if math.Abs(d[i]-early[i]) > 1e-9 || math.Abs(d[i]-next[i]) > 1e-9 {
			return nil, nil, false
		}
	}
	for c, v := range ch.cost {
		for i := range d {
			if d[i] > 1e-12 && v[i] > 0 {
				mean[c] = math.NaN()
			}
		}
	}
	return d, mean, true
}

func runC25(c *Case) {
	n := 1 + c.N(9)
	model := &ast.PerformanceModel{Configs: map[string]*ast.TransitionConfig{}}
	counters := []string{"time", "cost", "steps"}[:c.N(4)]
	addCounters := func(k *ast.TransitionConfig) {
		for _, x := range counters {
			if c.P(1, 2) {
				if k.Counters == nil {
					k.Counters = map[string]*ast.Counter{}
				}
				k.Counters[x] = &ast.Counter{Numeric: pick(c.Src, []float64{1, 1, 2, 0.5, 10})}
			}
		}
	}
	// nodes
	choice := make([]bool, n)
	witness := make([]bool, n)
	var nodes []*mc.Node
	for i := 0; i < n; i++ {
		name := "yield"
		if i == 0 {
			name = "init"
		} else if c.P(1, 4) {
			name, choice[i] = "Act", true
		}
		p := mc.NewProcess(name, nil, nil)
		p.Enable()
		witness[i] = c.P(1, 3)
		p.Witness = [][]bool{{c.P(1, 2), witness[i]}}
		nodes = append(nodes, mc.NewNode(p))
	}
	// links, with labels whose probabilities add up to at most 1 in each state
	var links []mlink
	over := c.P(1, 30)
	shared := c.P(1, 2) // labels used in several states
	if shared {
		k := &ast.TransitionConfig{}
		addCounters(k)
		model.Configs["F.call"] = k
	}
	nl := 0
	for i := 0; i < n; i++ {
		out := c.W(2, 3, 4, 3, 1)
		if i == 0 || choice[i] {
			out = 1 + c.N(4)
		}
		rest := 100
		weighted := c.P(2, 3)
		var own []mlink
		for j := 0; j < out; j++ {
			l := mlink{from: i, to: c.N(n)}
			if n > 1 && l.to == i && c.P(1, 2) {
				l.to = (i + 1) % n
			}
			if j > 0 && c.P(1, 5) { // another way to the same state
				l.to = own[j-1].to
			}
			if shared && c.P(1, 4) {
				l.labels = append(l.labels, "F.call")
			}
			if weighted && c.P(5, 6) || c.P(1, 5) {
				lab := fmt.Sprintf("A%d.b%d", i, nl)
				nl++
				k := &ast.TransitionConfig{}
				addCounters(k)
				if weighted {
					w := rest
					if j < out-1 {
						w = c.N(rest + 1)
					}
					if j == out-1 && c.P(1, 6) {
						w = c.N(rest + 1)
					}
					rest -= w
					if over && j == out-1 {
						w += 1 + c.N(30)
					}
					k.Probability = float64(w) / 100
				}
				if !c.P(1, 8) || k.Probability > 0 { // some labels are not configured
					model.Configs[lab] = k
				}
				l.labels = append(l.labels, lab)
				if c.P(1, 10) {
					lab2 := lab + "x"
					if c.P(1, 2) {
						k2 := &ast.TransitionConfig{}
						addCounters(k2)
						model.Configs[lab2] = k2
					}
					l.labels = append(l.labels, lab2)
				}
			}
			own = append(own, l)
		}
		if rest > 0 && weighted && len(own) > 0 { // all of the probability is given, or something is left for the others
			free, total := false, 0.0
			for _, l := range own {
				free = free || len(l.labels) == 0
				for _, x := range l.labels {
					total += model.Configs[x].GetProbability()
				}
			}
			if !free && total > 0 {
				own = append(own, mlink{from: i, to: c.N(n)})
			}
		}
		links = append(links, own...)
	}
	for _, l := range links {
		nodes[l.from].Outbound = append(nodes[l.from].Outbound, &mc.Link{Node: nodes[l.to], Name: "a", Labels: l.labels})
		nodes[l.to].Inbound = append(nodes[l.to].Inbound, &mc.Link{Node: nodes[l.from], Name: "a", Labels: l.labels})
	}
	text := fmt.Sprintf("%d states, choice points %v, witnesses %v\n", n, choice, witness)
	for _, l := range links {
		text += fmt.Sprintf("  %d -> %d %v\n", l.from, l.to, l.labels)
	}
	var names []string
	for x := range model.Configs {
		names = append(names, x)
	}
	sort.Strings(names)
	for _, x := range names {
		text += fmt.Sprintf("  %s: %g", x, model.Configs[x].Probability)
		for _, y := range counters {
			if v := model.Configs[x].Counters[y]; v != nil {
				text += fmt.Sprintf(" %s=%g", y, v.Numeric)
			}
		}
		text += "\n"
	}
	c.Sample(text)
	// the order of the results
	all, _, _, _ := mc.GetAllNodes(nodes[0], 0)
	index := map[*mc.Node]int{}
	for i, x := range nodes {
		index[x] = i
	}
	pos := make([]int, len(all))
	back := make([]int, n)
	for i := range back {
		back[i] = -1
	}
	for i, x := range all {
		pos[i] = index[x]
		back[index[x]] = i
	}
	var left []mlink
	for _, l := range links {
		if back[l.from] >= 0 && back[l.to] >= 0 {
			left = append(left, mlink{back[l.from], back[l.to], l.labels})
		} else if back[l.from] >= 0 { // a step that cannot be completed: its probability is lost
			c.Discard("a step cannot be completed")
		}
	}
	ch, ok := newChain(len(all), left, model)
	show := func(d []float64) string {
		var b strings.Builder
		for i, x := range d {
			fmt.Fprintf(&b, " %d:%.5f", pos[i], x)
		}
		return b.String()
	}
	analysis := func(what string, f func() ([]float64, map[string]float64), start []float64) {
		var d []float64
		var mean map[string]float64
		var msg any
		func() {
			defer func() { msg = recover() }()
			d, mean = f()
		}()
		if ch == nil {
			c.Label("probabilities above 1")
			c.NonTrivial(text + what)
			if msg == nil {
				c.Fail("%s: probabilities that add up to more than 1 are accepted", what)
			}
			return
		}
		if msg != nil {
			c.Fail("%s: %v", what, msg)
		}
		total := 0.0
		for _, x := range d {
			if x < -1e-9 || math.IsNaN(x) { // (probabilities that add up to 1 leave a rounding error)
				c.Fail("%s: the result%s is no distribution", what, show(d))
			}
			total += x
		}
		if len(d) != len(all) || math.Abs(total-1) > 1e-6 {
			c.Fail("%s: the probabilities%s add up to %g", what, show(d), total)
		}
		want, cost, ok := ch.limit(start)
		if !ok {
			c.Label(what + ": does not converge")
			return
		}
		c.Label(what + ": converges")
		uneven := false
		for i := range ch.p {
			x := 0.0
			for _, w := range ch.p[i] {
				if w > 0 && x > 0 && math.Abs(w-x) > 0.01 {
					uneven = true
				}
				x = max(x, w)
			}
		}
		for i := range d {
			if math.Abs(d[i]-want[i]) > 1e-4 {
				c.Fail("%s: the distribution is%s, the limit of the chain is%s", what, show(d), show(want))
			}
		}
		for _, x := range counters {
			w, has := cost[x]
			if !has || math.IsNaN(w) {
				continue
			}
			if w > 0 {
				c.Label("mean of a counter")
				uneven = true
			}
			if g, ok := mean[x]; !ok || math.Abs(g-w) > 5e-3*math.Max(1, w) {
				c.Fail("%s: the mean of %s is %g, expected %g", what, x, g, w)
			}
		}
		if uneven {
			c.NonTrivial(text + what)
		}
	}
	_ = ok
	first := make([]float64, len(all))
	first[0] = 1
	analysis("steady state", func() ([]float64, map[string]float64) { return mc.VerifSteadyState(nodes[0], model) }, first)
	if ch != nil {
		any := make([]float64, len(all))
		at := make([]bool, len(all))
		states := 0.0
		for i := range all {
			at[i] = witness[pos[i]]
			if !choice[pos[i]] {
				states++
			}
		}
		for i := range all {
			if !choice[pos[i]] {
				any[i] = 1 / states
			}
		}
		ch.stop(at)
		f := func() ([]float64, map[string]float64) { return mc.VerifLivenessAndCost(nodes[0], model, 0, 1) }
		if c.P(1, 2) {
			f = func() ([]float64, map[string]float64) {
				d, h := mc.FindAbsorptionCosts(nodes[0], model, 0, 1)
				return d, h.GetMeanCounts()
			}
		}
		analysis("until a witness", f, any)
	}
}
