package main

import (
	"encoding/json"
	"fmt"
	"os"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"

	ast "fizz/proto"

	"github.com/fizzbee-io/fizzbee/lib"
	mc "github.com/fizzbee-io/fizzbee/modelchecker"
	"google.golang.org/protobuf/proto"
)

// ---- running the real checker ----

type ActOpt struct{ MaxActions, MaxConc int; Crash *bool }

type Opts struct {
	MaxActions, MaxConc int
	Total               int // what the reference bounds the number of actions by; 0: the bound is not reached
	Crash               bool
	NoDeadlock          bool
	Act                 map[string]ActOpt
	Liveness            string
	ContinueFail        bool
	ContinuePath        bool
	Strategy            string
	Sim                 bool
	Seed                int64
	PQ, NoGraph, NoSym  bool
	NoRets              bool
	Trace               []string
	TraceExtend         int
	UseTrace            bool
	Preinit             string
	Dir                 string
	Hashes              mc.JoinHashes
	PB                  *ast.StateSpaceOptions // if not nil, the options shared by several runs
}

func (o Opts) pb() *ast.StateSpaceOptions {
	if o.PB != nil {
		return o.PB
	}
	ma, mcn := o.MaxActions, o.MaxConc
	if ma == 0 {
		ma = 100
	}
	if mcn == 0 {
		mcn = 2
	}
	s := &ast.StateSpaceOptions{
		Options: &ast.Options{MaxActions: int64(ma), MaxConcurrentActions: int64(mcn), CrashOnYield: proto.Bool(o.Crash)},
		DeadlockDetection:               proto.Bool(!o.NoDeadlock),
		ContinueOnInvariantFailures:     o.ContinueFail,
		ContinuePathOnInvariantFailures: o.ContinuePath,
		Liveness:                        o.Liveness,
	}
	for k, v := range o.Act {
		if s.ActionOptions == nil {
			s.ActionOptions = map[string]*ast.Options{}
		}
		s.ActionOptions[k] = &ast.Options{MaxActions: int64(v.MaxActions), MaxConcurrentActions: int64(v.MaxConc), CrashOnYield: v.Crash}
	}
	return s
}

type Run struct {
	P            *mc.Processor
	Init, Failed *mc.Node
	Err          error
	GT           *mc.GuidedTrace
	Panic        string // non-empty: the run panicked
	PanicVal     any
}

func runImpl(f *ast.File, o Opts) (r *Run) {
	r = &Run{}
	defer func() {
		if x := recover(); x != nil {
			r.PanicVal = x
			if me, ok := x.(*mc.ModelError); ok {
				r.Panic = "ModelError: " + me.Error()
			} else {
				r.Panic = fmt.Sprintf("%v", x)
				if os.Getenv("VH_VERBOSE") != "" {
					r.Panic += "\n" + trimStack(string(debug.Stack()))
				}
			}
		}
	}()
	st := o.Strategy
	if st == "" {
		st = "bfs"
	}
	var gt *mc.GuidedTrace
	if o.UseTrace {
		gt = &mc.GuidedTrace{LinkNames: o.Trace, ExtendDepth: o.TraceExtend}
	}
	p := mc.NewProcessor([]*ast.File{f}, o.pb(), o.Sim, o.Seed, o.Dir, st, true, o.Hashes, gt, o.Preinit)
	r.P, r.GT = p, gt
	p.SetExperimentalNoStateReturns(o.NoRets)
	defer p.SetExperimentalNoStateReturns(false)
	if o.PQ {
		p.SetExperimentalProcessedQueue(true)
	}
	if o.NoGraph {
		p.SetExperimentalProcessedQueue(true)
		p.SetExperimentalNoGraph(true)
	}
	if o.NoSym {
		p.SetDisableSymmetryReduction(true)
	}
	r.Init, r.Failed, r.Err = p.Start()
	return r
}

// ---- graphs (both sides are brought into this form) ----

type GEdge struct {
	L  string // label: link names joined with "|" (threads normalised)
	To int
	Fair int // fairness level of the step
	Rets map[string]*V // values returned by the step (reference only)
}

type GNode struct {
	Obs  string
	Out  []GEdge
	Name string
}

type Graph struct {
	N    []GNode // N[0]: the initial state (before Init's completion: pseudo node)
}

var reThread = regexp.MustCompile(`^thread-\d+$`)
var reMsg = regexp.MustCompile(`^channel-(\d+)-message-\d+$`)

func normName(n string) string {
	if reThread.MatchString(n) {
		return "thread"
	}
	if m := reMsg.FindStringSubmatch(n); m != nil {
		return "channel-" + m[1]
	}
	return stripFields(n)
}

func retStr(l *mc.Link) string {
	if len(l.Returns) == 0 {
		return ""
	}
	return "=>" + mc.StringDictToJsonString(l.Returns)
}

// roleJSON: the parameters and fields of a role instance
func roleJSON(r *lib.Role) string {
	j, err := r.MarshalJSON()
	if err != nil {
		panic(err)
	}
	var m map[string]any
	if json.Unmarshal(j, &m) == nil {
		j, _ = json.Marshal(m["fields"])
		if p, ok := m["params"].(map[string]any); ok && len(p) > 0 {
			j2, _ := json.Marshal(p)
			j = append(j2, j...)
		}
	}
	return string(j)
}

func implObs(n *mc.Node) string {
	var b strings.Builder
	b.WriteString(n.Heap.ToJson())
	for _, r := range n.Roles {
		b.WriteString(" " + r.RefStringShort() + roleJSON(r))
	}
	fmt.Fprintf(&b, " t%d", n.GetThreadsCount())
	ms := 0
	for _, q := range n.ChannelMessages {
		ms += len(q)
	}
	if ms > 0 {
		fmt.Fprintf(&b, " m%d", ms)
	}
	return b.String()
}

// extract the graph of yield states. Node 0 is the root.
func extract(root *mc.Node, withLabels bool) *Graph {
	g, _ := extract2(root, withLabels)
	return g
}

func extractNodes(root *mc.Node) []*mc.Node {
	_, l := extract2(root, false)
	return l
}

// callStr: the messages recorded on a link
func callStr(l *mc.Link) string {
	var r []string
	for _, m := range l.Messages {
		if m.Name == "Init" {
			continue
		}
		var vals []string
		for _, v := range m.Values {
			if m.IsReturn {
				vals = append(vals, stripFields(v.Value))
			} else {
				vals = append(vals, v.Name+"="+stripFields(v.Value))
			}
		}
		sort.Strings(vals)
		what := "call"
		if m.IsReturn {
			what = "return"
		} else if m.Lossy {
			what = "lossy call"
		}
		r = append(r, what+" "+m.Sender+">"+strings.Join(m.Receivers, "+")+" "+m.Name+"("+strings.Join(vals, ",")+")")
	}
	if len(r) == 0 {
		return ""
	}
	return "<" + strings.Join(r, " ") + ">"
}

func extract2(root *mc.Node, withLabels bool) (*Graph, []*mc.Node) {
	return extract3(root, withLabels, false)
}

func extract3(root *mc.Node, withLabels, withCalls bool) (*Graph, []*mc.Node) {
	g := &Graph{}
	id := map[*mc.Node]int{}
	var order []*mc.Node
	get := func(n *mc.Node) int {
		if i, ok := id[n]; ok {
			return i
		}
		i := len(order)
		id[n] = i
		order = append(order, n)
		g.N = append(g.N, GNode{})
		return i
	}
	get(root)
	for i := 0; i < len(order); i++ {
		n := order[i]
		if i == 0 && n.Process != nil && !n.IsYieldNode() {
			g.N[0].Obs = "root"
		} else {
			g.N[i].Obs = implObs(n)
		}
		g.N[i].Name = n.Name
		set := map[string]GEdge{}
		type item struct {
			n    *mc.Node
			path string
		}
		seen := map[item]bool{}
		var walk func(n *mc.Node, path string, depth int)
		walk = func(n *mc.Node, path string, depth int) {
			it := item{n, path}
			if seen[it] || depth > 200 {
				return
			}
			seen[it] = true
			for _, l := range n.Outbound {
				p := path
				if p != "" {
					p += "|"
				}
				p += normName(l.Name)
				if withLabels && len(l.Labels) > 0 {
					p += "{" + strings.Join(l.Labels, ",") + "}"
				}
				if withCalls {
					p += callStr(l)
				}
				p += retStr(l)
				if l.Node.IsYieldNode() {
					k := get(l.Node)
					set[fmt.Sprintf("%s>%d", p, k)] = GEdge{L: p, To: k, Fair: int(l.Fairness)}
				} else {
					walk(l.Node, p, depth+1)
				}
			}
		}
		walk(n, "", 0)
		keys := make([]string, 0, len(set))
		for k := range set {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			g.N[i].Out = append(g.N[i].Out, set[k])
		}
	}
	return g, order
}

// colors: bisimulation classes of several graphs at once.
func colors(gs []*Graph) [][]int {
	tab := map[string]int{}
	get := func(s string) int {
		if i, ok := tab[s]; ok {
			return i
		}
		i := len(tab)
		tab[s] = i
		return i
	}
	col := make([][]int, len(gs))
	for i, g := range gs {
		col[i] = make([]int, len(g.N))
		for j := range g.N {
			col[i][j] = get(g.N[j].Obs)
		}
	}
	nc := -1
	for round := 0; ; round++ {
		tab = map[string]int{}
		next := make([][]int, len(gs))
		for i, g := range gs {
			next[i] = make([]int, len(g.N))
			for j := range g.N {
				es := make([]string, 0, len(g.N[j].Out))
				for _, e := range g.N[j].Out {
					es = append(es, fmt.Sprintf("%s>%d", e.L, col[i][e.To]))
				}
				sort.Strings(es)
				var b strings.Builder
				fmt.Fprintf(&b, "%d", col[i][j])
				for k, e := range es {
					if k > 0 && es[k-1] == e {
						continue
					}
					b.WriteByte('\n')
					b.WriteString(e)
				}
				next[i][j] = get(b.String())
			}
		}
		col = next
		if len(tab) == nc {
			return col
		}
		nc = len(tab)
	}
}

// diffGraphs returns "" when the graphs' roots are bisimilar, else a description of a shortest difference.
func diffGraphs(an, bn string, a, b *Graph) string {
	col := colors([]*Graph{a, b})
	if col[0][0] == col[1][0] {
		return ""
	}
	// walk down a pair of non-bisimilar states with equal observations as far as possible
	type pair struct{ x, y int }
	type st struct {
		p    pair
		path []string
	}
	seen := map[pair]bool{{0, 0}: true}
	q := []st{{pair{0, 0}, nil}}
	describe := func(g *Graph, i int) string {
		var l []string
		for _, e := range g.N[i].Out {
			l = append(l, e.L+" -> "+g.N[e.To].Obs)
		}
		return strings.Join(l, "\n      ")
	}
	for len(q) > 0 {
		s := q[0]
		q = q[1:]
		x, y := s.p.x, s.p.y
		if a.N[x].Obs != b.N[y].Obs {
			return fmt.Sprintf("after %v: %s state %s, %s state %s", s.path, an, a.N[x].Obs, bn, b.N[y].Obs)
		}
		la, lb := map[string]bool{}, map[string]bool{}
		for _, e := range a.N[x].Out {
			la[e.L+" -> "+a.N[e.To].Obs] = true
		}
		for _, e := range b.N[y].Out {
			lb[e.L+" -> "+b.N[e.To].Obs] = true
		}
		var oa, ob []string
		for k := range la {
			if !lb[k] {
				oa = append(oa, k)
			}
		}
		for k := range lb {
			if !la[k] {
				ob = append(ob, k)
			}
		}
		if len(oa)+len(ob) > 0 {
			sort.Strings(oa)
			sort.Strings(ob)
			return fmt.Sprintf("after %v in state %s\n  steps only in %s:\n      %s\n  steps only in %s:\n      %s", s.path, a.N[x].Obs, an, strings.Join(oa, "\n      "), bn, strings.Join(ob, "\n      "))
		}
		for _, e := range a.N[x].Out {
			for _, f := range b.N[y].Out {
				if e.L == f.L && a.N[e.To].Obs == b.N[f.To].Obs && col[0][e.To] != col[1][f.To] {
					p := pair{e.To, f.To}
					if !seen[p] {
						seen[p] = true
						q = append(q, st{p, append(append([]string{}, s.path...), e.L)})
					}
				}
			}
		}
	}
	return fmt.Sprintf("graphs differ (no local witness); root %s:\n      %s\n%s:\n      %s", an, describe(a, 0), bn, describe(b, 0))
}

func (g *Graph) String() string {
	var b strings.Builder
	for i, n := range g.N {
		fmt.Fprintf(&b, "%d %s\n", i, n.Obs)
		for _, e := range n.Out {
			fmt.Fprintf(&b, "    %s -> %d\n", e.L, e.To)
		}
	}
	return b.String()
}

// stripFields leaves of "role Node#0 (fields(x = 0))" the reference "role Node#0".
func stripFields(s string) string {
	for from := 0; ; {
		i := strings.Index(s[from:], "role ")
		if i < 0 {
			return s
		}
		i += from
		from = i + 5
		j := from
		for j < len(s) && s[j] != ' ' && s[j] != ',' && s[j] != ')' {
			j++
		}
		if !strings.HasPrefix(s[j:], " (") {
			continue
		}
		k, d := j+1, 0
		for ; k < len(s); k++ {
			if s[k] == '(' {
				d++
			} else if s[k] == ')' {
				if d--; d == 0 {
					break
				}
			}
		}
		if k == len(s) {
			return s
		}
		s = s[:j] + s[k+1:]
	}
}
