package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"html"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"

	ast "fizz/proto"

	mc "github.com/fizzbee-io/fizzbee/modelchecker"
	"go.starlark.net/starlark"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
)

// ---- C24: the exported graphs ----

func init() {
	register(&Prop{ID: "C24", Quick: 1000, Thorough: 60000,
		Rule: "at least 5 nodes, 3 of them states, and a link in the middle of a step or with calls, labels or return values",
		Run:  runC24, Fixed: []func(c *Case){shardBoundaries, oddValues}})
}

// odd: strings that need quoting in one of the formats
var odd = []string{"a\"b", "back\\slash", "end\\", "\\\"", "two\nlines", "<b>&amp;", "{x|y}", "é→", "a]; b -> c [", "", " ", "#1", "\\n", "tab\t", "%d%s", "'"}

// addOdd returns the strings the model can choose
func addOdd(c *Case, g *Gen) []Expr {
	n := c.Range(2, 4)
	var es []Expr
	for i := 0; i < n; i++ {
		es = append(es, S(pick(c.Src, odd)))
	}
	l := Expr(ListE(es))
	if c.P(1, 3) {
		l = ListE{DictE{[]Expr{es[0]}, []Expr{es[1]}}, ListE(es)}
	}
	g.S.Init.Stmts = append(g.S.Init.Stmts, set("odd", S("")))
	var st []*Stmt
	st = append(st, anyIn("w", l))
	st = append(st, set("odd", Var("w")))
	if c.P(2, 3) {
		st = append(st, &Stmt{K: SReturn, E: Var("w")})
	}
	a := act("Odd", []Flow{FAtomic, FSerial}[c.N(2)], st...)
	a.Fair = pick(c.Src, []Fair{FairNone, FairWeak, FairStrong})
	g.S.Actions = append(g.S.Actions, a)
	return es
}

func readPB(c *Case, m proto.Message, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		c.Fail("%v", err)
	}
	if err := proto.Unmarshal(b, m); err != nil {
		c.Fail("%s cannot be read: %v", filepath.Base(file), err)
	}
}

// readGraph reads the node and link files of a directory, in the order of their names.
func readGraph(c *Case, dir, nodes, links string) (states []string, ll []*ast.Link, total int64) {
	fs, _ := filepath.Glob(filepath.Join(dir, nodes))
	sort.Strings(fs)
	for _, f := range fs {
		var x ast.Nodes
		readPB(c, &x, f)
		states = append(states, x.Json...)
	}
	fs, _ = filepath.Glob(filepath.Join(dir, links))
	sort.Strings(fs)
	for i, f := range fs {
		var x ast.Links
		readPB(c, &x, f)
		ll = append(ll, x.Links...)
		if i > 0 && x.TotalNodes != total {
			c.Fail("the link files disagree on the number of nodes: %d and %d", total, x.TotalNodes)
		}
		total = x.TotalNodes
	}
	return
}

// linkText: everything a file says of a link, in one line
func linkText(l *ast.Link) string {
	var t, r []string
	for k, v := range l.NewToOldThreads {
		t = append(t, fmt.Sprintf("%d=%d", k, v))
	}
	sort.Strings(t)
	for _, x := range l.Returns {
		r = append(r, x.Name+"="+x.Value)
	}
	return fmt.Sprintf("%d -> %d %q type %q labels %q weight %.9f req %d threads %v returns %q messages %s", l.Src, l.Dest, l.Name, l.Type, l.Labels, l.Weight, l.ReqId, t, r, msgText(l.Messages))
}

func msgText(ms []*ast.Message) string {
	var b strings.Builder
	for _, m := range ms {
		fmt.Fprintf(&b, "[%q>%q %q return %v lossy %v", m.Sender, m.Receivers, m.Name, m.IsReturn, m.Lossy)
		for _, v := range m.Values {
			fmt.Fprintf(&b, " %q=%q", v.Name, v.Value)
		}
		b.WriteString("]")
	}
	return b.String()
}

// wantLink: what a file has to say of a link of the explored graph
func wantLink(src, dest int, l *mc.Link, weight float64) string {
	var t, r []string
	for k, v := range l.ThreadsMap {
		t = append(t, fmt.Sprintf("%d=%d", k, v))
	}
	sort.Strings(t)
	for k, v := range l.Returns {
		r = append(r, k+"="+v.String())
	}
	sort.Strings(r)
	return fmt.Sprintf("%d -> %d %q type %q labels %q weight %.9f req %d threads %v returns %q messages %s", src, dest, l.Name, l.Type, l.Labels, weight, l.ReqId, t, r, msgText(l.Messages))
}

// checkThreadsMap: of a link into a state that was known, each thread of the state is one of those that the step ended with.
func checkThreadsMap(c *Case, src int, l *mc.Link) {
	if len(l.ThreadsMap) == 0 || l.Node.Process == nil {
		return
	}
	used := map[int]int{}
	for k, o := range l.ThreadsMap {
		if p, ok := used[o]; ok {
			c.Fail("the link %q of node %d says that the threads %d and %d are both the thread %d of before", l.Name, src, p, k, o)
		}
		used[o] = k
		if k < 0 || k >= len(l.Node.Threads) || l.Node.Threads[k] == nil {
			c.Fail("the link %q of node %d names a thread %d that the state it leads to does not have", l.Name, src, k)
		}
	}
	if n := l.Node.GetThreadsCount(); len(used) != n {
		c.Fail("the link %q of node %d tells what %d of the %d threads were before", l.Name, src, len(used), n)
	}
	if len(used) > 1 {
		c.Label("threads of a known state")
	}
}

// checkFiles compares the files of a directory with the nodes they were written from.
func checkFiles(c *Case, nodes []*mc.Node, dir string) ([]string, []*ast.Link) {
	states, links, total := readGraph(c, dir, "nodes_[0-9]*.pb", "adjacency_lists_[0-9]*.pb")
	if len(states) != len(nodes) || total != int64(len(nodes)) {
		c.Fail("%d nodes explored, %d in the files, which state a total of %d", len(nodes), len(states), total)
	}
	idx := map[*mc.Node]int{}
	for i, n := range nodes {
		idx[n] = i
	}
	k := 0
	next := func(want string) {
		if k == len(links) {
			c.Fail("the files end before the link %s", want)
		}
		if got := linkText(links[k]); got != want {
			c.Fail("link %d is\n  %s\nin the files, but\n  %s\nin the graph", k, got, want)
		}
		k++
	}
	for i, n := range nodes {
		if len(n.Outbound) == 0 {
			next(fmt.Sprintf("%d -> %d \"end\" type \"action\" labels [] weight %.9f req 0 threads [] returns [] messages ", i, i, 1.0))
		}
		for _, l := range n.Outbound {
			j, ok := idx[l.Node]
			if !ok {
				c.Fail("the node after the link %s of node %d is not in the list of nodes", l.Name, i)
			}
			next(wantLink(i, j, l, 1/float64(len(n.Outbound))))
			checkThreadsMap(c, i, l)
		}
	}
	if k < len(links) {
		c.Fail("the files have a link too many: %s", linkText(links[k]))
	}
	return states, links
}

type fileNode struct {
	Name    string
	State   json.RawMessage
	Threads []json.RawMessage
	Roles   []struct {
		RefString string `json:"ref_string"`
		Fields    json.RawMessage
		Params    json.RawMessage
	}
	ChannelMessages map[string][]json.RawMessage `json:"channel_messages"`
	Returns         any
	FailedInvariants map[string][]int
}

func unescapeHTML(s string) string {
	for _, r := range []string{"<", ">", "&"} {
		s = strings.ReplaceAll(s, fmt.Sprintf("\\u%04x", r[0]), r)
	}
	return s
}

// fileGraph: the graph of states as the files describe it. rets: how the values of returns (as text) look as JSON.
func fileGraph(c *Case, states []string, links []*ast.Link, rets map[string]string) *Graph {
	fn := make([]fileNode, len(states))
	for i, s := range states {
		if err := json.Unmarshal([]byte(s), &fn[i]); err != nil {
			c.Fail("node %d of the files is no JSON: %v\n%s", i, err, s)
		}
	}
	out := make([][]*ast.Link, len(states))
	for _, l := range links {
		if l.Src < 0 || l.Src >= int64(len(states)) || l.Dest < 0 || l.Dest >= int64(len(states)) {
			c.Fail("there is no node %d or %d", l.Src, l.Dest)
		}
		out[l.Src] = append(out[l.Src], l)
	}
	isState := func(i int) bool { n := fn[i].Name; return n == "yield" || n == "init" || n == "crash" }
	obs := func(i int) string {
		x := &fn[i]
		b := unescapeHTML(string(x.State))
		for _, r := range x.Roles {
			b += " " + r.RefString
			if string(r.Params) != "{}" {
				b += unescapeHTML(string(r.Params))
			}
			b += unescapeHTML(string(r.Fields))
		}
		b += fmt.Sprintf(" t%d", len(x.Threads))
		m := 0
		for _, q := range x.ChannelMessages {
			m += len(q)
		}
		if m > 0 {
			b += fmt.Sprintf(" m%d", m)
		}
		return b
	}
	g := &Graph{}
	id := map[int]int{}
	var order []int
	get := func(i int) int {
		if k, ok := id[i]; ok {
			return k
		}
		id[i] = len(order)
		order = append(order, i)
		g.N = append(g.N, GNode{})
		return id[i]
	}
	get(0)
	for i := 0; i < len(order); i++ {
		n := order[i]
		g.N[i].Obs = obs(n)
		if i == 0 && !isState(n) {
			g.N[0].Obs = "root"
		}
		set := map[string]GEdge{}
		seen := map[string]bool{}
		var walk func(n int, path string, depth int)
		walk = func(n int, path string, depth int) {
			k := fmt.Sprint(n, " ", path)
			if seen[k] || depth > 200 {
				return
			}
			seen[k] = true
			for _, l := range out[n] {
				if l.Name == "end" && l.Src == l.Dest && len(out[n]) == 1 {
					continue
				}
				p := path
				if p != "" {
					p += "|"
				}
				p += normName(l.Name)
				if len(l.Labels) > 0 {
					p += "{" + strings.Join(l.Labels, ",") + "}"
				}
				if len(l.Returns) > 0 {
					p += "=>{"
					for i, r := range l.Returns {
						if i > 0 {
							p += ","
						}
						p += strconv.Quote(r.Name) + ":" + unescapeHTML(rets[r.Name+"\x00"+r.Value])
					}
					p += "}"
				}
				if isState(int(l.Dest)) {
					j := get(int(l.Dest))
					set[fmt.Sprintf("%s>%d", p, j)] = GEdge{L: p, To: j}
				} else {
					walk(int(l.Dest), p, depth+1)
				}
			}
		}
		walk(n, "", 0)
		for _, k := range keysOf2(set) {
			g.N[i].Out = append(g.N[i].Out, set[k])
		}
	}
	return g
}

func keysOf2(m map[string]GEdge) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func runC24(c *Case) {
	var g *Gen
	plainSpec := false
	var odds []Expr
	switch c.W(4, 1, 1) {
	case 0:
		g = genSpec(c.Src, cfgAll())
		plainSpec = true
		if c.P(1, 2) {
			odds = addOdd(c, g)
		}
	case 1:
		g = genCalls(c.Src).gen()
		c.Label("calls")
	default:
		g = genMsgs(c.Src, c.Range(1, 2)).gen()
		c.Label("channels")
	}
	for _, a := range g.S.Actions {
		if c.P(1, 4) {
			a.Fair = pick(c.Src, []Fair{FairUnfair, FairWeak, FairStrong})
		}
	}
	o := opts01(g)
	o.NoDeadlock = true
	if o.Crash = c.P(1, 6); o.Crash {
		g.plainNames()
	}
	o.NoRets = c.P(1, 5)
	fails := c.P(1, 3)
	ro := o
	ro.Crash = false
	ref := refFor(g.S, ro, Quirks{})
	ref.Limit = 600
	if o.Crash {
		ref.Limit = 60
	}
	rg, merr, ok := ref.reference()
	if !ok || merr != "" {
		c.Discard("too-big or model error")
	}
	if o.Crash {
		rg = nil
	}
	if fails && rg != nil && plainSpec {
		if len(odds) > 0 && c.P(1, 2) {
			g.S.Asserts = append(g.S.Asserts, Assertion{Name: "O0", Kind: "always", E: Not{bin(Var("odd"), "==", pick(c.Src, odds))}})
		} else if c.P(1, 3) && len(rg.N) > 1 {
			var edges [][2]*Conf
			for i, x := range rg.C {
				for _, e := range rg.N[i].Out {
					if x != nil {
						edges = append(edges, [2]*Conf{x, rg.C[e.To]})
					}
				}
			}
			if len(edges) > 0 {
				a := Assertion{Name: "T0", Kind: "transition"}
				g.body(&a, g.transPred(edges))
				g.S.Asserts = append(g.S.Asserts, a)
			}
		} else {
			addAlways(c, g, rg, 1)
		}
	} else if rg != nil && plainSpec && c.P(1, 4) {
		var confs []*Conf
		for _, x := range rg.C {
			if x != nil {
				confs = append(confs, x)
			}
		}
		a := Assertion{Name: "E0", Kind: "exists"}
		g.body(&a, g.predicate(confs))
		g.S.Asserts = append(g.S.Asserts, a)
	}
	o.ContinueFail = fails && c.P(1, 3)
	c.Sample(fmt.Sprintf("%+v\n%s", o, g.S.Text()))
	featLabels(c, g)
	run := runImpl(g.S.File(), o)
	if run.Panic != "" || run.Err != nil {
		if o.Crash {
			c.Discard("model error")
		}
		c.Fail("the checker failed on a correct specification: %v %s", run.Err, run.Panic)
	}
	if len(nodeGraph(run.Init).Nodes) > 4000 {
		c.Discard("too big")
	}
	dir, err := os.MkdirTemp("", "verif-export")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	if run.Failed != nil {
		c.Label("a counterexample")
		path := mc.ExtractFailurePath(run.Failed, run.Init)
		checkErrorFiles(c, path, run.Failed, dir, g.S)
	}
	if run.Failed == nil || o.ContinueFail {
		nodes, msgs, _, _ := mc.GetAllNodes(run.Init, 1000000)
		if len(nodes) == 0 {
			c.Discard("no states")
		}
		all := nodeGraph(run.Init)
		if len(all.Nodes) != len(nodes) {
			c.Fail("the graph has %d nodes, the list of nodes %d", len(all.Nodes), len(nodes))
		}
		if c.P(1, 4) { // files of an earlier, larger run that has left only what gets overwritten
			mc.GenerateProtoOfJson(nodes, dir+"/")
		}
		nf, lf, err := mc.GenerateProtoOfJson(nodes, dir+"/")
		if err != nil {
			c.Fail("%v", err)
		}
		if len(nf) != 1 || len(lf) != 1 {
			c.Fail("%d node files and %d link files are announced for %d nodes", len(nf), len(lf), len(nodes))
		}
		states, links := checkFiles(c, nodes, dir)
		rets := map[string]string{}
		states3, mid := 0, false
		for i, n := range nodes {
			if canonJSON([]byte(states[i])) != canonJSON([]byte(n.GetJsonString())) {
				c.Fail("node %d is %s in the files, %s in the graph", i, states[i], n.GetJsonString())
			}
			if n.IsYieldNode() {
				states3++
			} else if i > 0 {
				mid = true
			}
			for _, l := range n.Outbound {
				for k, v := range l.Returns {
					j := mc.StringDictToJsonString(map[string]mcValue{k: v})
					rets[k+"\x00"+v.String()] = strings.TrimSuffix(strings.TrimPrefix(j, "{"+strconv.Quote(k)+":"), "}")
				}
				mid = mid || len(l.Labels) > 0 || len(l.Returns) > 0 || len(l.Messages) > 0
			}
		}
		fg := fileGraph(c, states, links, rets)
		if d := diffGraphs("files", "checker", fg, normHTML(extract(run.Init, true))); d != "" {
			c.Fail("the graph in the files differs from the explored one: %s", d)
		}
		if rg != nil && run.Failed == nil && !o.NoRets {
			if d := diffGraphs("files", "reference", fg, normHTML(&rg.Graph)); d != "" {
				qg, _, ok := refFor(g.S, o, Quirks{ForkReset: true}).reference()
				if !ok || diffGraphs("files", "reference", fg, normHTML(&qg.Graph)) != "" {
					c.Fail("the graph in the files differs from the specification's: %s", d)
				}
				c.Label("known enabled-forgotten difference")
			}
		}
		checkDot(c, run.Init, len(nodes))
		checkCommunication(c, nodes, msgs)
		if len(nodes) >= 5 && states3 >= 3 && mid {
			c.NonTrivial(g.S.Text())
		}
		c.Label(sizeLabel(states3))
	} else {
		checkDot(c, run.Init, len(nodeGraph(run.Init).Nodes))
		if len(mc.ExtractFailurePath(run.Failed, run.Init)) >= 3 {
			c.NonTrivial(g.S.Text())
		}
	}
	if o.Crash || o.ContinueFail || !c.P(1, 5) {
		return
	}
	// the same through the command line
	c.Label("command line")
	f := g.S.File()
	setFrontMatter(f, fmt.Sprintf("options:\n  max_actions: %d\n  max_concurrent_actions: %d\n  crash_on_yield: false\ndeadlock_detection: false\n", o.MaxActions, o.MaxConc))
	var args []string
	if o.NoRets {
		args = append(args, "--experimental_no_state_returns")
	}
	r := runCLI(c, map[string]any{"spec.json": f, "spec.fizz": g.S.Text()}, args...)
	defer r.close()
	if r.Code != 0 {
		c.Fail("the run of the binary ended with exit status %d\n%s", r.Code, r.short())
	}
	o2 := filepath.Join(r.Dir, "o")
	same := func(what string, a, b []string) {
		if d := firstDifference(a, b); d != "" {
			c.Fail("%s of the command-line run: %s\n%s", what, d, r.short())
		}
	}
	if run.Failed != nil {
		s1, l1, _ := readGraph(c, dir, "nodes_errors.pb", "adjacency_lists_errors.pb")
		s2, l2, _ := readGraph(c, o2, "nodes_errors.pb", "adjacency_lists_errors.pb")
		same("the error states", canonAll(s2), canonAll(s1))
		same("the error links", linkTexts(l2), linkTexts(l1))
		html := r.outFile("error-states.html")
		checkHTML(c, mc.ExtractFailurePath(run.Failed, run.Init), html, g.S.Text())
		return
	}
	if !strings.Contains(r.Out, "PASSED") {
		return // exists assertions without a witness: no files
	}
	s1, l1, _ := readGraph(c, dir, "nodes_[0-9]*.pb", "adjacency_lists_[0-9]*.pb")
	s2, l2, _ := readGraph(c, o2, "nodes_[0-9]*.pb", "adjacency_lists_[0-9]*.pb")
	same("the states", canonAll(s2), canonAll(s1))
	same("the links", linkTexts(l2), linkTexts(l1))
	if dot := r.outFile("graph.dot"); dot != "" {
		d, err := parseDot(dot)
		if err != nil {
			c.Fail("graph.dot: %v", err)
		}
		// the drawing also has the steps that cannot be completed, but no other states
		n1, n2 := 0, 0
		for _, a := range d.Nodes {
			if strings.HasPrefix(a["label"], "yield\nActions:") {
				n1++
			}
		}
		for _, s := range s2 {
			if strings.Contains(s, `"name":"yield"`) {
				n2++
			}
		}
		if n1 != n2 {
			c.Fail("graph.dot has %d states, the files %d", n1, n2)
		}
	}
}

// canonAll: without the return values of states, which depend on an option
func canonAll(s []string) (r []string) {
	for _, x := range s {
		var m map[string]any
		if json.Unmarshal([]byte(x), &m) == nil {
			delete(m, "returns")
			b, _ := json.Marshal(m)
			x = string(b)
		}
		r = append(r, canonJSON([]byte(x)))
	}
	return
}

func linkTexts(l []*ast.Link) (r []string) {
	for _, x := range l {
		r = append(r, linkText(x))
	}
	return
}

func firstDifference(a, b []string) string {
	for i := range a {
		if i >= len(b) {
			return fmt.Sprintf("%d instead of %d", len(a), len(b))
		}
		if a[i] != b[i] {
			return fmt.Sprintf("number %d is\n%s\ninstead of\n%s", i, a[i], b[i])
		}
	}
	if len(a) < len(b) {
		return fmt.Sprintf("%d instead of %d", len(a), len(b))
	}
	return ""
}

func normHTML(g *Graph) *Graph {
	h := &Graph{}
	for _, n := range g.N {
		n.Obs = unescapeHTML(n.Obs)
		n.Out = append([]GEdge{}, n.Out...)
		for i := range n.Out {
			n.Out[i].L = unescapeHTML(n.Out[i].L)
		}
		h.N = append(h.N, n)
	}
	return h
}

// checkErrorFiles: the files of a counterexample
func checkErrorFiles(c *Case, path []*mc.Link, failed *mc.Node, dir string, s *Spec) {
	if len(path) == 0 || path[len(path)-1].Node != failed {
		c.Fail("the counterexample does not end in the failing state")
	}
	if _, _, err := mc.GenerateErrorPathProtoOfJson(path, dir+"/"); err != nil {
		c.Fail("%v", err)
	}
	states, links, total := readGraph(c, dir, "nodes_errors.pb", "adjacency_lists_errors.pb")
	if len(states) != len(path) || len(links) != len(path)-1 || len(links) > 0 && total != int64(len(path)) {
		c.Fail("the counterexample has %d states, the files %d states (stated: %d) and %d links", len(path), len(states), total, len(links))
	}
	for i, l := range path {
		if canonJSON([]byte(states[i])) != canonJSON([]byte(l.Node.GetJsonString())) {
			c.Fail("state %d of the counterexample is %s in the files, %s in the graph", i, states[i], l.Node.GetJsonString())
		}
		if i > 0 {
			if got, want := linkText(links[i-1]), wantLink(i-1, i, l, 1); got != want {
				c.Fail("link %d of the counterexample is\n  %s\nin the files, but\n  %s\nin the graph", i-1, got, want)
			}
		}
	}
	src := s.Text() + "\n# <b> & \"quotes\" &amp; \\ %d"
	os.WriteFile(dir+"/spec.fizz", []byte(src), 0o644)
	if err := mc.GenerateFailurePathHtml(dir+"/spec.fizz", path, nil, dir); err != nil {
		c.Fail("%v", err)
	}
	page, _ := os.ReadFile(dir + "/error-states.html")
	checkHTML(c, path, string(page), src)
	// the drawing
	d, err := parseDot(mc.GenerateFailurePath(path, "", nil))
	if err != nil {
		c.Fail("the drawing of the counterexample: %v", err)
	}
	num := map[*mc.Node]string{}
	var ids []string
	wantN := map[string]string{}
	for i, l := range path {
		if num[l.Node] == "" {
			num[l.Node] = strconv.Itoa(i)
			wantN[num[l.Node]] = nodeAttrs(l.Node)
		}
		ids = append(ids, num[l.Node])
	}
	var wantE []string
	for i, l := range path {
		if i > 0 {
			wantE = append(wantE, ids[i-1]+" -> "+ids[i]+" "+plain(fmt.Sprintf("%d: %s", i, l.Name))+linkStyle(l))
		}
	}
	compareDot(c, "the drawing of the counterexample", d, wantN, wantE)
}

// plain: without what drawings may change in texts (escapes and line ends)
func plain(s string) string {
	s = unescapeHTML(s)
	return strings.NewReplacer("\\n", "", "\\", "", "\n", "").Replace(s)
}

func nodeAttrs(n *mc.Node) string {
	// runImpl has switched the returns on again
	const noRets = false
	color := "black"
	for _, w := range n.Process.Witness {
		for _, pass := range w {
			if pass {
				color = "green"
			}
		}
	}
	for _, l := range n.Process.FailedInvariants {
		if len(l) > 0 {
			color = "red"
		}
	}
	w := "1"
	if n.GetThreadsCount() == 0 || n.Name == "yield" {
		w = "2"
	}
	t := ""
	if s := n.Heap.ToJson(); s != "{}" {
		t = "State: " + s
	}
	if len(n.Returns) > 0 && !noRets {
		t += "Returns: " + mc.StringDictToJsonString(n.Returns)
	}
	for _, r := range n.Roles {
		t += "\\n" + r.RefStringShort() + ": " + r.Fields.String()
	}
	return plain(n.Name) + " * " + plain(t) + " * " + color + " " + w
}

func linkStyle(l *mc.Link) string {
	color, w := "black", "1"
	switch l.Fairness {
	case ast.FairnessLevel_FAIRNESS_LEVEL_WEAK:
		color = "forestgreen"
	case ast.FairnessLevel_FAIRNESS_LEVEL_STRONG:
		color, w = "forestgreen", "3"
	}
	for _, f := range l.FailedInvariants {
		if len(f) > 0 {
			color = "red"
		}
	}
	return " " + color + " " + w
}

// compareDot: wantN has for every node "name * state * color width"; the label may have more than the name and the
// state, in this order.
func compareDot(c *Case, what string, d *Dot, wantN map[string]string, wantE []string) {
	for id, w := range wantN {
		a, ok := d.Nodes[id]
		if !ok {
			c.Fail("%s lacks the node %s", what, id)
		}
		p := strings.SplitN(w, " * ", 2)
		q := strings.LastIndex(p[1], " * ")
		l := plain(a["label"])
		if !strings.HasPrefix(l, p[0]+"Actions:") || !strings.Contains(l, p[1][:q]) || p[1][q+3:] != a["color"]+" "+a["penwidth"] {
			c.Fail("%s: the node %s is %v instead of %s", what, id, a, w)
		}
	}
	for id := range d.Nodes {
		if wantN[id] == "" {
			c.Fail("%s has the node %s, which does not exist", what, id)
		}
	}
	var got []string
	for _, e := range d.Edges {
		got = append(got, e.From+" -> "+e.To+" "+plain(e.A["label"])+" "+e.A["color"]+" "+e.A["penwidth"])
	}
	sort.Strings(got)
	sort.Strings(wantE)
	if s := firstDifference(got, wantE); s != "" {
		c.Fail("%s: edge %s", what, s)
	}
}

func checkDot(c *Case, root *mc.Node, n int) {
	if n > 400 { // the text is put together in quadratic time; the binary draws only small graphs
		return
	}
	d, err := parseDot(mc.GenerateDotFile(root, map[*mc.Node]bool{}))
	if err != nil {
		c.Fail("the drawing of the graph: %v", err)
	}
	wantN := map[string]string{}
	var wantE []string
	off := func(n *mc.Node) bool { return n.Process != nil && !n.Process.Enabled }
	seen := map[*mc.Node]bool{root: true}
	for q := []*mc.Node{root}; len(q) > 0; q = q[1:] {
		n := q[0]
		if off(n) {
			continue
		}
		wantN[fmt.Sprintf("%p", n)] = nodeAttrs(n)
		for _, l := range n.Outbound {
			if off(l.Node) {
				continue
			}
			label := l.Name
			if len(l.Labels) > 0 {
				label += "[" + strings.Join(l.Labels, ", ") + "]"
			}
			if len(l.Returns) > 0 {
				label += " returns: " + mc.StringDictToJsonString(l.Returns)
			}
			if len(l.ThreadsMap) > 0 {
				label += fmt.Sprintf(" ThreadsMap: %v", l.ThreadsMap)
			}
			wantE = append(wantE, fmt.Sprintf("%p -> %p ", n, l.Node)+plain(label)+linkStyle(l))
			if !seen[l.Node] {
				seen[l.Node] = true
				q = append(q, l.Node)
			}
		}
	}
	compareDot(c, "the drawing of the graph", d, wantN, wantE)
}

// checkCommunication: who calls whom
func checkCommunication(c *Case, nodes []*mc.Node, msgs []string) {
	want := map[string]map[string]bool{} // sender role (or "") > receiver role -> names
	many := map[string]bool{}
	put := func(k, v string) {
		if want[k] == nil {
			want[k] = map[string]bool{}
		}
		want[k][v] = true
	}
	role := func(s string) string {
		p := strings.Split(s, "#")
		many[p[0]] = many[p[0]] || len(p) > 1 && p[1] != "0"
		return p[0]
	}
	for _, n := range nodes {
		for _, l := range n.Outbound {
			if p := strings.Split(l.Name, "."); l.Type == "action" && len(p) == 2 && n != l.Node && n.HashCode() != l.Node.HashCode() {
				put(">"+role(p[0]), p[1])
			}
			for _, m := range l.Messages {
				if m.IsReturn {
					continue
				}
				for _, r := range m.Receivers {
					s := ""
					if m.Sender != "" {
						s = role(m.Sender)
					}
					put(s+">"+role(r), m.Name)
				}
			}
		}
	}
	if len(want) > 0 {
		c.Label("communication")
	}
	text := mc.GenerateCommunicationGraph(msgs)
	d, err := parseDot(text)
	if err != nil {
		c.Fail("the communication diagram: %v\n%s", err, text)
	}
	got := map[string]map[string]bool{}
	ports := map[string]map[string]bool{}
	for _, e := range d.Edges {
		from := e.From
		if strings.HasPrefix(from, "FairAction"+e.To) && e.FromPort == e.A["label"] || from == "action"+e.To+e.A["label"] {
			from = ""
		}
		k := from + ">" + e.To
		if got[k] == nil {
			got[k], ports[k] = map[string]bool{}, map[string]bool{}
		}
		for _, n := range strings.Split(e.A["label"], ", ") {
			got[k][n] = true
		}
		ports[k][e.FromPort+">"+e.ToPort] = true
	}
	if a, b := fmt.Sprint(got), fmt.Sprint(want); a != b {
		c.Fail("the communication diagram has %s, the links have %s\n%s", a, b, text)
	}
	for k := range got {
		p := strings.Split(k, ">")
		if p[0] == "" {
			continue
		}
		n := 1
		for _, r := range p {
			if many[r] {
				n *= 2
			}
		}
		if len(ports[k]) != n {
			c.Fail("the communication diagram has %d edges for %s\n%s", len(ports[k]), k, text)
		}
	}
	for i := 0; i < 3; i++ {
		if t := mc.GenerateCommunicationGraph(msgs); t != text {
			c.Fail("the communication diagram of the same messages differs:\n%s\n%s", text, t)
		}
	}
}

// ---- the graphs' text format ----

type DotEdge struct {
	From, FromPort, To, ToPort string
	A                          map[string]string
}
type Dot struct {
	Nodes map[string]map[string]string
	Edges []DotEdge
}

var reBare = regexp.MustCompile(`^[A-Za-z_\x80-\xff0-9.]+$`)

func dotTokens(s string) (toks []string, err error) {
	for i := 0; i < len(s); {
		switch ch := s[i]; {
		case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r':
			i++
		case ch == '"':
			j := i + 1
			var b strings.Builder
			for ; j < len(s) && s[j] != '"'; j++ {
				if s[j] == '\\' && j+1 < len(s) {
					if s[j+1] == '"' {
						j++
					} else if s[j+1] == '\\' {
						b.WriteByte('\\')
						j++
					}
				}
				b.WriteByte(s[j])
			}
			if j == len(s) {
				return nil, fmt.Errorf("a quoted text does not end")
			}
			toks = append(toks, "\""+b.String())
			i = j + 1
		case ch == '<':
			d, j := 0, i
			for ; j < len(s); j++ {
				if s[j] == '<' {
					d++
				} else if s[j] == '>' {
					if d--; d == 0 {
						break
					}
				}
			}
			if j == len(s) {
				return nil, fmt.Errorf("an HTML text does not end")
			}
			toks = append(toks, s[i:j+1])
			i = j + 1
		case strings.HasPrefix(s[i:], "->"):
			toks = append(toks, "->")
			i += 2
		case strings.IndexByte("{}[];,=:", ch) >= 0:
			toks = append(toks, string(ch))
			i++
		default:
			j := i
			for j < len(s) && reBare.MatchString(s[j:j+1]) {
				j++
			}
			if j == i {
				return nil, fmt.Errorf("unexpected %q at %q", ch, s[max(0, i-40):min(len(s), i+20)])
			}
			toks = append(toks, "\""+s[i:j])
			i = j
		}
	}
	return
}

func parseDot(s string) (d *Dot, err error) {
	toks, err := dotTokens(s)
	if err != nil {
		return nil, err
	}
	d = &Dot{Nodes: map[string]map[string]string{}}
	pos := 0
	peek := func() string {
		if pos < len(toks) {
			return toks[pos]
		}
		return ""
	}
	fail := func(what string) {
		panic(fmt.Errorf("%s expected at %q", what, toks[max(0, pos-6):min(len(toks), pos+4)]))
	}
	defer func() {
		if r := recover(); r != nil {
			err = r.(error)
		}
	}()
	eat := func(t string) {
		if peek() != t {
			fail(t)
		}
		pos++
	}
	id := func() string {
		t := peek()
		if t == "" || t[0] != '"' && t[0] != '<' {
			fail("an identifier")
		}
		pos++
		if t[0] == '"' {
			return t[1:]
		}
		return t
	}
	attrs := func() map[string]string {
		m := map[string]string{}
		for peek() == "[" {
			pos++
			for peek() != "]" {
				k := id()
				eat("=")
				m[k] = id()
				if peek() == "," || peek() == ";" {
					pos++
				}
			}
			pos++
		}
		return m
	}
	var list func()
	list = func() {
		eat("{")
		for peek() != "}" {
			if peek() == ";" {
				pos++
				continue
			}
			if peek() == "{" {
				list()
				continue
			}
			if peek() == "\"subgraph" {
				pos++
				if peek() != "{" {
					id()
				}
				list()
				continue
			}
			x := id()
			if peek() == "=" {
				pos++
				id()
				continue
			}
			if x == "node" || x == "edge" || x == "graph" {
				attrs()
				continue
			}
			port := ""
			if peek() == ":" {
				pos++
				port = id()
			}
			if peek() == "->" {
				pos++
				e := DotEdge{From: x, FromPort: port, To: id()}
				if peek() == ":" {
					pos++
					e.ToPort = id()
				}
				e.A = attrs()
				d.Edges = append(d.Edges, e)
				continue
			}
			a := attrs()
			if d.Nodes[x] == nil {
				d.Nodes[x] = map[string]string{}
			}
			for k, v := range a {
				d.Nodes[x][k] = v
			}
		}
		pos++
	}
	if id() != "digraph" {
		pos = 0
		fail("digraph")
	}
	if peek() != "{" {
		id()
	}
	list()
	if pos != len(toks) {
		fail("the end")
	}
	return d, nil
}

// checkHTML: the page of a counterexample
func checkHTML(c *Case, path []*mc.Link, page, src string) {
	rows := regexp.MustCompile(`(?s)<tr>\s*<td>(\d+)</td>(.*?)</tr>`).FindAllStringSubmatch(page, -1)
	if len(rows) != len(path) {
		c.Fail("error-states.html has %d rows, the counterexample %d steps", len(rows), len(path))
	}
	dec := func(s string) string {
		b, err := base64.StdEncoding.DecodeString(strings.ReplaceAll(html.UnescapeString(s), "%2b", "+"))
		if err != nil {
			c.Fail("error-states.html: a link to a comparison cannot be decoded: %v", err)
		}
		var m struct {
			Name string
			Node json.RawMessage
		}
		if err := json.Unmarshal(b, &m); err != nil {
			c.Fail("error-states.html: a link to a comparison is no JSON: %v", err)
		}
		return m.Name + " " + canonAll([]string{string(m.Node)})[0]
	}
	want := func(l *mc.Link) string {
		b, _ := json.Marshal(l.Node)
		return l.Name + " " + canonAll([]string{string(b)})[0]
	}
	re := regexp.MustCompile(`left=data:base64,([^&"]*)&amp;right=data:base64,([^"]*)"`)
	yield := -1
	for i, r := range rows {
		// the first row is in the first lane
		if !strings.Contains(html.UnescapeString(r[2]), path[i].Name) {
			c.Fail("row %s of error-states.html does not have the name of the step, %q: %s", r[1], path[i].Name, r[2])
		}
		if strings.Contains(path[i].Name, "<") && strings.Contains(r[2], path[i].Name) {
			c.Fail("row %s of error-states.html has the name of the step, %q, as markup", r[1], path[i].Name)
		}
		m := re.FindAllStringSubmatch(r[2], -1)
		isY := path[i].Node.Name == "yield"
		n := 0
		if i > 0 {
			n++
			if isY && yield >= 0 {
				n++
			}
		}
		if len(m) != n {
			c.Fail("row %s of error-states.html has %d comparisons instead of %d", r[1], len(m), n)
		}
		for j, p := range m {
			left := i - 1
			if j == 1 {
				left = yield
			}
			if a, b := dec(p[1]), want(path[left]); a != b {
				c.Fail("row %s of error-states.html compares with\n%s\ninstead of\n%s", r[1], a, b)
			}
			if a, b := dec(p[2]), want(path[i]); a != b {
				c.Fail("row %s of error-states.html compares\n%s\ninstead of\n%s", r[1], a, b)
			}
		}
		if isY {
			yield = i
		}
	}
	code := regexp.MustCompile(`(?s)<pre><code>(.*?)</code></pre>`).FindAllStringSubmatch(page, -1)
	lines := strings.Split(src, "\n")
	if len(code) != len(lines) {
		c.Fail("error-states.html has %d lines of the specification instead of %d", len(code), len(lines))
	}
	for i, l := range lines {
		if got := html.UnescapeString(code[i][1]); got != l && strings.TrimSpace(l) != "" {
			c.Fail("error-states.html: line %d of the specification is %q instead of %q", i+1, got, l)
		}
	}
}

type mcValue = starlark.Value

// shardBoundaries: more nodes and links than one file holds. The nodes share few states, in an order that shows
// a missing, repeated or misplaced one; links that say something are at and around the boundaries.
// oddValues: values that have no JSON of their own still give files that can be read, one state each.
func oddValues(c *Case) {
	alts := []string{"float('inf')", "-float('inf')", "float('nan')", "1e300", "[float('inf'), float('nan')]", "{'k': float('inf')}", "'\u00e9'[0:1]", "'\u00e9'[1:2]", "record(f = float('-inf'))"}
	for _, in := range []func(t string) *Spec{
		func(t string) *Spec {
			return &Spec{Init: blk(FAtomic, set("x", I(0))), Actions: []*Action{act("A", FAtomic, &Stmt{K: SRequire, E: rawE("x == 0")}, set("x", rawE(t)))}}
		},
		func(t string) *Spec {
			return &Spec{Init: blk(FAtomic, set("n", rawE("Node()"))), Roles: []*RoleDef{{Name: "Node", Actions: []*Action{
				{Name: "Init", Flow: FAtomic, Blk: blk(FAtomic, py(RawPy("self.x = 0")))},
				act("A", FAtomic, &Stmt{K: SRequire, E: rawE("self.x == 0")}, py(RawPy("self.x = "+t)))}}}}
		},
		func(t string) *Spec {
			return &Spec{Init: blk(FAtomic, set("x", I(0))), Actions: []*Action{act("A", FAtomic, &Stmt{K: SRequire, E: rawE("x == 0")}, py(RawPy("x = 1")), &Stmt{K: SReturn, E: rawE(t)})}}
		},
	} {
		for _, t := range alts {
			s := in(t)
			run := runImpl(s.File(), Opts{MaxActions: 3, MaxConc: 1, NoDeadlock: true})
			if run.Panic != "" || run.Err != nil {
				c.Fail("the checker failed: %v %s\n%s", run.Err, run.Panic, s.Text())
			}
			nodes, _, _, _ := mc.GetAllNodes(run.Init, 1000)
			func() {
				dir, err := os.MkdirTemp("", "verif-odd")
				if err != nil {
					panic(err)
				}
				defer os.RemoveAll(dir)
				if _, _, err := mc.GenerateProtoOfJson(nodes, dir+"/"); err != nil {
					c.Fail("%v", err)
				}
				states, _ := checkFiles(c, nodes, dir)
				for i, st := range states {
					if !json.Valid([]byte(st)) {
						c.Fail("state %d is written as %q, which is not JSON\n%s", i, st, s.Text())
					}
				}
				checkDot(c, run.Init, len(nodes))
			}()
		}
	}
}

func shardBoundaries(c *Case) {
	sizes := [][2]int{{1000001, 11}}
	if c.Tier == "thorough" {
		sizes = [][2]int{{999999, 1}, {1000000, 1}, {1000001, 1}, {2000000, 1}, {2000003, 1}, {999983, 11}, {1500000, 14}}
	}
	defer debug.SetGCPercent(debug.SetGCPercent(300))
	var procs []*mc.Process
	for i := 0; i < 7; i++ {
		p := mc.NewProcess(fmt.Sprintf("p%d", i), nil, nil)
		procs = append(procs, p)
	}
	for _, sz := range sizes {
		c.Sample(fmt.Sprintf("%d nodes with up to %d links each", sz[0], sz[1]))
		n := sz[0]
		nodes := make([]*mc.Node, n)
		backing := make([]mc.Node, n)
		for i := range nodes {
			nodes[i] = &backing[i]
			nodes[i].Process = procs[i%7]
		}
		nlinks := 0
		outs := make([]mc.Link, n*sz[1])
		ptrs := make([]*mc.Link, n*sz[1])
		for i := range outs {
			l := &outs[i]
			l.Node = nodes[(i*31+17)%n]
			l.Name = procs[i%5].Name
			l.ReqId = i
			ptrs[i] = l
		}
		for i, nd := range nodes {
			k := sz[1]
			if i%11 == 3 {
				k = 0
				nlinks++
			}
			nd.Outbound = ptrs[i*sz[1] : i*sz[1]+k]
			nlinks += k
		}
		dir, err := os.MkdirTemp("", "verif-shards")
		if err != nil {
			panic(err)
		}
		func() {
			defer os.RemoveAll(dir)
			nf, lf, err := mc.GenerateProtoOfJson(nodes, dir+"/")
			if err != nil {
				c.Fail("%v", err)
			}
			fn, _ := filepath.Glob(dir + "/nodes_*.pb")
			fl, _ := filepath.Glob(dir + "/adjacency_lists_*.pb")
			sort.Strings(nf)
			sort.Strings(lf)
			if fmt.Sprint(nf) != fmt.Sprint(fn) || fmt.Sprint(lf) != fmt.Sprint(fl) {
				c.Fail("%d nodes: the files %v %v are announced, %v %v are written", n, nf, lf, fn, fl)
			}
			jsons := map[*mc.Process]string{}
			for _, p := range procs {
				jsons[p] = (&mc.Node{Process: p}).GetJsonString()
			}
			i := 0
			for _, f := range fn {
				var x ast.Nodes
				readPB(c, &x, f)
				for _, s := range x.Json {
					if i >= n || s != jsons[nodes[i].Process] {
						c.Fail("%d nodes: the node %d is not the one in %s", n, i, filepath.Base(f))
					}
					i++
				}
			}
			if i != n {
				c.Fail("%d nodes: the files have %d", n, i)
			}
			src, k, seen := 0, 0, 0
			for _, f := range fl {
				data, err := os.ReadFile(f)
				if err != nil {
					c.Fail("%v", err)
				}
				total, err := eachLink(data, func(lsrc, ldest, lreq int64, lname []byte, lw float64) {
					seen++
					for src < n && k >= max(1, len(nodes[src].Outbound)) {
						src, k = src+1, 0
					}
					if src == n {
						c.Fail("%d nodes: %s has links too many", n, filepath.Base(f))
					}
					wd, wn, wr, ww := src, "end", 0, 1.0
					if out := nodes[src].Outbound; len(out) > 0 {
						wd, wn, wr, ww = (out[k].ReqId*31+17)%n, out[k].Name, out[k].ReqId, 1/float64(len(out))
					}
					if lsrc != int64(src) || ldest != int64(wd) || string(lname) != wn || lreq != int64(wr) || lw != ww {
						c.Fail("%d nodes, %d links: link %d (in %s) is %d -> %d %q req %d weight %f instead of %d -> %d %q req %d weight %f", n, nlinks, seen, filepath.Base(f),
							lsrc, ldest, lname, lreq, lw, src, wd, wn, wr, ww)
					}
					k++
				})
				if err != nil {
					c.Fail("%s: %v", filepath.Base(f), err)
				}
				if total != int64(n) {
					c.Fail("%s states a total of %d nodes instead of %d", filepath.Base(f), total, n)
				}
			}
			if seen != nlinks {
				c.Fail("%d nodes: the files have %d links instead of %d", n, seen, nlinks)
			}
		}()
	}
	c.NonTrivial(fmt.Sprint(sizes))
	c.Label("file boundaries")
}

// eachLink reads a file of links without building it in memory.
func eachLink(b []byte, f func(src, dest, req int64, name []byte, w float64)) (total int64, err error) {
	for len(b) > 0 {
		num, typ, n := protowire.ConsumeTag(b)
		if n < 0 {
			return 0, protowire.ParseError(n)
		}
		b = b[n:]
		if num == 1 && typ == protowire.VarintType {
			v, n := protowire.ConsumeVarint(b)
			if n < 0 {
				return 0, protowire.ParseError(n)
			}
			total, b = int64(v), b[n:]
			continue
		}
		m, n := protowire.ConsumeBytes(b)
		if n < 0 || num != 2 {
			return 0, fmt.Errorf("unexpected field %d", num)
		}
		b = b[n:]
		var src, dest, req int64
		var name []byte
		var w float64
		for len(m) > 0 {
			num, typ, n := protowire.ConsumeTag(m)
			if n < 0 {
				return 0, protowire.ParseError(n)
			}
			m = m[n:]
			switch {
			case typ == protowire.VarintType:
				v, n2 := protowire.ConsumeVarint(m)
				n = n2
				switch num {
				case 1:
					src = int64(v)
				case 2:
					dest = int64(v)
				case 7:
					if n >= 0 {
						req = int64(v)
					}
				}
			case num == 3:
				name, n = protowire.ConsumeBytes(m)
			case num == 5:
				v, n2 := protowire.ConsumeFixed64(m)
				w, n = math.Float64frombits(v), n2
			default:
				n = protowire.ConsumeFieldValue(num, typ, m)
			}
			if n < 0 {
				return 0, protowire.ParseError(n)
			}
			m = m[n:]
		}
		f(src, dest, req, name, w)
	}
	return
}
