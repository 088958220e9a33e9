package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Case is one generated case of a property.
type Case struct {
	*Src
	Idx     int
	Tier    string
	failed  string
	labels  []string
	nt      string // non-empty: non-trivial, with this identity
	sample  string
	discard bool
	known   []string // known findings observed
}

type failPanic struct{}

// Fail records an oracle violation and ends the case.
func (c *Case) Fail(f string, a ...any) {
	c.failed = fmt.Sprintf(f, a...)
	panic(failPanic{})
}
func (c *Case) Label(l string)         { c.labels = append(c.labels, l) }
func (c *Case) NonTrivial(key string)  { c.nt = key }
func (c *Case) Sample(s string) {
	c.sample = s
	if f := os.Getenv("VH_SHOW"); f != "" {
		os.WriteFile(f, []byte(s), 0o644)
	}
}

// Known records that the known finding id (listed in known_findings.txt) was observed; an unlisted one is a failure.
func (c *Case) Known(id, detail string, a ...any) {
	if _, ok := knownFindings()[id]; !ok {
		c.Fail("%s (not a listed finding): "+detail, append([]any{id}, a...)...)
	}
	c.known = append(c.known, id)
}

var knownMap map[string]string

// knownFindings reads the lines "known: property=C01 id=<id> <text>" of known_findings.txt.
func knownFindings() map[string]string {
	if knownMap != nil {
		return knownMap
	}
	knownMap = map[string]string{}
	b, _ := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && f[0] == "known:" {
			knownMap[strings.TrimPrefix(f[1], "property=")+"/"+strings.TrimPrefix(f[2], "id=")] = f[3]
			knownMap[strings.TrimPrefix(f[2], "id=")] = f[3]
		}
	}
	return knownMap
}
func (c *Case) Discard(label string) {
	c.discard = true
	c.labels = append(c.labels, "discard:"+label)
	panic(failPanic{})
}

type Prop struct {
	ID, Rule string
	Quick    int // cases
	Thorough int
	Run      func(c *Case)
	// Fixed cases run before the generated ones (choice sequence {fixedBase+i}).
	Fixed []func(c *Case)
	Assume []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// runCase executes one case, turning panics into failures.
func runCase(p *Prop, c *Case) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(failPanic); ok {
				return
			}
			st := string(debug.Stack())
			c.failed = fmt.Sprintf("panic: %v\n%s", r, trimStack(st))
		}
	}()
	if len(c.replay) == 1 && c.replay[0] >= fixedBase {
		p.Fixed[c.replay[0]-fixedBase](c)
		return
	}
	p.Run(c)
}

const fixedBase = 0xFFFF0000

func trimStack(s string) string {
	l := strings.Split(s, "\n")
	if len(l) > 40 {
		l = l[:40]
	}
	return strings.Join(l, "\n")
}

type msg struct {
	T       string // S start, F fail, D done
	Idx     int
	Msg     string   `json:",omitempty"`
	Choices []uint32 `json:",omitempty"`
	Orig    []uint32 `json:",omitempty"`
	Sample  string   `json:",omitempty"`
	Evals   int            `json:",omitempty"`
	NT      []string       `json:",omitempty"` // hashes
	Labels  map[string]int `json:",omitempty"`
	Samples []string       `json:",omitempty"`
	Discard int            `json:",omitempty"`
	Known   map[string]int `json:",omitempty"`
}

type replayFile struct {
	Property string
	Seed     int64
	Tier     string
	Idx      int
	Message  string
	Case     string
	Choices  []uint32
	Original []uint32 `json:",omitempty"`
	// when the case fails only after others: the shard to run again
	Shard  int `json:",omitempty"`
	Shards int `json:",omitempty"`
}

const hangSecs = 90

// cpuTime used by the process so far
func cpuTime() time.Duration {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

var caseStart time.Time
var caseMu sync.Mutex

// worker: runs cases shard, shard+shards, ... < n
func worker(p *Prop, seed int64, tier string, shard, shards, n int, budget time.Duration, only int) {
	out := os.NewFile(3, "report")
	w := bufio.NewWriter(out)
	send := func(m msg) {
		b, _ := json.Marshal(m)
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
	devnull, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout = devnull
	go func() {
		for {
			time.Sleep(time.Second)
			caseMu.Lock()
			st := caseStart
			caseMu.Unlock()
			if only >= 0 {
				// alone: decides whether there is a hang, whatever else the machine is doing
				if cpuTime() < 150*time.Second && time.Since(st) < 400*time.Second {
					continue
				}
			}
			if !st.IsZero() && time.Since(st) > hangSecs*time.Second {
				fmt.Fprintln(os.Stderr, "HANG")
				os.Exit(97)
			}
		}
	}()
	t0 := time.Now()
	res := msg{T: "D", Labels: map[string]int{}, Known: map[string]int{}}
	seen := map[string]bool{}
	fails := 0
	first := shard
	if shard == 0 && len(p.Fixed) > 0 && only < 0 {
		first = -len(p.Fixed) * shards
	}
	for i := first; i < n; i += shards {
		if time.Since(t0) > budget {
			res.Labels["time budget reached"]++
			break
		}
		fmt.Fprintf(w, "{\"T\":\"S\",\"Idx\":%d}\n", i)
		w.Flush()
		c := &Case{Src: NewSrc(caseSeed(seed, p.ID, i)), Idx: i, Tier: tier}
		if i < 0 {
			c.Src = ReplaySrc([]uint32{fixedBase + uint32(-i/shards) - 1})
		}
		caseMu.Lock()
		caseStart = time.Now()
		caseMu.Unlock()
		runCase(p, c)
		caseMu.Lock()
		caseStart = time.Time{}
		caseMu.Unlock()
		res.Evals++
		for _, l := range c.labels {
			res.Labels[l]++
		}
		for _, k := range c.known {
			res.Known[k]++
		}
		if c.failed != "" {
			orig := append([]uint32{}, c.Rec...)
			if i < 0 {
				orig = c.replay
				send(msg{T: "F", Idx: i, Msg: c.failed, Choices: orig, Orig: orig, Sample: c.sample})
				break
			}
			best, bm, bs := shrink(p, orig, c.failed, c.sample, tier, 25*time.Second)
			send(msg{T: "F", Idx: i, Msg: bm, Choices: best, Orig: orig, Sample: bs})
			fails++
			if fails >= 1 {
				break
			}
			continue
		}
		if c.discard {
			res.Discard++
			continue
		}
		if c.nt != "" {
			h := fmt.Sprintf("%x", sha256.Sum256([]byte(c.nt)))[:16]
			if !seen[h] {
				seen[h] = true
				if len(res.Samples) < 3 && c.sample != "" {
					res.Samples = append(res.Samples, c.sample)
				}
			}
		}
	}
	for h := range seen {
		res.NT = append(res.NT, h)
	}
	send(res)
}

func failKind(m string) string {
	if i := strings.IndexByte(m, '\n'); i >= 0 {
		m = m[:i]
	}
	if i := strings.IndexByte(m, ':'); i >= 0 {
		m = m[:i]
	}
	return m
}

// shrink minimises the choice sequence by deleting, zeroing and decreasing choices.
func shrink(p *Prop, ch []uint32, m, sample, tier string, budget time.Duration) ([]uint32, string, string) {
	t0 := time.Now()
	best, bm, bs := ch, m, sample
	kind := failKind(m)
	try := func(c []uint32) bool {
		if time.Since(t0) > budget {
			return false
		}
		cs := &Case{Src: ReplaySrc(c), Tier: tier}
		caseMu.Lock()
		caseStart = time.Now()
		caseMu.Unlock()
		runCase(p, cs)
		caseMu.Lock()
		caseStart = time.Time{}
		caseMu.Unlock()
		if cs.failed == "" || failKind(cs.failed) != kind {
			return false
		}
		rec := cs.Rec
		if len(rec) > len(c) {
			rec = rec[:len(c)]
		}
		for len(rec) > 0 && rec[len(rec)-1] == 0 {
			rec = rec[:len(rec)-1]
		}
		if less(rec, best) {
			best, bm, bs = append([]uint32{}, rec...), cs.failed, cs.sample
			return true
		}
		return false
	}
	for improved := true; improved && time.Since(t0) < budget; {
		improved = false
		for sz := len(best) / 2; sz >= 1; sz /= 2 {
			for i := 0; i+sz <= len(best); {
				c := append(append([]uint32{}, best[:i]...), best[i+sz:]...)
				if try(c) {
					improved = true
				} else {
					i += sz
				}
				if time.Since(t0) > budget {
					return best, bm, bs
				}
			}
		}
		for sz := 8; sz >= 1; sz /= 2 {
			for i := 0; i+sz <= len(best); i += sz {
				c := append([]uint32{}, best...)
				nz := false
				for j := i; j < i+sz; j++ {
					nz = nz || c[j] != 0
					c[j] = 0
				}
				if nz && try(c) {
					improved = true
				}
			}
		}
		for i := 0; i < len(best); i++ {
			for i < len(best) && best[i] > 0 {
				c := append([]uint32{}, best...)
				c[i]--
				if !try(c) {
					break
				}
				improved = true
			}
		}
	}
	return best, bm, bs
}

func less(a, b []uint32) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

type workerOut struct {
	res   *msg
	fails []msg
	last  int // last started case
	exit  int
	tail  string
}

func spawn(args []string, timeout time.Duration, onMsg func(msg)) (exit int, tail string) {
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=2500MiB", "GOMAXPROCS=2")
	r, w, _ := os.Pipe()
	cmd.ExtraFiles = []*os.File{w}
	errf, _ := os.CreateTemp("", "vh-err")
	defer os.Remove(errf.Name())
	cmd.Stderr = errf
	cmd.Stdout = nil
	if err := cmd.Start(); err != nil {
		return -1, err.Error()
	}
	w.Close()
	done := make(chan bool)
	go func() {
		sc := bufio.NewScanner(r)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		for sc.Scan() {
			var m msg
			if json.Unmarshal(sc.Bytes(), &m) == nil {
				onMsg(m)
			}
		}
		close(done)
	}()
	timer := time.AfterFunc(timeout, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	timer.Stop()
	<-done
	r.Close()
	if err != nil {
		exit = cmd.ProcessState.ExitCode()
		if exit == 0 {
			exit = -1
		}
	}
	b, _ := os.ReadFile(errf.Name())
	if len(b) > 6000 {
		b = append(b[:3000:3000], b[len(b)-3000:]...)
	}
	return exit, string(b)
}

func runCheck(p *Prop) int {
	t0 := time.Now()
	seed := int64(1)
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	n, budget := p.Quick, 100*time.Second
	if tier == "thorough" {
		n, budget = p.Thorough, 600*time.Second
	}
	if v, err := strconv.Atoi(os.Getenv("VH_CASES")); err == nil {
		n = v
	}
	shards := 8
	if n < shards {
		shards = 1
	}
	outs := make([]*workerOut, shards)
	var wg sync.WaitGroup
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			o := &workerOut{last: -1}
			outs[s] = o
			args := []string{"worker", p.ID, strconv.FormatInt(seed, 10), tier, itoa(s), itoa(shards), itoa(n), strconv.FormatInt(int64(budget), 10)}
			o.exit, o.tail = spawn(args, budget+200*time.Second, func(m msg) {
				switch m.T {
				case "S":
					o.last = m.Idx
				case "F":
					o.fails = append(o.fails, m)
				case "D":
					mm := m
					o.res = &mm
				}
			})
		}(s)
	}
	wg.Wait()
	labels, known := map[string]int{}, map[string]int{}
	nt := map[string]bool{}
	evals, discards := 0, 0
	var samples []string
	var viol []replayFile
	for s, o := range outs {
		for _, f := range o.fails {
			rf := replayFile{Property: p.ID, Seed: seed, Tier: tier, Idx: f.Idx, Message: f.Msg, Case: f.Sample, Choices: f.Choices, Original: f.Orig}
			if !reproduces(p, rf.Choices, tier, &rf) {
				if reproduces(p, rf.Original, tier, &rf) {
					rf.Choices = rf.Original
				} else {
					rf.Shard, rf.Shards = s, shards
					rf.Message = "(depends on the cases run before it in the same process, or on chance) " + rf.Message
				}
			}
			viol = append(viol, rf)
		}
		if o.res != nil {
			evals += o.res.Evals
			discards += o.res.Discard
			for k, v := range o.res.Labels {
				labels[k] += v
			}
			for k, v := range o.res.Known {
				known[k] += v
			}
			for _, h := range o.res.NT {
				nt[h] = true
			}
			if len(samples) < 6 {
				for _, x := range o.res.Samples {
					if len(samples) < 6 {
						samples = append(samples, x)
					}
				}
			}
			continue
		}
		if len(o.fails) == 0 {
			// the worker died: run its last case alone
			rf := replayFile{Property: p.ID, Seed: seed, Tier: tier, Idx: o.last, Message: fmt.Sprintf("worker ended with code %d", o.exit)}
			src := NewSrc(caseSeed(seed, p.ID, o.last))
			_ = src
			e, tail := spawn([]string{"one", p.ID, strconv.FormatInt(seed, 10), tier, itoa(o.last)}, 420*time.Second, func(m msg) {})
			if e != 0 && e != 98 && e != -1 || (e == 97) {
				rf.Message = fmt.Sprintf("process running the case ended with code %d (97: no result within %d s)\n%s", e, hangSecs, tail)
				viol = append(viol, rf)
			} else {
				labels["worker lost, not reproduced"]++
				fmt.Fprintf(os.Stderr, "note: worker %d ended with %d at case %d, not reproduced: %s\n", s, o.exit, o.last, o.tail)
			}
		}
	}
	// evidence
	if len(samples) == 0 {
		samples = []string{"(no non-trivial sample)"}
	}
	ls := []string{}
	for k, v := range labels {
		ls = append(ls, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ls)
	smp := make([]any, len(samples))
	for i, x := range samples {
		smp[i] = x
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{"evaluations": evals, "distinct_nontrivial": len(nt), "rule": p.Rule, "samples": smp,
			"discarded": discards, "classes": ls},
		"wall_s": time.Since(t0).Seconds(), "violations": len(viol),
	}
	if len(p.Assume) > 0 {
		ev["assumptions"] = p.Assume
	}
	base := verifDir()
	os.MkdirAll(filepath.Join(base, "evidence", "replay"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(base, "evidence", p.ID+".json"), b, 0644)
	fmt.Printf("%s tier=%s seed=%d cases=%d non-trivial=%d discarded=%d wall=%.1fs\n", p.ID, tier, seed, evals, len(nt), discards, time.Since(t0).Seconds())
	for _, l := range ls {
		fmt.Println("  ", l)
	}
	kk := []string{}
	for k := range known {
		kk = append(kk, k)
	}
	sort.Strings(kk)
	for _, k := range kk {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s (%d cases)\n", p.ID, k, knownFindings()[k], known[k])
	}
	if len(viol) > 0 {
		sort.Slice(viol, func(i, j int) bool { return len(viol[i].Choices) < len(viol[j].Choices) })
		for i, v := range viol {
			path := filepath.Join(base, "evidence", "replay", fmt.Sprintf("%s-%d-%d.json", p.ID, seed, v.Idx))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(path, b, 0644)
			if i < 3 {
				fmt.Println("----", v.Message)
				fmt.Println(v.Case)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		}
		return 1
	}
	return 0
}

func verifDir() string {
	e, err := filepath.EvalSymlinks(os.Args[0])
	if err != nil {
		e = os.Args[0]
	}
	e, _ = filepath.Abs(e)
	return filepath.Dir(filepath.Dir(filepath.Dir(e))) // .build/bin/harness
}

func reproduces(p *Prop, ch []uint32, tier string, rf *replayFile) bool {
	f, err := os.CreateTemp("", "vh-rep")
	if err != nil {
		return false
	}
	defer os.Remove(f.Name())
	b, _ := json.Marshal(replayFile{Property: p.ID, Tier: tier, Choices: ch})
	f.Write(b)
	f.Close()
	for i := 0; i < 3; i++ {
		ok := false
		spawn([]string{"replayone", f.Name()}, 150*time.Second, func(m msg) {
			if m.T == "F" {
				ok = true
				rf.Message, rf.Case = m.Msg, m.Sample
			}
		})
		if ok {
			return true
		}
	}
	return false
}

// replay a file: prints the result, exit 1 if it fails.
func replayCmd(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	p := props[rf.Property]
	if rf.Shards > 0 || len(rf.Choices) == 0 {
		only := rf.Idx
		failed := false
		if rf.Shards == 0 {
			rf.Shards = 1 << 30
			rf.Shard = only
		}
		e, tail := spawn([]string{"worker", rf.Property, strconv.FormatInt(rf.Seed, 10), rf.Tier, itoa(rf.Shard), itoa(rf.Shards), itoa(rf.Idx + 1), strconv.FormatInt(int64(time.Hour), 10)}, time.Hour, func(m msg) {
			if m.T == "F" {
				failed = true
				fmt.Println("FAILS:", m.Msg)
				fmt.Println(m.Sample)
			}
		})
		if e != 0 {
			fmt.Println("process ended with", e, tail)
			failed = true
		}
		if failed {
			return 1
		}
		return 0
	}
	out := os.Stdout
	if os.Getenv("VH_VERBOSE") == "" {
		os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	}
	c := &Case{Src: ReplaySrc(rf.Choices), Tier: rf.Tier}
	runCase(p, c)
	os.Stdout = out
	fmt.Println(c.sample)
	if c.failed != "" {
		fmt.Println("FAILS:", c.failed)
		return 1
	}
	fmt.Println("passes", c.labels)
	return 0
}
