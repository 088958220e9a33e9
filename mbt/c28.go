package main

import (
	"context"
	"errors"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	mbt "github.com/fizzbee-io/fizzbee/mbt/lib/go"
	pb "github.com/fizzbee-io/fizzbee/mbt/lib/go/internalpb"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/protobuf/proto"
)

// ---- the implementation under test of the plugin: a model that records everything it is asked to do

type inst struct {
	m      *model
	id     mbt.RoleId
	ver    int // actions executed on it
	states []map[string]any
	canons []map[string]string
	failAt int // GetState fails from this version on (0: never)
	none   bool
}

func (r *inst) state() (map[string]any, error) {
	r.m.mu.Lock()
	defer r.m.mu.Unlock()
	if r.failAt > 0 && r.ver >= r.failAt {
		return nil, errors.New("state not available")
	}
	if r.none {
		return nil, nil
	}
	res := map[string]any{"ver": r.ver}
	for k, v := range r.states[r.ver%len(r.states)] {
		res[k] = v
	}
	return res, nil
}

// at is what the state after ver actions stands for.
func (r *inst) at(ver int) string {
	s := []string{fmt.Sprintf("%q:%d", "ver", ver)}
	for k, v := range r.canons[ver%len(r.canons)] {
		s = append(s, fmt.Sprintf("%q:%s", k, v))
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

type plainRole struct{ *inst }
type getRole struct{ *inst }
type snapRole struct{ *inst }
type bothRole struct{ *inst }

func (r getRole) GetState() (map[string]any, error)       { return r.state() }
func (r snapRole) SnapshotState() (map[string]any, error) { return r.state() }
func (r bothRole) SnapshotState() (map[string]any, error) { return r.state() }
func (r bothRole) GetState() (map[string]any, error) {
	return map[string]any{"wrong": "GetState although there is SnapshotState"}, nil
}

const (
	kRet = iota
	kErr
	kNotImpl
	kSpawn
	kRemove
	kBreak // GetRoles fails from now on
	kMeet  // waits for the other action of the same kind
)

type action struct {
	role, name string
	kind       int
	wrap       bool
	tag        bool // the identity of the call is part of the answer
	ret        any
	canon      string
}

type call struct {
	cid      int
	inst     any
	a        *action
	args     []mbt.Arg
	from, to int // order of events
	ver      int // version of the instance after it
}

type model struct {
	mu        sync.Mutex
	roles     map[mbt.RoleId]mbt.Role
	initial   []func() (mbt.RoleId, mbt.Role)
	spawn     func() (mbt.RoleId, mbt.Role)
	initErr   error
	cleanErr  error
	rolesErr  error
	inits     int
	cleans    int
	rolesInit int // value of inits when the roles were last asked for
	clock     int
	calls     []*call
	meet      chan int
	meetFail  bool
}

func (m *model) Init() error {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.inits++
	m.roles = map[mbt.RoleId]mbt.Role{}
	m.rolesErr = nil
	if m.initErr != nil {
		return m.initErr
	}
	for _, f := range m.initial {
		id, r := f()
		m.roles[id] = r
	}
	return nil
}
func (m *model) Cleanup() error {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.cleans++
	return m.cleanErr
}
func (m *model) GetState() (map[string]any, error) { return nil, mbt.ErrNotImplemented }
func (m *model) GetRoles() (map[mbt.RoleId]mbt.Role, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.rolesErr != nil {
		return nil, m.rolesErr
	}
	res := map[mbt.RoleId]mbt.Role{}
	for k, v := range m.roles {
		res[k] = v
	}
	return res, nil
}

func instOf(x any) *inst {
	switch r := x.(type) {
	case plainRole:
		return r.inst
	case getRole:
		return r.inst
	case snapRole:
		return r.inst
	case bothRole:
		return r.inst
	}
	return nil
}

func (m *model) run(a *action, on any, args []mbt.Arg) (any, error) {
	cid := -1
	for _, x := range args {
		if x.Name == "cid" {
			cid, _ = x.Value.(int)
		}
	}
	m.mu.Lock()
	m.clock++
	k := &call{cid: cid, inst: on, a: a, args: args, from: m.clock}
	m.calls = append(m.calls, k)
	meet := m.meet
	m.mu.Unlock()
	if a.kind == kMeet && meet != nil {
		select {
		case meet <- 1:
		case <-meet:
		case <-time.After(20 * time.Second):
			m.mu.Lock()
			m.meetFail = true
			m.mu.Unlock()
		}
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	m.clock++
	k.to = m.clock
	if r := instOf(on); r != nil {
		r.ver++
		k.ver = r.ver
	}
	switch a.kind {
	case kErr:
		return a.ret, errors.New("the implementation failed")
	case kNotImpl:
		if a.wrap {
			return a.ret, fmt.Errorf("stub: %w", mbt.ErrNotImplemented)
		}
		return a.ret, mbt.ErrNotImplemented
	case kSpawn:
		id, r := m.spawn()
		m.roles[id] = r
	case kRemove:
		if r := instOf(on); r != nil {
			delete(m.roles, r.id)
		}
	case kBreak:
		m.rolesErr = errors.New("no roles")
	}
	if a.tag {
		return []any{cid, a.ret}, nil
	}
	return a.ret, nil
}

// answer is what the returned values have to stand for.
func (a *action) answer(cid int) string {
	if a.tag {
		return fmt.Sprintf("[%d,%s]", cid, a.canon)
	}
	if a.ret == nil {
		return ""
	}
	return a.canon
}

// ---- requests

type req struct {
	pb   *pb.ExecuteActionRequest
	cid  int
	a    *action // nil: no such action or role
	role mbt.RoleId
	args []mbt.Arg
}

type gen28 struct {
	c     *Case
	m     *model
	acts  map[string]map[string]*action
	names []string
	cid   int
}

func (g *gen28) newRole(name string, idx int) func() (mbt.RoleId, mbt.Role) {
	c := g.c
	kind := c.W(2, 1, 1, 1)
	none := c.P(1, 8)
	failAt := 0
	if c.P(1, 12) {
		failAt = 1 + c.N(3)
	}
	var states []map[string]any
	var canons []map[string]string
	for k := 1 + c.N(3); k > 0; k-- {
		st, cn := map[string]any{}, map[string]string{}
		for _, f := range []string{"x", "y", "status"}[:c.N(4)] {
			v, s := goValue(c.Src, 2)
			st[f], cn[f] = v, s
		}
		states, canons = append(states, st), append(canons, cn)
	}
	return func() (mbt.RoleId, mbt.Role) {
		i := &inst{m: g.m, id: mbt.RoleId{RoleName: name, Index: idx}, states: states, canons: canons, failAt: failAt, none: none}
		switch kind {
		case 0:
			return i.id, getRole{i}
		case 1:
			return i.id, snapRole{i}
		case 2:
			return i.id, bothRole{i}
		}
		return i.id, plainRole{i}
	}
}

func (g *gen28) request(roles []mbt.RoleId, ok func(*action) bool) *req {
	c := g.c
	g.cid++
	r := &req{cid: g.cid, pb: &pb.ExecuteActionRequest{}}
	known := true
	if len(roles) > 0 && c.P(4, 5) {
		r.role = pick(c.Src, roles)
		if c.P(1, 14) {
			switch c.N(3) {
			case 0:
				r.role.Index += 50
			case 1:
				r.role.RoleName += "X"
			default:
				r.role = mbt.RoleId{RoleName: strings.ToLower(r.role.RoleName), Index: r.role.Index}
			}
			known = slices.Contains(roles, r.role)
		}
	}
	var names []string
	for n, a := range g.acts[r.role.RoleName] {
		if ok(a) {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	name := "Missing"
	if len(names) > 0 && !c.P(1, 16) {
		name = pick(c.Src, names)
	} else if c.P(1, 2) {
		name = pick(c.Src, g.names)
	}
	if known {
		r.a = g.acts[r.role.RoleName][name]
		if r.a != nil && !ok(r.a) {
			r.a, name = nil, "Missing"
		}
	}
	r.pb.ActionName = name
	if r.role.RoleName != "" || c.P(1, 2) {
		r.pb.Role = &pb.RoleRef{RoleName: r.role.RoleName, RoleId: int32(r.role.Index)}
	}
	at := c.N(3)
	for i := 0; i <= 2; i++ {
		if i == at {
			r.pb.Args = append(r.pb.Args, &pb.Arg{Type: pb.ArgType_ARG_TYPE_ANY, Name: "cid", Value: &pb.Value{Kind: &pb.Value_IntValue{IntValue: int64(r.cid)}}})
			r.args = append(r.args, mbt.Arg{Name: "cid", Value: r.cid})
		} else if c.P(1, 2) {
			v, x := wireValue(c.Src, 2)
			n := pick(c.Src, []string{"key", "value", "", "n"})
			r.pb.Args = append(r.pb.Args, &pb.Arg{Name: n, Value: v})
			r.args = append(r.args, mbt.Arg{Name: n, Value: x})
		}
	}
	switch c.N(4) {
	case 0:
		r.pb.Options = &pb.ExecOptions{}
	case 1:
	default:
		r.pb.Options = &pb.ExecOptions{CaptureState: true}
	}
	return r
}

// ---- the two ways to reach the plugin

type client interface {
	Init(context.Context, *pb.InitRequest) (*pb.InitResponse, error)
	Cleanup(context.Context, *pb.CleanupRequest) (*pb.CleanupResponse, error)
	ExecuteAction(context.Context, *pb.ExecuteActionRequest) (*pb.ExecuteActionResponse, error)
	ExecuteActionSequences(context.Context, *pb.ExecuteActionSequencesRequest) (*pb.ExecuteActionSequencesResponse, error)
}

// wire calls the handlers directly, with messages that have been through their encoding.
type wire struct {
	pb.FizzBeeMbtPluginServiceServer
}

func over[T proto.Message](x T) T {
	b, err := proto.Marshal(x)
	if err != nil {
		panic(fmt.Sprintf("the message cannot be encoded: %v", err))
	}
	y := x.ProtoReflect().New().Interface()
	if err := proto.Unmarshal(b, y); err != nil {
		panic(err)
	}
	return y.(T)
}

func back[Q, R proto.Message](f func(context.Context, Q) (R, error), q Q) (R, error) {
	r, err := f(context.Background(), over(q))
	if err != nil {
		var z R
		return z, err
	}
	return over(r), nil
}

func (w wire) Init(_ context.Context, q *pb.InitRequest) (*pb.InitResponse, error) {
	return back(w.FizzBeeMbtPluginServiceServer.Init, q)
}
func (w wire) Cleanup(_ context.Context, q *pb.CleanupRequest) (*pb.CleanupResponse, error) {
	return back(w.FizzBeeMbtPluginServiceServer.Cleanup, q)
}
func (w wire) ExecuteAction(_ context.Context, q *pb.ExecuteActionRequest) (*pb.ExecuteActionResponse, error) {
	return back(w.FizzBeeMbtPluginServiceServer.ExecuteAction, q)
}
func (w wire) ExecuteActionSequences(_ context.Context, q *pb.ExecuteActionSequencesRequest) (*pb.ExecuteActionSequencesResponse, error) {
	return back(w.FizzBeeMbtPluginServiceServer.ExecuteActionSequences, q)
}

// remote goes through gRPC.
type remote struct {
	pb.FizzBeeMbtPluginServiceClient
}

func (w remote) Init(c context.Context, q *pb.InitRequest) (*pb.InitResponse, error) {
	return w.FizzBeeMbtPluginServiceClient.Init(c, q)
}
func (w remote) Cleanup(c context.Context, q *pb.CleanupRequest) (*pb.CleanupResponse, error) {
	return w.FizzBeeMbtPluginServiceClient.Cleanup(c, q)
}
func (w remote) ExecuteAction(c context.Context, q *pb.ExecuteActionRequest) (*pb.ExecuteActionResponse, error) {
	return w.FizzBeeMbtPluginServiceClient.ExecuteAction(c, q)
}
func (w remote) ExecuteActionSequences(c context.Context, q *pb.ExecuteActionSequencesRequest) (*pb.ExecuteActionSequencesResponse, error) {
	return w.FizzBeeMbtPluginServiceClient.ExecuteActionSequences(c, q)
}

func init() {
	log.SetOutput(io.Discard)
	register(&Prop{
		ID:       "C28",
		Rule:     "the plugin executed at least 3 actions, with at least 2 distinct non-empty argument or return values",
		Quick:    64000,
		Thorough: 3000000,
		Run:      runC28,
		Assume:   []string{"the model and the roles behind the plugin are safe for concurrent use", "strings are valid UTF-8, integers fit 64 bits, map keys are scalars"},
	})
}

func runC28(c *Case) {
	m := &model{roles: map[mbt.RoleId]mbt.Role{}}
	g := &gen28{c: c, m: m, acts: map[string]map[string]*action{}}
	// roles
	var ids []mbt.RoleId
	for _, n := range []string{"Node", "Client", "node"} {
		for k := c.N(3); k > 0; k-- {
			id := mbt.RoleId{RoleName: n, Index: k - 1}
			if c.P(1, 6) {
				id.Index = 7
			}
			dup := false
			for _, o := range ids {
				dup = dup || o == id
			}
			if !dup {
				ids = append(ids, id)
				m.initial = append(m.initial, g.newRole(id.RoleName, id.Index))
			}
		}
	}
	// registry: the same names in several roles
	reg := map[string]map[string]mbt.ActionFunc{}
	for _, rn := range []string{"", "Node", "Client", "node", "Spawned"} {
		if rn != "Node" && c.P(1, 6) {
			continue
		}
		g.acts[rn] = map[string]*action{}
		reg[rn] = map[string]mbt.ActionFunc{}
		for _, an := range []string{"Do", "Read", "Write", "Stop"} {
			if an != "Do" && c.P(1, 4) {
				continue
			}
			a := &action{role: rn, name: an, kind: c.W(24, 2, 4, 2, 1, 1, 0), wrap: c.P(1, 2), tag: c.P(1, 2)}
			if a.kind == kRemove && rn == "" {
				a.kind = kRet
			}
			a.ret, a.canon = goValue(c.Src, 3)
			g.acts[rn][an] = a
			reg[rn][an] = func(x any, args []mbt.Arg) (any, error) { return m.run(a, x, args) }
			g.names = append(g.names, an)
		}
		a := &action{role: rn, name: "Meet", kind: kMeet, tag: true}
		a.ret, a.canon = goValue(c.Src, 1)
		g.acts[rn]["Meet"] = a
		reg[rn]["Meet"] = func(x any, args []mbt.Arg) (any, error) { return m.run(a, x, args) }
	}
	sp := g.newRole("Spawned", 0)
	spn := 0
	m.spawn = func() (mbt.RoleId, mbt.Role) {
		id, r := sp()
		i := instOf(r)
		i.id.Index = spn
		id.Index = spn
		spn++
		return id, r
	}
	var cl client
	end := func() {}
	if c.P(1, 100) {
		cl, end = g.remote(reg)
		c.Label("through RunTests")
	} else {
		cl = wire{mbt.NewFizzBeeMbtPluginServer(nil, m, reg)}
	}
	d := &drive{gen28: g, cl: cl, vals: map[string]bool{}}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(failPanic); ok {
					end()
					panic(r)
				}
				c.failed = fmt.Sprintf("panic: %v", r)
				end()
				panic(r)
			}
		}()
		d.run()
	}()
	end()
	c.Sample(strings.Join(d.log, "\n"))
	if len(m.calls) >= 3 && len(d.vals) >= 2 {
		c.NonTrivial(strings.Join(d.log, "\n"))
	}
}

// remote starts the plugin the way a test does and returns a client of it.
func (g *gen28) remote(reg map[string]map[string]mbt.ActionFunc) (client, func()) {
	c := g.c
	dir, err := os.MkdirTemp("", "vh-mbt-*")
	if err != nil {
		panic(err)
	}
	script := filepath.Join(dir, "runner")
	os.WriteFile(script, []byte(`#!/bin/sh
d=$(dirname "$0")
printf '%s\n' "$@" > "$d/args.tmp" && mv "$d/args.tmp" "$d/args"
while [ ! -e "$d/exit" ]; do sleep 0.02; done
exit $(cat "$d/exit")
`), 0755)
	os.Setenv("FIZZBEE_MBT_BIN", script)
	parseFlags.Do(func() { mbt.ParseFlags() })
	opts := map[string]any{}
	want := []string{}
	for _, o := range []string{"max-seq-runs", "max-parallel-runs", "max-actions"} {
		flag.Set(o, "-1")
		if c.P(1, 2) {
			n := c.N(50)
			opts[o] = n
			if c.P(1, 3) { // the command line takes precedence
				n = c.N(50)
				flag.Set(o, itoa(n))
			}
			want = append(want, fmt.Sprintf("--%s=%d", o, n))
		}
	}
	for _, o := range []string{"seq-seed", "parallel-seed"} {
		flag.Set(o, "0")
		switch c.N(3) {
		case 1:
			opts[o] = 1 + c.N(50)
			want = append(want, fmt.Sprintf("--%s=%d", o, opts[o]))
		case 2:
			n := 1 + c.N(50)
			flag.Set(o, itoa(n))
			want = append(want, fmt.Sprintf("--%s=%d", o, n))
		}
	}
	code := 0
	if c.P(1, 4) {
		code = 3
	}
	done := make(chan error, 1)
	go func() { done <- mbt.RunTests(nil, g.m, reg, opts) }()
	var args []string
	for t := time.Now(); ; {
		if b, err := os.ReadFile(filepath.Join(dir, "args")); err == nil {
			args = strings.Split(strings.TrimSpace(string(b)), "\n")
			break
		}
		if time.Since(t) > 20*time.Second {
			os.RemoveAll(dir)
			c.Fail("RunTests does not start the runner")
		}
		time.Sleep(5 * time.Millisecond)
	}
	addr := ""
	got := []string{}
	for _, a := range args {
		if s, ok := strings.CutPrefix(a, "--plugin-addr="); ok {
			addr = s
		} else {
			got = append(got, a)
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	conn, err := grpc.NewClient("unix:"+addr, grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		panic(err)
	}
	finish := func() {
		conn.Close()
		os.WriteFile(filepath.Join(dir, "exit.tmp"), []byte(itoa(code)), 0644)
		os.Rename(filepath.Join(dir, "exit.tmp"), filepath.Join(dir, "exit"))
		var err error
		select {
		case err = <-done:
		case <-time.After(30 * time.Second):
			os.RemoveAll(dir)
			c.Fail("RunTests does not return after the runner has ended")
		}
		os.RemoveAll(dir)
		if (err != nil) != (code != 0) && c.failed == "" {
			c.Fail("the runner ended with status %d, RunTests returned %v", code, err)
		}
	}
	if strings.Join(got, " ") != strings.Join(want, " ") {
		code = 0
		finish()
		c.Fail("the runner was started with %v, the options are %v", got, want)
	}
	return remote{pb.NewFizzBeeMbtPluginServiceClient(conn)}, finish
}

var parseFlags sync.Once

type drive struct {
	*gen28
	cl   client
	log  []string
	vals map[string]bool
	last int64 // end of the last interval
}

func (d *drive) note(f string, a ...any) { d.log = append(d.log, fmt.Sprintf(f, a...)) }

func (d *drive) ids() []mbt.RoleId {
	var l []mbt.RoleId
	for k := range d.m.roles {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return fmt.Sprint(l[i]) < fmt.Sprint(l[j]) })
	return l
}

func (d *drive) fail(f string, a ...any) {
	d.c.Sample(strings.Join(d.log, "\n"))
	d.c.Fail(f, a...)
}

func (d *drive) run() {
	ctx := context.Background()
	if d.c.P(9, 10) {
		d.init(ctx)
	}
	for n := 1 + d.c.N(8); n > 0; n-- {
		switch d.c.W(10, 5, 3, 1, 1) {
		case 0:
			d.single(ctx)
		case 1:
			d.sequences(ctx)
		case 2:
			d.concurrent(ctx)
		case 3:
			d.cleanup(ctx)
		case 4:
			d.init(ctx)
		}
	}
}

// stateFails: asking for all states fails now.
func (d *drive) stateFails() bool {
	for _, r := range d.m.roles {
		i := instOf(r)
		_, plain := r.(plainRole)
		if !plain && i.failAt > 0 && i.ver >= i.failAt {
			return true
		}
	}
	return false
}

func (d *drive) init(ctx context.Context) {
	m := d.m
	m.initErr = nil
	if d.c.P(1, 12) {
		m.initErr = errors.New("cannot start")
	}
	q := &pb.InitRequest{TestName: "t"}
	capture := d.c.P(3, 4)
	if capture || d.c.P(1, 2) {
		q.Options = &pb.ExecOptions{CaptureState: capture}
	}
	before := m.inits
	r, err := d.cl.Init(ctx, q)
	d.note("Init capture_state=%v error=%v -> %v %v", capture, m.initErr, r, err)
	if m.inits != before+1 {
		d.fail("Init called the model's Init %d times", m.inits-before)
	}
	if err != nil {
		d.fail("Init answers with an RPC error: %v", err)
	}
	code := r.GetStatus().GetCode()
	if m.initErr != nil || capture && d.stateFails() {
		if code != pb.StatusCode_STATUS_EXECUTION_FAILED {
			d.fail("Init failed, the status is %v", code)
		}
		return
	}
	if code != pb.StatusCode_STATUS_OK {
		d.fail("Init succeeded, the status is %v %v", code, r.GetStatus().GetMessage())
	}
	d.refs(r.GetRoles())
	d.states(r.GetRoleStates(), capture, nil)
}

func (d *drive) cleanup(ctx context.Context) {
	m := d.m
	m.cleanErr = nil
	if d.c.P(1, 3) {
		m.cleanErr = errors.New("cannot stop")
	}
	before := m.cleans
	r, err := d.cl.Cleanup(ctx, &pb.CleanupRequest{})
	d.note("Cleanup error=%v -> %v %v", m.cleanErr, r, err)
	want := pb.StatusCode_STATUS_OK
	if m.cleanErr != nil {
		want = pb.StatusCode_STATUS_EXECUTION_FAILED
	}
	if err != nil || m.cleans != before+1 || r.GetStatus().GetCode() != want {
		d.fail("Cleanup: called %d times, error %v, status %v, want %v", m.cleans-before, err, r.GetStatus(), want)
	}
}

// refs checks the reported roles.
func (d *drive) refs(got []*pb.RoleRef) {
	var a, b []string
	for _, r := range got {
		a = append(a, fmt.Sprintf("%s#%d", r.GetRoleName(), r.GetRoleId()))
	}
	for id := range d.m.roles {
		b = append(b, fmt.Sprintf("%s#%d", id.RoleName, id.Index))
	}
	sort.Strings(a)
	sort.Strings(b)
	if fmt.Sprint(a) != fmt.Sprint(b) {
		d.fail("the response reports the roles %v, the model has %v", a, b)
	}
}

func stateCanon(s *pb.RoleState) string {
	l := []string{}
	for k, v := range s.GetState() {
		l = append(l, fmt.Sprintf("%q:%s", k, canon(v)))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

// states checks the reported states; since: the earliest acceptable version per instance (nil: only the current one).
func (d *drive) states(got []*pb.RoleState, capture bool, since map[*inst]int) {
	if !capture {
		if len(got) > 0 {
			d.fail("capture_state is off, %d states are reported", len(got))
		}
		return
	}
	seen := map[mbt.RoleId]bool{}
	for _, s := range got {
		id := mbt.RoleId{RoleName: s.GetRole().GetRoleName(), Index: int(s.GetRole().GetRoleId())}
		r := d.m.roles[id]
		if r == nil || seen[id] {
			d.fail("a state of %v is reported (known role: %v, already reported: %v)", id, r != nil, seen[id])
		}
		seen[id] = true
		i := instOf(r)
		if _, ok := r.(plainRole); ok || i.none {
			d.fail("a state of %v is reported: it has none", id)
		}
		lo := i.ver
		if since != nil {
			lo = since[i]
		}
		g := stateCanon(s)
		ok := false
		for v := lo; v <= i.ver; v++ {
			ok = ok || g == i.at(v)
		}
		if !ok {
			d.fail("the state of %v is reported as %s, it is %s", id, g, i.at(i.ver))
		}
		d.vals[g] = true
	}
	for id, r := range d.m.roles {
		if _, ok := r.(plainRole); !ok && !instOf(r).none && !seen[id] {
			d.fail("the state of %v is not reported", id)
		}
	}
}

func (d *drive) show(r *req) string {
	a := []string{}
	for _, x := range r.pb.Args {
		a = append(a, x.Name+"="+canon(x.Value))
	}
	k := "unknown"
	if r.a != nil {
		k = []string{"returns " + r.a.canon, "error", "not implemented", "spawns", "removes", "breaks", "meets"}[r.a.kind]
	}
	return fmt.Sprintf("%v.%s(%s) capture=%v [%s]", r.role, r.pb.ActionName, strings.Join(a, ", "), r.pb.GetOptions().GetCaptureState(), k)
}

// invoked checks how often and how the action of a request was called.
func (d *drive) invoked(r *req, roles map[mbt.RoleId]mbt.Role) *call {
	var k *call
	for _, x := range d.m.calls {
		if x.cid == r.cid {
			if k != nil {
				d.fail("the action of one request was executed twice: %s", d.show(r))
			}
			k = x
		}
	}
	if k == nil {
		return nil
	}
	if r.a == nil {
		d.fail("an action was executed for a request that names none: %s executed %s.%s", d.show(r), k.a.role, k.a.name)
	}
	if k.a != r.a {
		d.fail("%s executed %s.%s", d.show(r), k.a.role, k.a.name)
	}
	if r.role.RoleName == "" {
		if k.inst != any(d.m) {
			d.fail("%s was executed on %v, not on the model", d.show(r), k.inst)
		}
	} else if k.inst != roles[r.role] {
		d.fail("%s was executed on %v", d.show(r), instOf(k.inst).id)
	}
	if len(k.args) != len(r.args) {
		d.fail("%s received %d arguments: %v", d.show(r), len(k.args), k.args)
	}
	for i := range k.args {
		if k.args[i].Name != r.args[i].Name || !reflect.DeepEqual(k.args[i].Value, r.args[i].Value) {
			d.fail("%s received the argument %#v, sent was %#v", d.show(r), k.args[i], r.args[i])
		}
	}
	return k
}

// response checks one answer. exact: nothing else ran meanwhile.
func (d *drive) response(r *req, k *call, p *pb.ExecuteActionResponse, exact bool) {
	code := p.GetStatus().GetCode()
	bad := func(want any) {
		d.fail("%s: status %v %q, expected %v", d.show(r), code, p.GetStatus().GetMessage(), want)
	}
	if code != pb.StatusCode_STATUS_OK && len(p.GetReturnValues()) > 0 {
		d.fail("%s: status %v with return values", d.show(r), code)
	}
	if k == nil {
		if code == pb.StatusCode_STATUS_OK || code == pb.StatusCode_STATUS_UNKNOWN {
			d.fail("%s: the action was not executed, the status is %v", d.show(r), code)
		}
		if r.a != nil && d.m.rolesErr == nil {
			d.fail("%s: the action was not executed: status %v %q", d.show(r), code, p.GetStatus().GetMessage())
		}
		return
	}
	switch r.a.kind {
	case kErr:
		if code != pb.StatusCode_STATUS_EXECUTION_FAILED {
			bad("STATUS_EXECUTION_FAILED")
		}
		return
	case kNotImpl:
		if code != pb.StatusCode_STATUS_NOT_IMPLEMENTED {
			bad("STATUS_NOT_IMPLEMENTED")
		}
		return
	}
	capture := r.pb.GetOptions().GetCaptureState()
	if d.m.rolesErr != nil || capture && d.stateFails() {
		if code == pb.StatusCode_STATUS_EXECUTION_FAILED || !exact {
			return
		}
		bad("STATUS_EXECUTION_FAILED, the state is not available")
	}
	if code != pb.StatusCode_STATUS_OK {
		bad("STATUS_OK")
	}
	got := []string{}
	for _, v := range p.GetReturnValues() {
		got = append(got, canon(v))
	}
	want := r.a.answer(r.cid)
	if g := strings.Join(got, "|"); g != want || len(got) > 1 {
		d.fail("%s returned %s, reported is %s", d.show(r), want, g)
	}
	d.vals[want] = true
	if exact {
		d.refs(p.GetRoles())
		d.states(p.GetRoleStates(), capture, nil)
	}
	if p.GetExecTime().GetStartUnixNano() > p.GetExecTime().GetEndUnixNano() {
		d.fail("%s: it started at %d and ended at %d", d.show(r), p.GetExecTime().GetStartUnixNano(), p.GetExecTime().GetEndUnixNano())
	}
	if p.GetExecTime().GetStartUnixNano() < d.last {
		d.fail("%s: it started at %d, before an earlier action had ended at %d", d.show(r), p.GetExecTime().GetStartUnixNano(), d.last)
	}
}

func always(a *action) bool { return a.kind != kMeet }
func steady(a *action) bool {
	return a.kind == kRet || a.kind == kErr || a.kind == kNotImpl
}

func (d *drive) snapshot() map[mbt.RoleId]mbt.Role {
	res := map[mbt.RoleId]mbt.Role{}
	for k, v := range d.m.roles {
		res[k] = v
	}
	return res
}

func (d *drive) single(ctx context.Context) {
	r := d.request(d.ids(), always)
	roles := d.snapshot()
	broken := d.m.rolesErr != nil
	p, err := d.cl.ExecuteAction(ctx, r.pb)
	d.note("%s -> %v %v", d.show(r), p, err)
	if err != nil {
		if r.a == nil || r.a.kind == kErr || broken {
			return
		}
		d.fail("%s answers with an RPC error: %v", d.show(r), err)
	}
	k := d.invoked(r, roles)
	d.response(r, k, p, true)
	if k != nil && p.GetStatus().GetCode() == pb.StatusCode_STATUS_OK {
		d.last = p.GetExecTime().GetEndUnixNano()
	}
}

// versions of all instances when the calls so far had ended.
func (d *drive) after(k *call) map[*inst]int {
	since := map[*inst]int{}
	for _, x := range d.m.calls {
		if i := instOf(x.inst); i != nil && x.to < k.from && x.ver > since[i] {
			since[i] = x.ver
		}
	}
	if i := instOf(k.inst); i != nil {
		since[i] = k.ver
	}
	return since
}

func (d *drive) concurrent(ctx context.Context) {
	var rs []*req
	for n := 2 + d.c.N(5); n > 0; n-- {
		rs = append(rs, d.request(d.ids(), steady))
	}
	d.parallel(rs, func() ([]*pb.ExecuteActionResponse, error) {
		ps := make([]*pb.ExecuteActionResponse, len(rs))
		errs := make([]error, len(rs))
		var wg sync.WaitGroup
		for i := range rs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				ps[i], errs[i] = d.cl.ExecuteAction(ctx, rs[i].pb)
			}()
		}
		wg.Wait()
		return ps, errors.Join(errs...)
	})
}

func (d *drive) sequences(ctx context.Context) {
	q := &pb.ExecuteActionSequencesRequest{}
	var rs []*req
	var pos [][2]int
	n := 1 + d.c.N(4)
	meet := n > 1 && d.c.P(1, 3)
	errs := d.c.P(1, 4)
	for i := 0; i < n; i++ {
		s := &pb.ActionSequence{}
		if d.c.P(1, 2) {
			s.Options = &pb.ExecOptions{CaptureState: d.c.P(1, 2)}
		}
		l := d.c.N(5)
		at := -1
		if meet && i < 2 {
			l++
			at = d.c.N(l)
		}
		for j := 0; j < l; j++ {
			ok := steady
			if !errs {
				ok = func(a *action) bool { return a.kind == kRet || a.kind == kNotImpl }
			}
			if j == at {
				ok = func(a *action) bool { return a.kind == kMeet }
			}
			r := d.request(d.ids(), ok)
			if r.a == nil && (!errs || j == at) {
				continue
			}
			s.Requests = append(s.Requests, r.pb)
			rs = append(rs, r)
			pos = append(pos, [2]int{i, len(s.Requests) - 1})
		}
		q.ActionSequence = append(q.ActionSequence, s)
	}
	d.m.meet, d.m.meetFail = nil, false
	ms := 0
	bad := d.m.rolesErr != nil
	for _, r := range rs {
		if r.a != nil && r.a.kind == kMeet {
			ms++
		}
		bad = bad || r.a == nil || r.a.kind == kErr
	}
	if ms == 2 && !bad {
		d.m.meet = make(chan int)
		d.c.Label("sequences that wait for each other")
	}
	d.note("sequences %v:", pos)
	ps := d.parallel(rs, func() ([]*pb.ExecuteActionResponse, error) {
		p, err := d.cl.ExecuteActionSequences(ctx, q)
		if err != nil {
			return nil, err
		}
		if len(p.GetResults()) != n {
			d.fail("%d sequences were answered with %d results", n, len(p.GetResults()))
		}
		var ps []*pb.ExecuteActionResponse
		for i, s := range q.ActionSequence {
			if len(p.GetResults()[i].GetResponses()) != len(s.Requests) {
				d.fail("sequence %d has %d actions and %d responses", i, len(s.Requests), len(p.GetResults()[i].GetResponses()))
			}
			ps = append(ps, p.GetResults()[i].GetResponses()...)
		}
		return ps, nil
	})
	if d.m.meetFail {
		d.fail("two sequences of a request do not run concurrently")
	}
	if ps == nil {
		return
	}
	// the order within each sequence
	prev := map[int]*call{}
	for i, r := range rs {
		for _, k := range d.m.calls {
			if k.cid == r.cid {
				if o := prev[pos[i][0]]; o != nil && o.to > k.from {
					d.fail("%s was started before the action ahead of it in its sequence had ended", d.show(r))
				}
				prev[pos[i][0]] = k
			}
		}
	}
}

// parallel runs requests that may overlap and checks their answers.
func (d *drive) parallel(rs []*req, f func() ([]*pb.ExecuteActionResponse, error)) []*pb.ExecuteActionResponse {
	roles := d.snapshot()
	bad := d.m.rolesErr != nil
	for _, r := range rs {
		bad = bad || r.a == nil || r.a.kind == kErr
	}
	ps, err := f()
	for i, r := range rs {
		if ps != nil {
			d.note("  %s -> %v", d.show(r), ps[i])
		} else {
			d.note("  %s", d.show(r))
		}
	}
	if err != nil {
		d.note("  error %v", err)
		if !bad {
			d.fail("requests of known actions that do not fail answer with an error: %v", err)
		}
		for _, r := range rs {
			d.invoked(r, roles)
		}
		return nil
	}
	end := d.last
	type iv struct {
		p *pb.ExecuteActionResponse
		k *call
	}
	var ivs []iv
	for i, r := range rs {
		k := d.invoked(r, roles)
		d.response(r, k, ps[i], false)
		if k == nil || ps[i].GetStatus().GetCode() != pb.StatusCode_STATUS_OK {
			continue
		}
		d.refs(ps[i].GetRoles())
		d.states(ps[i].GetRoleStates(), r.pb.GetOptions().GetCaptureState(), d.after(k))
		ivs = append(ivs, iv{ps[i], k})
		end = max(end, ps[i].GetExecTime().GetEndUnixNano())
	}
	for _, a := range ivs {
		for _, b := range ivs {
			if a.p.ExecTime.GetEndUnixNano() < b.p.ExecTime.GetStartUnixNano() && a.k.to > b.k.from {
				d.fail("call %d is reported to have ended before call %d started, it ended after", a.k.cid, b.k.cid)
			}
		}
	}
	d.last = end
	return ps
}
